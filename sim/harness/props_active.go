//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"reflect"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C15", propC15)
	register("C16", propC16)
}

// retrievals captures what the hash tables return while a layer is queried.
type retrievals struct{ got [][]int }

func captureRetrievals(w *World) *retrievals {
	rt := &retrievals{}
	w.OnCall("lsh.LSH.RetrieveRaw", func(args []any) func([]any) {
		return func(res []any) {
			if len(res) == 1 {
				if r, ok := res[0].([][]int); ok {
					rt.got = nil
					for _, b := range r {
						rt.got = append(rt.got, append([]int(nil), b...))
					}
				}
			}
		}
	})
	return rt
}

// checkActive judges one active set.
func checkActive(w *World, s netSpec, sparsity float64, typ node.NodeType, p probe, rt *retrievals, adversarial bool) {
	n := p.la.NumOfNodes()
	seen := map[int]bool{}
	what := fmt.Sprintf("layer %d (%d neurons, sparsity %v, labels %v)", p.layerIndex, n, sparsity, p.label)
	for _, x := range p.out {
		w.Check(x.Index >= 0 && x.Index < n, "active-out-of-range", "%s: neuron %d is active", what, x.Index)
		w.Check(!seen[x.Index], "active-twice", "%s: neuron %d is active twice", what, x.Index)
		seen[x.Index] = true
	}
	w.Observe(len(p.out))
	labels := map[int]bool{}
	if typ == node.Softmax {
		for _, l := range p.label {
			labels[l] = true
		}
	}
	if sparsity == 1 {
		w.Check(len(p.out) == n, "not-all-active", "%s: %d neurons active, want all", what, len(p.out))
		return
	}
	for l := range labels {
		w.Check(seen[l], "label-not-active", "%s: the neuron of label %d is not active", what, l)
	}
	switch s.mode {
	case configuration.LayerMode2, configuration.LayerMode3:
		want := int(math.Floor(float64(n) * sparsity))
		w.Check(len(p.out) == want, "wrong-sample-size", "%s: %d neurons active, want %d", what, len(p.out), want)
		if s.mode == configuration.LayerMode3 {
			worst := math.Inf(1)
			score := func(i int) float64 {
				nd := p.la.GetNodeById(i)
				ws := nd.Weights()
				z := nd.Bias()
				for _, x := range p.in {
					z += ws[x.Index] * x.Value
				}
				return z
			}
			for _, x := range p.out {
				if !labels[x.Index] {
					worst = math.Min(worst, score(x.Index))
				}
			}
			for i := 0; i < n; i++ {
				if !seen[i] {
					w.Check(score(i) <= worst+1e-9, "not-the-top-scores", "%s: neuron %d scores %v and is left out, another with %v is active", what, i, score(i), worst)
				}
			}
		}
	default:
		if len(rt.got) != p.laL(s) {
			w.Hit("retrieval-not-observed")
			return
		}
		counts := map[int]int{}
		for _, b := range rt.got {
			for _, id := range b {
				counts[id]++
			}
		}
		w.Hit("retrieval-observed")
		if s.mode == configuration.LayerMode1 {
			for id, c := range counts {
				w.Check(seen[id] || c <= 2, "retrieved-not-active", "%s: neuron %d came out of %d tables and is not active", what, id, c)
			}
			for id := range seen {
				w.Check(labels[id] || counts[id] > 2, "active-not-retrieved", "%s: neuron %d is active but came out of %d tables only", what, id, counts[id])
			}
			return
		}
		c := len(counts)
		for l := range labels {
			if counts[l] == 0 {
				c++
			}
		}
		for id := range counts {
			w.Check(seen[id], "retrieved-not-active", "%s: neuron %d came out of a table and is not active", what, id)
		}
		want := max(c, min(n, 1000))
		w.Check(len(p.out) == want, "wrong-sample-size", "%s: %d neurons active, want %d (%d retrieved or labels)", what, len(p.out), want, c)
		if c > 1000 {
			w.Hit("more-than-1000-retrieved")
		}
		if c > 1500 {
			w.Hit("more-than-1500-retrieved")
		}
		if n > 1000 && c < 1000 {
			w.Hit("padded-to-1000")
		}
	}
}

func (p probe) laL(s netSpec) int { return s.l[p.layerIndex] }

// C15: the active set is sound in every mode, under any random draws.
func propC15(w *World) {
	environment(w, true)
	o := netDefaults
	o.maxOut = 40
	shape := w.Draw(40)
	big := shape == 1 || shape == 2
	if shape == 3 && w.Chance(1, 12) {
		hugeLayer(w)
		return
	}
	if big {
		o.wide = false
		// more neurons than a pass may activate
		o.maxLayers, o.minOut, o.maxOut, o.minIn, o.maxIn = 1, 900, 3200, 12, 24
		o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode4, configuration.LayerMode2, configuration.LayerMode1}
	}
	s := genNet(w, o)
	if big {
		s.hash = simrt.Pick(w, configuration.DensifiedWtaHashFunction, configuration.DensifiedWtaHashFunction, configuration.SparseRandomProjectionHashFunction)
		s.k[0], s.l[0] = min(2, w.Int(1, 4)), w.Int(3, 40)
		if w.Chance(1, 4) {
			s.l[0] = w.Int(40, 70)
		}
		s.rangePow[0] = tableSize(s.hash, s.k[0], s.inputDim)
		s.sparsity = []float64{0.5, 0.5}
		s.batch = 2
	}
	s.install()
	w.Logf("network %v", s)
	rt := captureRetrievals(w)
	net := s.build(0)
	training := false
	sampled := 0
	onQuery(w, func(p probe) {
		sp := s.sparsity[p.layerIndex]
		if !training {
			sp = s.sparsity[s.layers+p.layerIndex]
		}
		checkActive(w, s, sp, s.types[p.layerIndex], p, rt, false)
		if sp < 1 {
			sampled++
		}
		rt.got = nil
	})
	r := w.Rand()
	it := iterStarts[w.Int(0, len(iterStarts)-1)]
	steps := w.Int(1, 6)
	if big {
		steps = w.Int(1, 2)
	}
	labels := 6
	if w.Chance(1, 8) || big && w.Chance(1, 3) {
		labels = 40
	}
	for i := 0; i < steps; i++ {
		var b []dataset.Example
		for k := w.Int(1, s.batch); k > 0; k-- {
			b = append(b, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: min(labels, s.maxLabels()), dupLabels: true}))
			if big && w.Chance(1, 2) {
				// as many labels as the sampling mode's limits are
				n := simrt.Pick(w, 1000, 1500, 1000, 1250) + w.Int(-15, 15)
				b[len(b)-1].Labels = r.Perm(s.sizes[0])[:min(n, s.maxLabels())]
				w.Hit("as-many-labels-as-the-limits")
			}
		}
		if big && w.Chance(1, 2) {
			layersOf(w, net)[0].ClearHashTables()
			w.Hit("empty-tables")
		}
		if training = w.Chance(2, 3); training {
			_, net = net.ProcessInput(0, b, it, r.Intn(3) == 0, r.Intn(4) == 0)
			it++
		} else {
			_, net = net.PredictClass(0, b)
		}
	}
	w.NonTrivial = sampled > 0
}

// a layer with more neurons than any of the data sets the program was made for
func hugeLayer(w *World) {
	n := w.Int(325_040, 330_000)
	s := netSpec{layers: 1, sizes: []int{n}, types: []node.NodeType{node.Softmax}, batch: 1, lr: 0.01, inputDim: 2,
		k: []int{1}, l: []int{3}, rangePow: []int{3}, sparsity: []float64{0.001, 0.001}, hash: configuration.DensifiedWtaHashFunction,
		mode: simrt.Pick(w, configuration.LayerMode2, configuration.LayerMode4)}
	s.install()
	w.Logf("network %v", s)
	rt := captureRetrievals(w)
	la := s.buildLayer(0, 0)
	for k := 0; k < 3; k++ {
		act := [][]index_value.Pair{{{Index: 0, Value: 1}}, nil}
		label := []int{w.Int(0, n-1), n - 1 - w.Int(0, 20)}
		rt.got = nil
		_, nl := la.QueryActiveNodeAndComputeActivations(0, act, 0, 0, label, s.sparsity[0])
		checkActive(w, s, s.sparsity[0], node.Softmax, probe{la: nl, label: label, in: act[0], out: act[1]}, rt, false)
	}
	w.Hit("layer-larger-than-the-bit-set")
	w.NonTrivial = true
}

// ---------------------------------------------------------------- where neurons are found

func pairsOf(ws []float64) pairs {
	var out pairs
	for i, x := range ws {
		out = append(out, index_value.Pair{Index: i, Value: x})
	}
	return out
}

// checkTables says whether lookups in la find what is stored now and nothing else.
func checkTables(w *World, when string, la *layer.Layer, li, slot int, order func(pairs) pairs) {
	n := la.NumOfNodes()
	addr := make([][]int, n)
	for m := 0; m < n; m++ {
		addr[m] = la.HashesToIndex(la.GetHashForInputProcessing(la.GetNodeById(m).Weights()))
	}
	// how many neurons belong into each bucket; full ones cannot hold them all
	const capacity = 128
	pop := map[[2]int]int{}
	for m := range addr {
		for t, a := range addr[m] {
			pop[[2]int{t, a}]++
		}
	}
	mode := configuration.Global.LayerMode
	configuration.Global.LayerMode = configuration.LayerMode1
	defer func() { configuration.Global.LayerMode = mode }()
	rt := captureRetrievals(w)
	defer w.OnCall("lsh.LSH.RetrieveRaw", nil)
	found := 0
	for m := 0; m < n; m++ {
		act := make([][]index_value.Pair, li+2)
		act[li] = order(pairsOf(la.GetNodeById(m).Weights()))
		rt.got = nil
		la.QueryActiveNodeAndComputeActivations(0, act, li, slot, nil, 0.5)
		got := map[int]bool{}
		for _, p := range act[li+1] {
			got[p.Index] = true
		}
		room := true
		for t, a := range addr[m] {
			room = room && pop[[2]int{t, a}] <= capacity
		}
		w.Check(got[m] || !room, "neuron-lost", "%s, layer %d: a lookup with the weights of neuron %d of %d does not find it", when, li, m, n)
		for x := 0; x < n; x++ {
			same, sure := 0, 0
			for t := range addr[x] {
				if addr[x][t] == addr[m][t] {
					same++
					if pop[[2]int{t, addr[m][t]}] <= capacity {
						sure++
					}
				}
			}
			w.Check(!got[x] || same > 2, "stale-entry", "%s, layer %d: a lookup with the weights of neuron %d finds neuron %d, but the two share %d of %d buckets", when, li, m, x, same, len(addr[m]))
			w.Check(got[x] || sure <= 2, "neuron-lost", "%s, layer %d: a lookup with the weights of neuron %d does not find neuron %d, but the two share %d of %d buckets", when, li, m, x, sure, len(addr[m]))
			if got[x] && x != m {
				found++
			}
		}
		if len(rt.got) != len(addr[m]) {
			w.Hit("retrieval-not-observed")
			continue
		}
		for t, b := range rt.got {
			a := addr[m][t]
			want := min(pop[[2]int{t, a}], capacity)
			if want == capacity {
				w.Hit("full-bucket")
			}
			w.Check(len(b) == want, "wrong-bucket", "%s, layer %d: table %d holds %d neurons where neuron %d belongs, want %d", when, li, t, len(b), m, want)
			in := map[int]bool{}
			for _, x := range b {
				w.Check(x >= 0 && x < n && addr[x][t] == a && !in[x], "wrong-bucket", "%s, layer %d: table %d holds neuron %d, twice or where it does not belong", when, li, t, x)
				in[x] = true
			}
		}
	}
	w.Observe(found)
	w.Hit("tables-checked")
}

// C16: every neuron is stored where lookups go.
func propC16(w *World) {
	environment(w, false)
	o := netDefaults
	o.maxHidden, o.maxOut, o.maxBatch = 20, 30, 2
	o.modes = []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4}
	if w.Chance(1, 25) {
		o.maxOut, o.minOut, o.maxLayers = 300, 100, 1
	}
	if w.Chance(1, 6) {
		o.minIn, o.maxIn = 31, 70
	}
	s := genNet(w, o)
	for i := 0; i < s.layers; i++ {
		if w.Chance(1, 2) {
			s.sparsity[i] = 0.5
		}
	}
	s.install()
	w.Logf("network %v", s)
	r := w.Rand()
	order := func(p pairs) pairs { return p }
	if w.Chance(1, 2) {
		order = func(p pairs) pairs { r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] }); return p }
	}
	net := s.build(0)
	verify := func(when string, need func(li int) bool) {
		for li, la := range layersOf(w, net) {
			if need(li) {
				checkTables(w, when, la, li, 0, order)
			}
		}
	}
	verify("after construction", func(int) bool { return true })
	it := w.Int(0, 100)
	steps := w.Int(1, 5)
	for i := 0; i < steps; i++ {
		var b []dataset.Example
		for k := 0; k < s.batch; k++ {
			b = append(b, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: 3}))
		}
		rehash, rebuild := w.Chance(1, 2), w.Chance(1, 3)
		w.Logf("step %d: rehash=%v rebuild=%v", i, rehash, rebuild)
		old := probeCodes(w, s, net)
		var keys [][][]float64
		var before []string
		if !rehash && !rebuild {
			keys = probeKeys(w, net)
			before = findings(w, net, keys)
		}
		if w.Chance(1, 4) {
			// an evaluation may come at any time
			if keys == nil {
				keys = probeKeys(w, net)
				before = findings(w, net, keys)
			}
			_, net = net.PredictClass(0, b)
			for li, f := range findings(w, net, keys) {
				w.Check(f == before[li], "tables-changed", "an evaluation changed what lookups in layer %d find:\n%s\nand now\n%s", li, before[li], f)
			}
			w.Hit("evaluated-between-steps")
		}
		_, net = net.ProcessInput(0, b, it, rehash, rebuild)
		it++
		if !rehash && !rebuild {
			for li, f := range findings(w, net, keys) {
				w.Check(f == before[li], "tables-changed", "a step without rehash or rebuild changed what lookups in layer %d find:\n%s\nand now\n%s", li, before[li], f)
			}
			w.Hit("tables-left-alone")
		}
		for li, codes := range probeCodes(w, s, net) {
			if !rebuild {
				w.Check(codes == old[li], "hash-functions-changed", "a step without rebuild changed the hash functions of layer %d", li)
			} else if s.sparsity[li] < 1 && s.manyFunctions(li) {
				w.Check(codes != old[li], "rebuild-without-effect", "after a rebuild layer %d still has the hash functions it had before", li)
				w.Hit("new-functions-after-rebuild")
			}
		}
		if rehash || rebuild {
			verify(fmt.Sprintf("after a step with rehash=%v rebuild=%v", rehash, rebuild), func(li int) bool { return s.sparsity[li] < 1 })
			w.NonTrivial = true
		}
	}
	if w.Chance(1, 4) {
		// the same by hand, through the exported operations of a layer
		la := layersOf(w, net)[s.layers-1]
		if w.Chance(1, 2) {
			la = la.UpdateTable(0)
		}
		la.ClearHashTables()
		checkEmpty(w, la, s.layers-1)
		perm := r.Perm(la.NumOfNodes())
		for _, m := range perm {
			la.HashTablesAdd(la.HashesToIndex(la.GetHashForInputProcessing(la.GetNodeById(m).Weights())), m)
		}
		checkTables(w, "after clearing and adding again", la, s.layers-1, 0, order)
		w.Hit("tables-refilled-by-hand")
	}
}

// dim is the number of inputs of a neuron of a layer.
func (s netSpec) dim(li int) int {
	if li == 0 {
		return s.inputDim
	}
	return s.sizes[li-1]
}

// manyFunctions: two draws of a layer's hash functions practically never hash
// the probe vectors alike.
func (s netSpec) manyFunctions(li int) bool {
	d, n := s.dim(li), s.k[li]*s.l[li]
	switch s.hash {
	case configuration.DensifiedMinhashFunction:
		return d >= 40 && n >= 6
	case configuration.SparseRandomProjectionHashFunction:
		return math.Pow(float64(2*d), float64(n)) > 1e11
	}
	return d >= 12 && n >= 4
}

// probeCodes is how the layers of a network hash a few fixed vectors.
func probeCodes(w *World, s netSpec, net *network.Network) []string {
	var out []string
	for li, la := range layersOf(w, net) {
		r := mrand.New(mrand.NewSource(int64(li) + 77))
		t := ""
		for k := 0; k < 16; k++ {
			v := make([]float64, s.dim(li))
			for i := range v {
				v[i] = r.NormFloat64()
			}
			t += fmt.Sprint(la.GetHashForInputProcessing(v))
		}
		out = append(out, t)
	}
	return out
}

// probeKeys are vectors to look up: the present weights of the neurons.
func probeKeys(w *World, net *network.Network) [][][]float64 {
	var out [][][]float64
	for _, la := range layersOf(w, net) {
		var k [][]float64
		for m := 0; m < la.NumOfNodes() && m < 12; m++ {
			k = append(k, append([]float64(nil), la.GetNodeById(m).Weights()...))
		}
		out = append(out, k)
	}
	return out
}

// findings is what lookups with the given vectors find in each layer, whatever
// the order.
func findings(w *World, net *network.Network, keys [][][]float64) []string {
	mode := configuration.Global.LayerMode
	configuration.Global.LayerMode = configuration.LayerMode1
	rt := captureRetrievals(w)
	defer func() {
		configuration.Global.LayerMode = mode
		w.OnCall("lsh.LSH.RetrieveRaw", nil)
	}()
	var out []string
	for li, la := range layersOf(w, net) {
		t := ""
		for _, v := range keys[li] {
			act := make([][]index_value.Pair, li+2)
			act[li] = pairsOf(v)
			rt.got = nil
			la.QueryActiveNodeAndComputeActivations(0, act, li, 0, nil, 0.5)
			var found []int
			for _, p := range act[li+1] {
				found = append(found, p.Index)
			}
			sort.Ints(found)
			t += fmt.Sprint(found)
			for _, b := range rt.got {
				sort.Ints(b)
				t += fmt.Sprint(b)
			}
			t += ";"
		}
		out = append(out, t)
	}
	return out
}

func checkEmpty(w *World, la *layer.Layer, li int) {
	mode := configuration.Global.LayerMode
	configuration.Global.LayerMode = configuration.LayerMode1
	defer func() { configuration.Global.LayerMode = mode }()
	for m := 0; m < la.NumOfNodes(); m++ {
		act := make([][]index_value.Pair, li+2)
		act[li] = pairsOf(la.GetNodeById(m).Weights())
		la.QueryActiveNodeAndComputeActivations(0, act, li, 0, nil, 0.5)
		w.Check(len(act[li+1]) == 0, "stale-entry", "layer %d: after clearing the tables a lookup still finds %d neurons", li, len(act[li+1]))
	}
}

var _ = reflect.TypeOf
var _ = sort.Ints
var _ network.Network
