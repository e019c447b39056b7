//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	mrand "math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C27", propC27)
	register("C28", propC28)
	register("C29", propC29)
	register("C30", propC30)
	register("C31", propC31)
	register("C32", propC32)
}

// C27: networks of one process do not influence each other.
func propC27(w *World) {
	environment(w, false)
	o := netDefaults
	o.maxLayers, o.maxHidden, o.maxOut, o.maxIn, o.maxBatch = 2, 6, 8, 12, 3
	n := w.Int(2, 3)
	steps := 4
	if w.Chance(1, 40) {
		// layers so large that sampling leaves neurons out at random
		o.modes = []configuration.LayerModeType{configuration.LayerMode4}
		o.minOut, o.maxOut, o.maxBatch, o.maxIn, o.maxHidden = 1001, 1020, 2, 4, 3
		n, steps = 2, 3
		w.Hit("randomly-topped-up-layer")
	}
	var lives []life
	for i := 0; i < n; i++ {
		l := genLife(w, o, steps)
		if i == 0 {
			// the settings all networks of a process share
			o.modes = []configuration.LayerModeType{l.s.mode}
			o.hashes = []configuration.HashFunctionType{l.s.hash}
			o.adam = 2
			if l.s.adam {
				o.adam = 1
			}
		}
		w.Logf("network %d: %v, %d steps", i, l.s, len(l.steps))
		lives = append(lives, l)
	}
	lives[0].s.install()
	before := fmt.Sprintf("%+v", *configuration.Global)
	base := w.Seed()
	type outcome struct {
		ps     []layerParams
		counts []int
	}
	one := func(i int) (out outcome) {
		l := lives[i]
		net := l.s.build(0)
		for _, st := range l.steps {
			if st.eval {
				var c int
				c, net = net.PredictClass(0, cloneBatch(st.batch))
				out.counts = append(out.counts, c)
			} else {
				_, net = net.ProcessInput(0, cloneBatch(st.batch), st.iter, st.rehash, st.rebuild)
			}
		}
		out.ps = snapshot(w, net, l.s.adam)
		return out
	}
	start := func(i int, outs []outcome) *simrt.Task {
		t := w.Go(fmt.Sprintf("network-%d", i), func() { outs[i] = one(i) })
		t.Rng = simrt.NewStream(base + int64(i))
		t.Entropy = mrand.New(mrand.NewSource(base + 100 + int64(i)))
		return t
	}
	alone := make([]outcome, n)
	for i := range lives {
		w.Join(start(i, alone))
	}
	judge := func(when string, outs []outcome) {
		for i := range outs {
			w.Check(equalInts(alone[i].counts, outs[i].counts), "networks-interfere", "%s: network %d predicts %v correctly, alone %v", when, i, outs[i].counts, alone[i].counts)
			if d := firstDiff(alone[i].ps, outs[i].ps); d != "" {
				w.Fail("networks-interfere", "%s: network %d trains to another model than alone (alone and with the others): %s", when, i, d)
			}
		}
	}
	// again, the other way round: nothing left over from the first time
	again := make([]outcome, n)
	for i := n - 1; i >= 0; i-- {
		w.Join(start(i, again))
	}
	judge("one after the other", again)
	w.Schedule(true)
	together := make([]outcome, n)
	var ts []*simrt.Task
	for i := range lives {
		ts = append(ts, start(i, together))
	}
	if w.Chance(1, 6) {
		w.Stall(ts[w.Int(0, n-1)])
	}
	w.Join(ts...)
	judge("at the same time", together)
	after := fmt.Sprintf("%+v", *configuration.Global)
	w.Check(before == after, "settings-changed", "working with networks changed the settings: %s became %s", before, after)
	for i := range together {
		observeParams(w, together[i].ps)
	}
	w.NonTrivial = true
}

// chanceBound is how far a binomial count may stray: the probability of more is
// below 1e-12 (Bernstein's inequality).
func chanceBound(q, p float64) float64 {
	const l = 27.7
	return l/3 + math.Sqrt(l*l/9+2*l*q*p*(1-p))
}

// C28: random activation gives every neuron the same chance.
func propC28(w *World) {
	environment(w, false)
	if w.Chance(1, 3) {
		fillTogether(w)
		return
	}
	s := netSpec{layers: 1, batch: 1, lr: 0.01, inputDim: w.Int(2, 6), types: []node.NodeType{node.Softmax}}
	s.hash = allHashes[w.Int(0, len(allHashes)-1)]
	s.mode = simrt.Pick(w, configuration.LayerMode2, configuration.LayerMode2, configuration.LayerMode2, configuration.LayerMode4)
	s.k, s.l = []int{1}, []int{3}
	s.rangePow = []int{tableSize(s.hash, 1, s.inputDim)}
	sp := simrt.Pick(w, 0.5, 0.1, 0.9, 0.25, 0.75)
	s.sparsity = []float64{sp, sp}
	var q, n int
	if s.mode == configuration.LayerMode2 {
		q, n = 2000, w.Int(2, 60)
	} else {
		q, n = 150, simrt.Pick(w, 1001, 1500, 1100, 2000, 2500)
	}
	s.sizes = []int{n}
	s.install()
	la := s.buildLayer(0, 0)
	r := w.Rand()
	var label []int
	active := int(math.Floor(float64(n) * sp))
	if s.mode == configuration.LayerMode4 {
		la.ClearHashTables()
		active = 1000
	} else if active > 0 {
		label = r.Perm(n)[:w.Int(0, min(active, 3))]
	}
	if w.Chance(1, 2) {
		la.UpdateRandomNodes()
	}
	w.Logf("layer %v, labels %v, %d queries", s, label, q)
	isLabel := map[int]bool{}
	for _, l := range label {
		isLabel[l] = true
	}
	counts := make([]int, n)
	in := pairs{{Index: 0, Value: 1}}
	same, prev := 0, ""
	for i := 0; i < q; i++ {
		act := make([][]index_value.Pair, 2)
		act[0] = in
		var got int
		_, la = la.QueryActiveNodeAndComputeActivations(0, act, 0, 0, label, sp)
		on := make([]bool, n)
		for _, x := range act[1] {
			if x.Index >= 0 && x.Index < n {
				counts[x.Index]++
				on[x.Index] = true
				got++
			}
		}
		if i < 40 {
			t := fmt.Sprint(on)
			if t == prev {
				same++
			}
			prev = t
		}
		if got != active {
			w.Hit("other-sample-size") // judged by C15
			return
		}
	}
	p := float64(active-len(label)) / float64(n-len(label))
	for i := 0; i < n; i++ {
		w.Observe(counts[i])
		if isLabel[i] {
			continue
		}
		want := float64(q) * p
		w.Check(math.Abs(float64(counts[i])-want) <= chanceBound(float64(q), p), "unequal-chances",
			"neuron %d of %d was active in %d of %d queries, want about %.1f (%d active per query, labels %v)", i, n, counts[i], q, want, active, label)
	}
	if p > 0 && p < 1 && n >= 20 && s.mode == configuration.LayerMode2 && p >= 0.25 && p <= 0.75 {
		w.Check(same == 0, "repeated-sample", "%d of 40 consecutive queries activated the same neurons", same)
	}
	w.NonTrivial = p > 0 && p < 1
}

// checkShape compares layers with the settings they were built from.
func checkShape(w *World, s netSpec, layers []*layer.Layer) {
	w.Check(len(layers) == s.layers, "wrong-shape", "%d layers, want %d", len(layers), s.layers)
	dim := s.inputDim
	for li, la := range layers {
		w.Check(la.NumOfNodes() == s.sizes[li] && len(la.GetAllNodes()) == s.sizes[li], "wrong-shape", "layer %d has %d neurons, want %d", li, la.NumOfNodes(), s.sizes[li])
		for j := 0; j < s.sizes[li]; j++ {
			nd := la.GetNodeById(j)
			w.Check(len(nd.Weights()) == dim, "wrong-shape", "layer %d neuron %d has %d weights, want %d", li, j, len(nd.Weights()), dim)
			if s.adam {
				w.Check(nd.AdamTDim() == dim, "wrong-shape", "layer %d neuron %d has optimizer state for %d weights, want %d", li, j, nd.AdamTDim(), dim)
			}
		}
		codes := la.GetHashForInputProcessing(la.GetNodeById(0).Weights())
		w.Check(len(codes) == s.k[li]*s.l[li], "wrong-shape", "layer %d has %d hash functions, want %d in each of %d tables", li, len(codes), s.k[li], s.l[li])
		places := la.HashesToIndex(codes)
		w.Check(len(places) == s.l[li], "wrong-shape", "layer %d has %d hash tables, want %d", li, len(places), s.l[li])
		dim = s.sizes[li]
	}
}

// C29: a new network starts from small random parameters and clean state.
func propC29(w *World) {
	environment(w, false)
	o := netOpts{maxLayers: 3, maxHidden: 30, maxOut: 40, minOut: 1, maxIn: 60, maxBatch: 5, minL: 1, modes: allModes, hashes: allHashes, wide: true}
	s := genNet(w, o)
	if w.Chance(1, 40) {
		s = netSpec{layers: 1, sizes: []int{w.Int(60, 150)}, types: []node.NodeType{node.Softmax}, batch: 1, lr: 0.01, inputDim: w.Int(100, 200),
			k: []int{1}, l: []int{1}, rangePow: []int{8}, sparsity: []float64{1, 1}, hash: allHashes[w.Int(0, len(allHashes)-1)], mode: s.mode, adam: s.adam}
		w.Hit("over-6000-parameters")
	}
	s.install()
	w.Logf("network %v", s)
	net := s.build(w.Int(0, 2))
	layers := layersOf(w, net)
	checkShape(w, s, layers)
	dim := s.inputDim
	seen := map[uint64]bool{}
	repeats, total := 0, 0
	sum, sum2, n1 := 0.0, 0.0, 0
	for li, la := range layers {
		for j := 0; j < s.sizes[li]; j++ {
			nd := la.GetNodeById(j)
			vs := append(append([]float64(nil), nd.Weights()...), nd.Bias())
			for d, x := range vs {
				w.Check(!math.IsNaN(x) && math.Abs(x) < 0.01*8, "weights-not-small", "layer %d neuron %d parameter %d is %v", li, j, d, x)
				sum += x
				sum2 += x * x
				if math.Abs(x) < 0.01 {
					n1++
				}
				total++
				if seen[math.Float64bits(x)] {
					repeats++
				}
				seen[math.Float64bits(x)] = true
			}
			if s.adam {
				for d := 0; d < dim; d++ {
					w.Check(nd.GetT(d) == 0 && nd.GetAdamAvgMom(d) == 0 && nd.GetAdamAvgVel(d) == 0, "state-not-blank", "layer %d neuron %d weight %d starts with optimizer state %v %v %v", li, j, d, nd.GetT(d), nd.GetAdamAvgMom(d), nd.GetAdamAvgVel(d))
				}
			}
			w.Check(nd.GetTBias() == 0 && nd.GetAdamAvgMomBias() == 0 && nd.GetAdamAvgVelBias() == 0, "state-not-blank", "layer %d neuron %d starts with bias optimizer state", li, j)
			for slot := 0; slot < s.batch; slot++ {
				w.Check(nd.GetLastActivation(slot) == 0, "state-not-blank", "layer %d neuron %d starts with an activation in slot %d", li, j, slot)
			}
		}
		dim = s.sizes[li]
	}
	// draws with no more than 32 random bits may meet now and then
	w.Check(repeats <= 4+total/2000*total/1_000_000, "weights-repeat", "%d of %d initial parameters repeat another one", repeats, total)
	// the distribution the draws must have: mean 0, deviation 0.01
	N := float64(total)
	w.Check(math.Abs(sum/N) <= 7.5*0.01/math.Sqrt(N), "weights-not-centred", "the mean of %d initial parameters is %v", total, sum/N)
	if total >= 400 {
		dev := math.Sqrt(sum2 / N)
		w.Check(math.Abs(dev/0.01-1) <= 7.5/math.Sqrt(2*N), "weights-wrong-scale", "the deviation of %d initial parameters is %v, want about 0.01", total, dev)
		within := float64(n1)
		w.Check(math.Abs(within-0.6827*N) <= chanceBound(N, 0.6827), "weights-wrong-shape", "%d of %d initial parameters are within one deviation, want about %.0f", n1, total, 0.6827*N)
		w.NonTrivial = true
	}
	// every neuron owns its parameters
	before := snapshot(w, net, s.adam)
	li := w.Int(0, s.layers-1)
	j := w.Int(0, s.sizes[li]-1)
	nd := layers[li].GetNodeById(j)
	d := w.Int(0, len(nd.Weights())-1)
	nd.Weights()[d] += 1
	if s.adam {
		w.Check(scribbleState(nd, d), "storage-shared", "the two moments of parameter %d of neuron %d of layer %d are one", d, j, li)
	}
	after := snapshot(w, net, s.adam)
	before[li].w[j][d] = after[li].w[j][d]
	if s.adam {
		before[li].mom[j][d], before[li].vel[j][d] = after[li].mom[j][d], after[li].vel[j][d]
	}
	if diff := firstDiff(before, after); diff != "" {
		w.Fail("storage-shared", "changing parameter %d of neuron %d of layer %d changed another (before and after): %s", d, j, li, diff)
	}
	w.Observe(sum)
}

// scribbleState writes optimizer state of a neuron through its own operations.
func scribbleState(nd *node.Node, d int) bool {
	for id := 0; id < 3; id++ {
		// the owner's identity is not readable: the one that writes in place is it
		m := nd.SetAdamAvgMom(id, d, 1.5)
		if m == nd {
			nd.SetAdamAvgVel(id, d, 2.5)
			return nd.GetAdamAvgMom(d) == 1.5 && nd.GetAdamAvgVel(d) == 2.5
		}
	}
	return true
}

// reports is what the program said about accuracy and progress, without times.
func reports(text string) string {
	var out []string
	for _, m := range overallRE.FindAllStringSubmatch(text, -1) {
		out = append(out, "overall "+m[1])
	}
	for _, m := range runningRE.FindAllStringSubmatch(text, -1) {
		out = append(out, "batch "+m[1]+" "+m[2])
	}
	for _, m := range summaryRE.FindAllStringSubmatch(text, -1) {
		out = append(out, "summary "+m[1]+" "+m[3])
	}
	return strings.Join(out, "; ")
}

// redress renders the same records as another text.
func (d *doc) redress(w *World) *doc {
	e := *d
	e.eol, e.mixed, e.finalEol = "\n", nil, true
	genFormat(w, &e)
	return &e
}

// reencode writes the same settings in another order and layout.
func reencode(w *World, conf []byte) []byte {
	var m map[string]json.RawMessage
	if json.Unmarshal(conf, &m) != nil {
		w.Broken("the generated configuration is not JSON")
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := w.Rand()
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	var b bytes.Buffer
	b.WriteString("{")
	ws := []string{"", " ", "\n", "\r\n\t", "  "}
	for i, k := range keys {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(ws[r.Intn(5)] + strconv.Quote(k) + ws[r.Intn(5)] + ":" + ws[r.Intn(5)])
		b.Write(m[k])
		b.WriteString(ws[r.Intn(5)])
	}
	b.WriteString("}" + ws[r.Intn(5)])
	return b.Bytes()
}

// C30: the run's outcome is a function of configuration, records and draws.
func propC30(w *World) {
	environment(w, false)
	o := pipeDefaults
	o.net.maxOut, o.net.maxBatch, o.net.maxLayers = 8, 3, 2
	o.maxBatches, o.maxEpochs = 4, 2
	p := genPipe(w, o)
	base := w.Seed()
	type outcome struct {
		events  []event
		model   []layerParams
		reports string
	}
	run := func(q pipe, mode simrt.ClockMode, order int64) outcome {
		reseed(w, base)
		w.Clock.Set(mode, order)
		w.SetMapOrder(order)
		q.events, q.model, q.done = nil, nil, false
		from := len(simrt.StderrText())
		q.run(nil)
		q.mustSucceed()
		out := outcome{events: q.events, reports: reports(simrt.StderrText()[from:])}
		if q.model != nil {
			out.model = snapshot(w, q.model, q.spec.adam)
		}
		return out
	}
	first := run(*p, simrt.ClockSteady, base)
	for k := 0; k < 2; k++ {
		q := *p
		q.train, q.test = p.train.redress(w), p.test.redress(w)
		q.conf = reencode(w, p.conf)
		q.cpu, q.mem = p.cpu, p.mem
		w.Fault("surroundings-changed")
		second := run(q, simrt.Pick(w, simrt.ClockSteady, simrt.ClockFrozen, simrt.ClockJumpy), w.Seed())
		w.Check(len(first.events) == len(second.events), "surroundings-matter", "%d training steps and evaluation batches in one run, %d in the other", len(first.events), len(second.events))
		for i, a := range first.events {
			b := second.events[i]
			w.Check(a.kind == b.kind && a.iter == b.iter && a.rehash == b.rehash && a.rebuild == b.rebuild && sameBatch(a.batch, b.batch), "surroundings-matter",
				"event %d is %c iteration %d rehash %v rebuild %v %s in one run and %c %d %v %v %s in the other", i, a.kind, a.iter, a.rehash, a.rebuild, batchString(a.batch), b.kind, b.iter, b.rehash, b.rebuild, batchString(b.batch))
			w.Check(a.correct == b.correct, "surroundings-matter", "evaluation batch %d: %d and %d correct predictions", i, a.correct, b.correct)
		}
		if d := firstDiff(first.model, second.model); d != "" {
			w.Fail("surroundings-matter", "two runs on the same configuration, records and draws train different models: %s", d)
		}
		w.Check(first.reports == second.reports, "surroundings-matter", "reports differ: %s and %s", first.reports, second.reports)
	}
	observeParams(w, first.model)
	w.NonTrivial = len(first.events) > 2
}

// C31: training on data that can be learned ends with correct predictions.
func propC31(w *World) {
	environment(w, false)
	p := &pipe{w: w}
	s := &p.spec
	r := w.Rand()
	classes := w.Int(2, 6)
	own := w.Int(1, 3) // features that tell a class
	noise := w.Int(0, 3)
	s.inputDim = classes*own + noise
	s.batch = w.Int(2, 6)
	s.adam = !w.Chance(1, 3)
	s.hash = allHashes[w.Int(0, len(allHashes)-1)]
	s.mode = allModes[w.Int(0, len(allModes)-1)]
	s.layers = 1
	if s.adam && w.Chance(2, 3) {
		s.layers = 2
	}
	s.lr = 0.005
	if !s.adam {
		s.lr = 0.5
	}
	dim := s.inputDim
	for i := 0; i < s.layers; i++ {
		size := classes
		if i < s.layers-1 {
			size = w.Int(32, 48)
		}
		s.sizes = append(s.sizes, size)
		k := 1
		if s.hash >= configuration.DensifiedMinhashFunction {
			k = 2
		}
		rp := tableSize(s.hash, k, dim)
		if s.hash == configuration.DensifiedMinhashFunction {
			rp = 4
		}
		s.k, s.l, s.rangePow = append(s.k, k), append(s.l, 4), append(s.rangePow, rp)
		dim = size
	}
	for half := 0; half < 2; half++ {
		for i := 0; i < s.layers; i++ {
			sp := 1.0
			if half == 0 && w.Chance(1, 2) {
				switch s.mode {
				case configuration.LayerMode4:
					sp = 0.5 // small layers: everything is sampled
				case configuration.LayerMode2, configuration.LayerMode3:
					if i == s.layers-1 && classes >= 4 {
						sp = 0.5
					}
				}
			}
			s.sparsity = append(s.sparsity, sp)
		}
	}
	// records: the features of their class, and some noise
	d := &doc{eol: "\n", finalEol: true, features: s.inputDim, labels: classes}
	place := make([]int, s.inputDim) // where each feature is in the input
	for i := range place {
		place[i] = i
	}
	if w.Chance(2, 3) {
		place = r.Perm(s.inputDim)
	}
	noisy := simrt.Pick(w, 0.5, 1.0)
	inOrder := w.Chance(1, 2)
	n := classes * w.Int(2, 5)
	n += (s.batch - n%s.batch) % s.batch
	for i := 0; i < n; i++ {
		c := i % classes
		ex := dataset.Example{Labels: []int{c}}
		for f := 0; f < own; f++ {
			ex.Features = append(ex.Features, index_value.Pair{Index: place[c*own+f], Value: 0.8 + 0.4*r.Float64()})
		}
		for f := 0; f < noise; f++ {
			if r.Float64() < noisy {
				ex.Features = append(ex.Features, index_value.Pair{Index: place[classes*own+f], Value: 0.3 * r.Float64()})
			}
		}
		if inOrder {
			sort.Slice(ex.Features, func(i, j int) bool { return ex.Features[i].Index < ex.Features[j].Index })
		} else {
			r.Shuffle(len(ex.Features), func(i, j int) { ex.Features[i], ex.Features[j] = ex.Features[j], ex.Features[i] })
		}
		d.add(r, ex)
	}
	order := r.Perm(n)
	recs, lines := d.recs, d.lines
	d.recs, d.lines = nil, nil
	for _, i := range order {
		d.recs, d.lines = append(d.recs, recs[i]), append(d.lines, lines[i])
	}
	d.points = n
	d.render()
	p.train, p.test = d, d
	p.numBatches, p.testBatches = n/s.batch, n/s.batch
	p.epochs = 500/p.numBatches + 1
	p.stepsize = 1000000
	p.rehash, p.rebuild = 10*s.batch, 25*s.batch
	p.encode()
	w.Logf("learning %v: %d records of %d classes, %d epochs of %d batches", s, n, classes, p.epochs, p.numBatches)
	p.run(nil)
	p.mustSucceed()
	ev := p.evaluations()
	if len(ev) == 0 {
		w.Fail("evaluation-missing", "no evaluation")
	}
	last := ev[len(ev)-1]
	w.Check(last.n == n && last.correct == n, "not-learned", "after %d training steps on separable data %d of %d records are predicted correctly (first evaluation: %d of %d)", last.before, last.correct, last.n, ev[0].correct, ev[0].n)
	w.Observe(ev[0].correct, len(ev))
	observeParams(w, snapshot(w, p.model, s.adam))
	w.NonTrivial = ev[0].correct < n || len(ev) > 1
}

// C32: the program trains the network its configuration describes.
func propC32(w *World) {
	environment(w, false)
	o := pipeDefaults
	o.long = false
	o.maxBatches, o.maxEpochs = 4, 2
	p := genPipe(w, o)
	base := w.Seed()
	k := int64(0)
	next := func() { k++; reseed(w, base+k) }
	training := false
	rt := captureRetrievals(w)
	onQuery(w, func(q probe) {
		sp := p.spec.sparsity[q.layerIndex]
		if !training {
			sp = p.spec.sparsity[p.spec.layers+q.layerIndex]
		}
		checkActive(w, p.spec, sp, p.spec.types[q.layerIndex], q, rt, false)
		rt.got = nil
	})
	p.onStep = func(*network.Network) { next(); training = true }
	p.onEval = func() { next(); training = false }
	built := 0
	p.spend = func(kind byte) {
		if kind == 'N' {
			built++
			k = 0
			reseed(w, base)
		}
	}
	p.run(nil)
	p.mustSucceed()
	if p.model == nil {
		w.Check(len(p.events) == 0, "no-model", "training steps without a model")
		return
	}
	checkShape(w, p.spec, layersOf(w, p.model))
	got := snapshot(w, p.model, p.spec.adam)
	// the same calls on a network built from the settings
	w.OnCall("network.Network.ProcessInput", nil)
	w.OnCall("network.Network.PredictClass", nil)
	w.OnCall("network.New", nil)
	w.OnCall("layer.Layer.QueryActiveNodeAndComputeActivations", nil)
	w.OnCall("lsh.LSH.RetrieveRaw", nil)
	p.spec.install()
	k = 0
	reseed(w, base)
	net := p.spec.build(0)
	for i, e := range p.events {
		next()
		if e.kind == 'T' {
			_, net = net.ProcessInput(0, cloneBatch(e.batch), e.iter, e.rehash, e.rebuild)
			continue
		}
		var c int
		c, net = net.PredictClass(0, cloneBatch(e.batch))
		w.Check(c == e.correct, "another-network", "event %d: the program predicts %d records of %s correctly, the network its configuration describes %d", i, e.correct, batchString(e.batch), c)
	}
	want := snapshot(w, net, p.spec.adam)
	if d := firstDiff(got, want); d != "" {
		w.Fail("another-network", "the program does not train the network its configuration describes (trained and described): %s", d)
	}
	observeParams(w, want)
	w.NonTrivial = len(p.events) > 2
}
