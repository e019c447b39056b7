//go:build go1.22

package main

import (
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
)

func init() { register("C37", propC37) }

// flat lists what rows hold, one row after the other.
func flat(rows [][]float64) []float64 {
	out := []float64{}
	for _, r := range rows {
		out = append(out, r...)
	}
	return out
}

// loadLayer builds a layer from parameters alone.
func (s netSpec) loadLayer(w *World, i int, p layerParams) *layer.Layer {
	load := configuration.Global.LoadWeight
	configuration.Global.LoadWeight = true
	ws, bs := flat(p.w), append([]float64{}, p.b...)
	var mom, vel []float64
	if s.adam {
		mom, vel = flat(p.mom), flat(p.vel)
	}
	given := [][]float64{append([]float64(nil), ws...), append([]float64(nil), bs...), append([]float64(nil), mom...), append([]float64(nil), vel...)}
	la := layer.New(0, s.sizes[i], s.dim(i), i, s.types[i], s.batch, s.k[i], s.l[i], s.rangePow[i], s.sparsity[i], ws, bs, mom, vel)
	configuration.Global.LoadWeight = load
	for j, x := range [][]float64{ws, bs, mom, vel} {
		for d := range x {
			w.Check(math.Float64bits(x[d]) == math.Float64bits(given[j][d]), "parameters-altered", "building layer %d changed the parameters it was given", i)
		}
	}
	return la
}

// redrawTables gives every layer other hash functions and tables.
func (s *netSpec) redrawTables(w *World) {
	s.hash = allHashes[w.Int(0, len(allHashes)-1)]
	s.k, s.l, s.rangePow = nil, nil, nil
	for i := 0; i < s.layers; i++ {
		k, r := w.Int(1, 2), 0
		if s.hash == configuration.WtaHashFunction && s.dim(i) > 100 {
			k = 1
		}
		if s.hash == configuration.DensifiedMinhashFunction {
			r = w.Int(0, 6)
		} else {
			r = tableSize(s.hash, k, s.dim(i))
		}
		l := w.Int(3, 6)
		for l > 3 && l<<uint(r) > 1200 {
			l--
		}
		s.k, s.l, s.rangePow = append(s.k, k), append(s.l, l), append(s.rangePow, r)
	}
}

// C37: nothing but the parameters is needed to go on.
func propC37(w *World) {
	environment(w, false)
	if w.Chance(1, 3) {
		resumeTraining(w)
		return
	}
	// a layer built from parameters, next to the one they come from
	o := netDefaults
	o.modes = []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4}
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	r := w.Rand()
	net := s.build(0)
	it := w.Int(0, 50)
	for i := w.Int(0, 3); i > 0; i-- {
		var b []dataset.Example
		for k := 0; k < s.batch; k++ {
			b = append(b, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)}))
		}
		_, net = net.ProcessInput(0, b, it, w.Chance(1, 3), w.Chance(1, 4))
		it++
	}
	li := w.Int(0, s.layers-1)
	if w.Chance(1, 2) {
		s.redrawTables(w)
		s.install()
		net = s.rebuiltWith(w, snapshot(w, net, s.adam))
		w.Hit("other-hash-functions")
	}
	old := layersOf(w, net)[li]
	p := snapshotLayer(old, s.adam)
	if r.Intn(2) == 0 { // any numbers at all
		for j := range p.w {
			for d := range p.w[j] {
				p.w[j][d] = netValue(r)
			}
			p.b[j] = netValue(r)
		}
		old = nil
		w.Hit("made-up-parameters")
	}
	la := s.loadLayer(w, li, p)
	w.Check(la.NumOfNodes() == s.sizes[li], "wrong-shape", "the layer has %d neurons, want %d", la.NumOfNodes(), s.sizes[li])
	q := snapshotLayer(la, s.adam)
	want := p
	want.momB, want.velB = q.momB, q.velB // these cannot be handed over, and start at zero
	for j := range q.momB {
		w.Check(q.momB[j] == 0 && q.velB[j] == 0, "unclean-start", "neuron %d of a layer built from parameters starts with bias moments %v, %v", j, q.momB[j], q.velB[j])
	}
	if d := firstDiff([]layerParams{want}, []layerParams{q}); d != "" {
		w.Fail("other-parameters", "a layer built from parameters (first) has others: %s", d)
	}
	order := func(p pairs) pairs { return p }
	checkTables(w, "built from parameters", la, li, 0, order)
	// the activations are those of the parameters
	for n := 0; n < 3; n++ {
		slot := r.Intn(s.batch)
		in := genExample(r, s.dim(li), s.sizes[s.layers-1], exOpts{maxLabels: 1}).Features
		seen := map[int]bool{}
		var feats pairs
		for _, f := range in {
			if !seen[f.Index] {
				seen[f.Index] = true
				feats = append(feats, f)
			}
		}
		active := func(l *layer.Layer) pairs {
			act := make([][]index_value.Pair, li+2)
			act[li] = append(pairs(nil), feats...)
			l.QueryActiveNodeAndComputeActivations(0, act, li, slot, nil, 1)
			w.Check(len(act[li+1]) == s.sizes[li], "other-activations", "%d of %d neurons are active without sampling", len(act[li+1]), s.sizes[li])
			return act[li+1]
		}
		got := active(la)
		if old != nil {
			for j, x := range active(old) {
				w.Check(x == got[j], "other-activations", "neuron %d has activation %v, and %v in the layer its parameters come from", x.Index, got[j], x)
			}
			w.Hit("compared-with-original")
		}
		zs := make([]float64, s.sizes[li])
		top, sum := math.Inf(-1), 0.0
		for j := range zs {
			zs[j] = p.b[j]
			for _, f := range feats {
				zs[j] += p.w[j][f.Index] * f.Value
			}
			top = math.Max(top, zs[j])
		}
		for j := range zs {
			if s.types[li] == node.ReLU {
				zs[j] = math.Max(0, zs[j])
			} else {
				zs[j] = math.Exp(zs[j] - top)
				sum += zs[j]
			}
		}
		for _, x := range got {
			e, g := zs[x.Index], x.Value
			if s.types[li] == node.Softmax {
				g = la.GetNodeById(x.Index).GetLastActivation(slot) / la.GetNomalizationConstant(slot)
				e /= sum
			}
			w.Check(close2(g, e, 1e-6) || math.Abs(g-e) < 1e-6, "other-activations", "neuron %d of a layer built from parameters gives %v, its parameters %v", x.Index, g, e)
		}
	}
	w.Observe(p.b)
	w.NonTrivial = true
}

// rebuiltWith is a network with these parameters and nothing else in common.
func (s netSpec) rebuiltWith(w *World, ps []layerParams) *network.Network {
	net := s.build(0)
	for i, la := range layersOf(w, net) {
		x := s.loadLayer(w, i, ps[i])
		*la = *x
		if s.adam {
			for j := 0; j < la.NumOfNodes(); j++ {
				la.GetNodeById(j).SetAdamAvgMomBias(0, ps[i].momB[j]).SetAdamAvgVelBias(0, ps[i].velB[j])
			}
		}
	}
	return net
}

// resumeTraining interrupts training at arbitrary points: only the parameters
// survive, and training goes on as if nothing had happened.
func resumeTraining(w *World) {
	o := netDefaults
	o.dense, o.wide = true, true
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	type step struct {
		iter            int
		batch           []dataset.Example
		rehash, rebuild bool
		crash           int // 1 with the same tables, 2 with others
		eval            []dataset.Example
	}
	it := iterStarts[w.Int(0, len(iterStarts)-1)]
	var plan []step
	for i := w.Int(2, 7); i > 0; i-- {
		r := w.Rand()
		st := step{iter: it, rehash: w.Chance(1, 4), rebuild: w.Chance(1, 4)}
		it++
		for k := w.Int(0, s.batch); k > 0; k-- {
			st.batch = append(st.batch, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)}))
		}
		for k := 0; k < s.batch; k++ {
			st.eval = append(st.eval, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: 3}))
		}
		if len(plan) > 0 && w.Chance(1, 2) {
			st.crash = w.Int(1, 2)
		}
		plan = append(plan, st)
	}
	base := w.Seed()
	crashes := 0
	run := func(crash bool) (ps []layerParams, correct []int) {
		reseed(w, base)
		s := s
		s.install()
		net := s.build(0)
		for i, st := range plan {
			if crash && st.crash > 0 {
				ps := snapshot(w, net, s.adam)
				reseed(w, base+1000+int64(i))
				if st.crash == 2 {
					s.redrawTables(w)
					s.install()
				}
				w.Fault("crash-and-restart")
				w.Logf("crash before iteration %d", st.iter)
				net = s.rebuiltWith(w, ps)
				crashes++
			}
			_, net = net.ProcessInput(0, cloneBatch(st.batch), st.iter, st.rehash, st.rebuild)
			var c int
			c, net = net.PredictClass(0, cloneBatch(st.eval))
			correct = append(correct, c)
		}
		return snapshot(w, net, s.adam), correct
	}
	whole, right := run(false)
	parts, again := run(true)
	if d := firstDiff(whole, parts); d != "" {
		w.Fail("restart-matters", "training interrupted %d times ends with another model (without and with): %s", crashes, d)
	}
	w.Check(equalInts(right, again), "restart-matters", "training interrupted %d times predicts %v correctly, and %v without interruptions", crashes, again, right)
	observeParams(w, whole)
	w.Hit("resumed")
	w.NonTrivial = crashes > 0
}
