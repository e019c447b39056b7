//go:build go1.22

package main

import (
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

// fillTogether looks at which neurons are drawn together, in a query and from one to the next.
func fillTogether(w *World) {
	r := w.Rand()
	s := netSpec{layers: 1, batch: w.Int(1, 3), lr: 0.01, inputDim: w.Int(8, 12), k: []int{w.Int(1, 2)}, l: []int{w.Int(3, 5)},
		hash: simrt.Pick(w, configuration.DensifiedWtaHashFunction, configuration.SparseRandomProjectionHashFunction), types: []node.NodeType{node.Softmax}}
	kind := w.Draw(100)
	var n, m, layers, queries int
	switch {
	case kind == 1 || kind == 2:
		redrawn(w)
		return
	case kind < 70:
		// the random mode
		s.mode = configuration.LayerMode2
		n = w.Int(2, 60)
		if w.Chance(1, 10) {
			n = w.Int(100, 400)
		}
		sp := simrt.Pick(w, 0.5, 0.25, 0.75, 0.1, 0.9)
		s.sparsity = []float64{sp, sp}
		m = int(math.Floor(float64(n) * sp))
		layers, queries = 1, simrt.Pick(w, 300, 1000, 100)
	default:
		s.mode = configuration.LayerMode4
		if w.Chance(1, 5) {
			s.types[0] = node.ReLU
		}
		n = w.Int(1300, 4000)
		s.sparsity = []float64{0.5, 0.5}
		m = 1000
		layers, queries = w.Int(4, 8), w.Int(2, 6)
	}
	s.sizes = []int{n}
	s.rangePow = []int{tableSize(s.hash, s.k[0], s.inputDim)}
	s.install()
	nl := 0
	if s.types[0] == node.Softmax && w.Chance(1, 2) {
		nl = w.Int(0, min(m, 3))
	}
	w.Logf("network %v: %d layers, %d queries each, %d labels", s, layers, queries, nl)
	label := r.Perm(n)[:nl]
	isLabel := make([]bool, n)
	for _, l := range label {
		isLabel[l] = true
	}
	var free []int // neurons that are not labels
	for i := 0; i < n; i++ {
		if !isLabel[i] {
			free = append(free, i)
		}
	}
	fill := m - nl
	N := float64(len(free))
	p := float64(fill) / N
	count := make([]int, n)
	lags := []int{1, 2, 3, 10, len(free) / 2}
	alike := make([]int, len(lags))
	half, third := 0, 0 // filled from the first half, and from every third
	var prev []bool
	overlap, overlaps, different := 0, 0, 0
	judged := 0
	for k := 0; k < layers; k++ {
		la := s.buildLayer(0, 0)
		la.ClearHashTables()
		var first []bool
		for q := 0; q < queries; q++ {
			in := fillOf(w, la, s, label, m)
			for i, x := range in {
				if x {
					count[i]++
				}
			}
			if q > 0 && !sameBools(in, first) {
				different++
			}
			if q > 0 && s.mode == configuration.LayerMode4 {
				continue // the queries of a layer share their order
			}
			judged++
			for j, lag := range lags {
				for i := range free {
					if lag > 0 && i+lag < len(free) && in[free[i]] == in[free[i+lag]] {
						alike[j]++
					}
				}
			}
			for i, x := range free {
				if in[x] && i < len(free)/2 {
					half++
				}
				if in[x] && i%3 == 0 {
					third++
				}
			}
			if prev != nil {
				overlaps++
				for _, x := range free {
					if in[x] && prev[x] {
						overlap++
					}
				}
			}
			prev = in
			if first == nil {
				first = in
			}
		}
	}
	w.Observe(count)
	if p <= 0 || p >= 1 {
		w.Hit("nothing-to-choose")
		return
	}
	J := float64(judged)
	// sampling without replacement varies no more than independent draws
	near := func(got int, draws, chance float64, class, format string, a ...any) {
		want := draws * chance
		w.Check(math.Abs(float64(got)-want) <= chanceBound(draws, chance), class, format+": %d in %.0f draws, want about %.1f", append(a, got, draws, want)...)
	}
	if s.mode == configuration.LayerMode2 {
		for _, x := range free {
			near(count[x], float64(queries), p, "uneven-fill", "neuron %d of %d fills up", x, n)
		}
	} else {
		// the queries of a layer are not independent of each other
		for _, x := range free {
			near(count[x]/queries, float64(layers), p, "uneven-fill", "neuron %d of %d fills up", x, n)
		}
	}
	near(half, J*float64(len(free)/2), p, "uneven-fill", "neurons of the first half fill up")
	near(third, J*float64((len(free)+2)/3), p, "uneven-fill", "every third neuron fills up")
	// pairs: two neurons are both in or both out
	f := float64(fill)
	both := f/N*(f-1)/(N-1) + (N-f)/N*(N-f-1)/(N-1)
	for j, lag := range lags {
		pairs := float64(len(free) - lag)
		if lag == 0 || pairs < 1 || N < 3 {
			continue
		}
		// Chebyshev-like slack: pairs that share a neuron depend on each other a little
		off := 1.5*chanceBound(J*pairs, both) + 8*math.Sqrt(J)
		want := both * J * pairs
		w.Check(math.Abs(float64(alike[j])-want) <= off, "neighbours-drawn-together", "neurons %d apart fill up alike in %d of %.0f cases, want about %.1f", lag, alike[j], J*pairs, want)
	}
	if overlaps > 0 {
		O := float64(overlaps)
		want := O * f * f / N
		off := 1.5*chanceBound(O*N, p*p) + 8*math.Sqrt(O)
		w.Check(math.Abs(float64(overlap)-want) <= off, "samples-depend", "samples of %d draws share %d neurons, want about %.1f", overlaps+1, overlap, want)
	}
	if total := layers * (queries - 1); math.Pow(1/math.Min(math.Max(N, 2), choose(N, f)), float64(total)) < 1e-15 {
		w.Check(different > 0, "always-the-same", "%d queries all fill up with the same neurons", layers*queries)
		w.Hit("queries-compared")
	}
	w.NonTrivial = true
}

// choose is the number of samples of k of n, up to a million.
func choose(n, k float64) float64 {
	x := 1.0
	k = math.Min(k, n-k)
	for i := 0.0; i < k && x < 1e6; i++ {
		x = x * (n - i) / (i + 1)
	}
	return x
}

func sameBools(a, b []bool) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fillOf queries a layer whose tables are empty and says which neurons that are
// no labels fill up the sample.
func fillOf(w *World, la *layer.Layer, s netSpec, label []int, m int) []bool {
	act := make([]pairs, 2)
	act[0] = pairs{{Index: 0, Value: 1}, {Index: s.inputDim - 1, Value: -2}}
	la.QueryActiveNodeAndComputeActivations(0, act, 0, 0, label, 0.5*boolTo(s.mode == configuration.LayerMode4)+s.sparsity[0]*boolTo(s.mode != configuration.LayerMode4))
	in := make([]bool, la.NumOfNodes())
	for _, p := range act[1] {
		in[p.Index] = true
	}
	for _, l := range label {
		in[l] = false
	}
	w.Check(len(act[1]) == m, "wrong-sample-size", "%d neurons are active, want %d", len(act[1]), m)
	return in
}

func boolTo(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// redrawn trains for as long as it takes to draw the order of fill-ins anew.
func redrawn(w *World) {
	n := w.Int(1150, 1700)
	s := netSpec{layers: 2, batch: 1, lr: 0.01, inputDim: 2, k: []int{1, 1}, l: []int{3, 3}, rangePow: []int{3, 3},
		sizes: []int{2, n}, types: []node.NodeType{node.ReLU, node.Softmax}, sparsity: []float64{1, 0.5, 1, 0.5},
		hash: configuration.DensifiedWtaHashFunction, mode: configuration.LayerMode4}
	s.install()
	from := simrt.Pick(w, 0, 3000, 20000)
	w.Logf("network %v trained from iteration %d", s, from)
	net := s.build(0)
	out := func() *layer.Layer { return layersOf(w, net)[1] }
	out().ClearHashTables()
	var a, b []bool
	seed := w.Seed()
	look := func() []bool {
		reseed(w, seed)
		act := make([]pairs, 3)
		act[1] = pairs{{Index: 0, Value: 1}}
		out().QueryActiveNodeAndComputeActivations(0, act, 1, 0, nil, 0.5)
		in := make([]bool, n)
		for _, p := range act[2] {
			in[p.Index] = true
		}
		return in
	}
	a = look()
	again := look()
	if !sameBools(a, again) {
		w.Hit("order-redrawn-by-queries")
		return
	}
	environment(w, false)
	for i := 0; i < 6946; i++ {
		_, net = net.ProcessInput(0, nil, from+i, false, false)
	}
	b = look()
	w.Check(!sameBools(a, b), "order-never-redrawn", "the order in which neurons fill up is the same after %d training steps", 6946)
	both := 0
	for i := range a {
		if a[i] && b[i] {
			both++
		}
	}
	// two samples that have nothing to do with each other
	p := 1000 / float64(n)
	w.Check(math.Abs(float64(both)-1000*p) <= chanceBound(1000, p), "order-half-redrawn", "samples drawn before and after %d training steps share %d neurons of 1000 (of %d), want about %.0f", 6946, both, n, 1000*p)
	w.Hit("order-redrawn")
	w.NonTrivial = true
}
