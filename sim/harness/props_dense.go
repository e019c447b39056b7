//go:build go1.22

package main

import (
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() { register("C36", propC36) }

const probes = 100

// densify says which code every bin must have: its own, or that of the first
// bin with one among its probes. known is false where no probe helps.
func densify(own []int, has []bool, double func(bin, count int) int) (want []int, known []bool) {
	n := len(own)
	want, known = make([]int, n), make([]bool, n)
	for b := range own {
		want[b], known[b] = own[b], has[b]
		for c := 1; c <= probes && !known[b]; c++ {
			if x := min(double(b, c), n-1); has[x] {
				want[b], known[b] = own[x], true
			}
		}
	}
	return
}

// C36: an empty bin takes over the code of the first bin with one among its probes.
func propC36(w *World) {
	if w.Chance(1, 30) {
		environment(w, false)
		probeReach(w)
		return
	}
	environment(w, true)
	if w.Chance(1, 2) {
		denseMinhash(w)
	} else {
		denseWta(w)
	}
}

// lists draws which coordinates a sparse input names: few of them, so that bins
// stay empty.
func lists(w *World, dim int) []int {
	r := w.Rand()
	n := 1 + r.Intn(dim)
	if r.Intn(3) > 0 {
		n = 1 + r.Intn(min(dim, 4))
	}
	return r.Perm(dim)[:n]
}

func denseMinhash(w *World) {
	nh, dim, k := genDims(w, configuration.DensifiedMinhashFunction)
	x := densified_minhash.New(nh, dim)
	ids := x.GetMap(dim)
	w.Logf("minhash: %d codes of %d coordinates, best %d", nh, dim, k)
	for rounds := w.Int(1, 6); rounds > 0; rounds-- {
		r := w.Rand()
		v := distinctValues(r, dim)
		list := lists(w, dim)
		var in pairs
		var data []float64
		for _, i := range list {
			in = append(in, index_value.Pair{Index: i, Value: v[i]})
			data = append(data, v[i])
		}
		judgeCodes := func(what string, got []int, kept []int) {
			own, has := make([]int, nh), make([]bool, nh)
			for _, i := range kept {
				if b := ids[i]; !has[b] || i > own[b] {
					own[b], has[b] = i, true
				}
			}
			judgeBins(w, what, got, own, has, x.GetRandDoubleHash)
		}
		best := append(pairs(nil), in...)
		sort.Slice(best, func(a, b int) bool { return best[a].Value > best[b].Value })
		var kept []int
		for _, p := range best[:min(k, len(best))] {
			kept = append(kept, p.Index)
		}
		judgeCodes("minhash of a list", x.GetHashEasy(ids, append(pairs(nil), in...), k), kept)
		judgeCodes("minhash of a set", x.GetHash(append([]int(nil), list...), data, ids), list)
		rank := make([]int, dim)
		for i := range rank {
			rank[i] = i
		}
		sort.Slice(rank, func(a, b int) bool { return v[rank[a]] > v[rank[b]] })
		judgeCodes("minhash of a dense vector", x.GetHashEasyDense(ids, append([]float64(nil), v...), k), rank[:min(k, dim)])
	}
}

func judgeBins(w *World, what string, got, own []int, has []bool, double func(bin, count int) int) {
	n := len(own)
	w.Check(len(got) == n, "wrong-number", "%s: %d codes, want %d", what, len(got), n)
	want, known := densify(own, has, double)
	for b := range got {
		switch {
		case has[b]:
			w.Check(got[b] == own[b], "own-code", "%s: bin %d of %d has the code %d, its own coordinates say %d", what, b, n, got[b], own[b])
		case known[b]:
			w.Check(got[b] == want[b], "taken-code", "%s: the empty bin %d of %d has the code %d, the first bin with a code among its probes has %d", what, b, n, got[b], want[b])
			w.Hit("bin-filled")
			w.NonTrivial = true
		default:
			w.Hit("bin-stays-empty")
		}
	}
	w.Observe(got)
}

// denseWta finds out which coordinate stands where in which bin by making it the
// largest of dense vectors, and predicts the codes of sparse inputs from that.
func denseWta(w *World) {
	nh := w.Int(1, 16)
	dim := 8 * w.Int(1, 4)
	if w.Chance(1, 12) {
		nh, dim = w.Int(1, 70), 8*w.Int(5, 10)
		w.Hit("many-bins")
	}
	x := densified_wta_hash.New(nh, dim)
	w.Logf("densified WTA: %d codes of %d coordinates", nh, dim)
	r := w.Rand()
	type place struct{ bin, pos int }
	places := make([][]place, dim)
	const tries = 14
	for c := range places {
		var first []int
		same := make([]bool, nh)
		for t := 0; t < tries; t++ {
			v := make([]float64, dim)
			for i, p := range r.Perm(dim) {
				v[i] = float64(p)
			}
			v[c] = float64(dim)
			h := x.GetHashEasy(v, topK)
			w.Check(len(h) == nh, "wrong-number", "%d codes, want %d", len(h), nh)
			for b := range h {
				same[b] = first == nil || (same[b] && first[b] == h[b])
			}
			if first == nil {
				first = h
			}
		}
		for b := range same {
			if same[b] {
				places[c] = append(places[c], place{b, first[b]})
			}
		}
	}
	// every place of a bin is taken by one coordinate, unless a chance in 8^13 happened
	taken := map[place]int{}
	for c := range places {
		for _, p := range places[c] {
			taken[p]++
		}
	}
	for b := 0; b < nh; b++ {
		for q := 0; q < 8; q++ {
			w.Check(taken[place{b, q}] == 1, "place-shared", "place %d of bin %d is decided by %d of %d coordinates", q, b, taken[place{b, q}], dim)
		}
	}
	for rounds := w.Int(1, 8); rounds > 0; rounds-- {
		v := distinctValues(r, dim)
		list := lists(w, dim)
		var in pairs
		own, has, top := make([]int, nh), make([]bool, nh), make([]float64, nh)
		for _, i := range list {
			in = append(in, index_value.Pair{Index: i, Value: v[i]})
			for _, p := range places[i] {
				if !has[p.bin] || v[i] > top[p.bin] {
					has[p.bin], own[p.bin], top[p.bin] = true, p.pos, v[i]
				}
			}
		}
		judgeBins(w, "densified WTA of a list", x.GetHash(in), own, has, x.GetRandDoubleHash)
	}
}

// probeReach: over many draws, the probes of an empty bin reach a bin with a
// code when half of the bins have one.
func probeReach(w *World) {
	nh := simrt.Pick(w, 2, 4, 8, 16, 32)
	wta := w.Chance(1, 2)
	r := w.Rand()
	empty, filled := 0, 0
	firsts := make([]int, nh)
	for draws := 0; draws < 200; draws++ {
		double := densified_minhash.New(nh, 64).GetRandDoubleHash
		if wta {
			double = densified_wta_hash.New(nh, 64).GetRandDoubleHash
		}
		has := make([]bool, nh)
		for _, b := range r.Perm(nh)[:nh/2] {
			has[b] = true
		}
		for b := range has {
			if has[b] {
				continue
			}
			empty++
			_, known := densify(make([]int, nh), has, double)
			if known[b] {
				filled++
			}
			if x := double(b, 1+r.Intn(probes)); x >= 0 && x < nh {
				firsts[x]++
			}
		}
	}
	w.Logf("%d of %d empty bins filled, %d bins", filled, empty, nh)
	w.Observe(filled, empty)
	w.Check(float64(filled) >= 0.9*float64(empty), "bins-not-reached", "with half of %d bins empty the probes of %d of %d empty bins reach no other", nh, empty-filled, empty)
	for b, c := range firsts {
		p := 1 / float64(nh)
		w.Check(math.Abs(float64(c)-float64(empty)*p) <= 3*chanceBound(float64(empty), p), "probes-unfair", "bin %d of %d is probed %d times of %d", b, nh, c, empty)
	}
	w.Hit("probes-counted")
	w.NonTrivial = true
}
