//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
	"github.com/nlpodyssey/goslide/wta_hash"
)

func init() {
	register("C19", propC19)
	register("C20", propC20)
	register("C25", propC25)
}

// hasher is one of the four hash families behind one face.
type hasher struct {
	kind      configuration.HashFunctionType
	numHashes int
	dim       int
	dense     func(v []float64) []int
	sparse    func(p pairs) []int
	double    func(bin, count int) int
	binIds    []int
	byIndex   func(indices []int, data []float64) []int
}

const topK = 30

func newHasher(kind configuration.HashFunctionType, numHashes, dim, k int) *hasher {
	h := &hasher{kind: kind, numHashes: numHashes, dim: dim}
	switch kind {
	case configuration.WtaHashFunction:
		x := wta_hash.New(numHashes, dim)
		h.dense, h.sparse = x.GetHashDense, x.GetHash
	case configuration.DensifiedWtaHashFunction:
		x := densified_wta_hash.New(numHashes, dim)
		h.dense = func(v []float64) []int { return x.GetHashEasy(v, k) }
		h.sparse, h.double = x.GetHash, x.GetRandDoubleHash
	case configuration.SparseRandomProjectionHashFunction:
		x := sparse_random_projection.New(dim, numHashes, 32)
		if k%2 == 1 {
			x = sparse_random_projection.New(dim, numHashes, 3)
		}
		h.dense, h.sparse = x.GetHash, x.GetHashSparse
	case configuration.DensifiedMinhashFunction:
		x := densified_minhash.New(numHashes, dim)
		ids := x.GetMap(dim)
		h.binIds = ids
		h.dense = func(v []float64) []int { return x.GetHashEasyDense(ids, v, k) }
		h.sparse = func(p pairs) []int { return x.GetHashEasy(ids, p, k) }
		h.double = x.GetRandDoubleHash
		h.byIndex = func(indices []int, data []float64) []int { return x.GetHash(indices, data, ids) }
	}
	return h
}

// distinctValues makes d distinct values that sum without rounding; they may
// be tiny, huge or far from zero, and one of them may be zero.
func distinctValues(r *mrand.Rand, d int) []float64 {
	out := make([]float64, d)
	perm := r.Perm(4 * d)
	scale := []float64{1, 1.0 / 64, 1.0 / 1024, 1 << 30, 1 << 62, 0x1p-80}[r.Intn(6)]
	shift := []int{0, 2 * d, 4*d + 3, 1 << 40, -1 << 40}[r.Intn(5)] // positive, mixed, negative...
	zero := r.Intn(2) == 0
	for i := range out {
		out[i] = float64(perm[i]-shift) * scale
		if out[i] == 0 && !zero {
			out[i] = float64(5*d) * scale
		}
	}
	return out
}

// monotone keeps the ranking of distinctValues.
func monotone(x float64) float64 {
	if x < 0 {
		return -math.Sqrt(-x) * 3
	}
	return math.Sqrt(x) * 5
}

func (h *hasher) checkRange(w *World, what string, codes []int, in pairs) {
	w.Check(len(codes) == h.numHashes, "wrong-number", "%s %s: %d codes, want %d", hashName(h.kind), what, len(codes), h.numHashes)
	for _, c := range codes {
		ok := false
		switch h.kind {
		case configuration.WtaHashFunction:
			ok = c >= 0 && c < h.dim
		case configuration.DensifiedWtaHashFunction:
			ok = c >= 0 && c < 8
		case configuration.SparseRandomProjectionHashFunction:
			ok = c == 0 || c == 1
		case configuration.DensifiedMinhashFunction:
			ok = c == math.MinInt64
			for _, p := range in {
				ok = ok || p.Index == c
			}
		}
		w.Check(ok, "code-out-of-range", "%s %s: code %d is impossible for %d coordinates", hashName(h.kind), what, c, h.dim)
	}
}

func genDims(w *World, kind configuration.HashFunctionType) (numHashes, dim, k int) {
	numHashes = w.Int(1, 24)
	dim = simrt.Pick(w, w.Int(1, 12), w.Int(13, 60), w.Int(61, 140))
	k = topK
	if w.Chance(1, 3) {
		k = w.Int(1, 40)
	}
	if w.Chance(1, 40) {
		w.Hit("many-coordinates")
		dim = simrt.Pick(w, w.Int(141, 600), w.Int(250, 260), w.Int(601, 3000))
	}
	if w.Chance(1, 60) {
		w.Hit("many-hashes")
		numHashes = simrt.Pick(w, w.Int(25, 140), w.Int(250, 260), w.Int(141, 700))
	}
	return
}

// C20: sparse and dense inputs hash alike.
func propC20(w *World) {
	environment(w, true)
	kind := allHashes[w.Int(0, len(allHashes)-1)]
	nh, dim, k := genDims(w, kind)
	w.Logf("%s: %d codes of %d coordinates, best %d", hashName(kind), nh, dim, k)
	h := newHasher(kind, nh, dim, k)
	r := w.Rand()
	if h.double != nil {
		for b := 0; b < nh; b++ {
			for c := 1; c <= 101; c++ {
				x := h.double(b, c)
				w.Check(x >= 0 && x < nh, "probe-out-of-range", "%s: probe %d of bin %d is bin %d of %d", hashName(kind), c, b, x, nh)
			}
		}
	}
	for _, b := range h.binIds {
		w.Check(b >= 0 && b < nh, "bin-out-of-range", "%s: a coordinate is mapped to bin %d of %d", hashName(kind), b, nh)
	}
	for rounds := w.Int(1, 4); rounds > 0; rounds-- {
		v := distinctValues(r, dim)
		full := pairsOf(v)
		dense := h.dense(append([]float64(nil), v...))
		h.checkRange(w, "dense", dense, full)
		w.Observe(dense)
		same := func(what string, got []int) {
			w.Check(equalInts(got, dense), "sparse-differs", "%s: %s of %d coordinates hashes to %v, the dense vector to %v", hashName(kind), what, dim, got, dense)
		}
		same("the list", h.sparse(append(pairs(nil), full...)))
		shuffled := append(pairs(nil), full...)
		r.Shuffle(dim, func(i, j int) { shuffled[i], shuffled[j] = shuffled[j], shuffled[i] })
		same("the shuffled list", h.sparse(shuffled))
		if kind != configuration.SparseRandomProjectionHashFunction {
			// only the ranking matters
			mono := make([]float64, dim)
			for i, x := range v {
				mono[i] = monotone(x)
			}
			w.Check(equalInts(h.dense(mono), dense), "ranking-only", "%s: another vector with the same ranking hashes differently", hashName(kind))
		} else {
			scaled := make([]float64, dim)
			for i, x := range v {
				scaled[i] = 4 * x
			}
			w.Check(equalInts(h.dense(scaled), dense), "scale-matters", "%s: a scaled vector hashes differently", hashName(kind))
		}
		// a part of the coordinates, listed in any order
		part := append(pairs(nil), shuffled[:1+r.Intn(dim)]...)
		a := h.sparse(append(pairs(nil), part...))
		h.checkRange(w, "sparse", a, part)
		w.Observe(a)
		again := append(pairs(nil), part...)
		r.Shuffle(len(again), func(i, j int) { again[i], again[j] = again[j], again[i] })
		b := h.sparse(again)
		w.Check(equalInts(a, b), "order-matters", "%s: the same %d of %d coordinates listed in another order hash to %v and %v", hashName(kind), len(part), dim, a, b)
		if kind == configuration.WtaHashFunction || kind == configuration.SparseRandomProjectionHashFunction {
			// absent coordinates are zero
			z := make([]float64, dim)
			for _, p := range part {
				z[p.Index] = p.Value
			}
			d := h.dense(z)
			w.Check(equalInts(a, d), "sparse-differs", "%s: %d of %d coordinates hash to %v, the dense vector to %v", hashName(kind), len(part), dim, a, d)
		}
		if h.byIndex != nil {
			// the set of indices decides, not their order
			var idx, idx2 []int
			var val, val2 []float64
			for _, p := range part {
				idx, val = append(idx, p.Index), append(val, p.Value)
			}
			for _, p := range again {
				idx2, val2 = append(idx2, p.Index), append(val2, p.Value)
			}
			x, y := h.byIndex(idx, val), h.byIndex(idx2, val2)
			h.checkRange(w, "set", x, part)
			w.Check(equalInts(x, y), "order-matters", "%s: the same %d indices in another order hash to %v and %v", hashName(kind), len(part), x, y)
			if k >= len(part) {
				w.Check(equalInts(x, a), "set-differs", "%s: %d indices hash to %v as a set and to %v as a list no longer than the %d best", hashName(kind), len(part), x, a, k)
			}
		}
		w.NonTrivial = w.NonTrivial || dim > 1
	}
}

// C19: hash functions can be shared by concurrent readers.
func propC19(w *World) {
	environment(w, false)
	kind := allHashes[w.Int(0, len(allHashes)-1)]
	nh, dim, k := genDims(w, kind)
	w.Logf("%s: %d codes of %d coordinates", hashName(kind), nh, dim)
	h := newHasher(kind, nh, dim, k)
	r := w.Rand()
	type job struct {
		v     []float64
		p     pairs
		dense bool
		want  []int
	}
	call := func(j job, v []float64, p pairs) []int {
		if j.dense {
			return h.dense(v)
		}
		return h.sparse(p)
	}
	tasks := w.Int(2, 4)
	work := make([][]job, tasks)
	draws := w.Rng.N
	for t := range work {
		for n := 1 + r.Intn(3); n > 0; n-- {
			v := distinctValues(r, dim)
			p := pairsOf(v)
			r.Shuffle(dim, func(i, j int) { p[i], p[j] = p[j], p[i] })
			j := job{v: v, p: p[:1+r.Intn(dim)], dense: r.Intn(2) == 0}
			j.want = append([]int(nil), call(j, append([]float64(nil), v...), append(pairs(nil), j.p...))...)
			work[t] = append(work[t], j)
		}
	}
	w.Schedule(true)
	grp := newGroup(w)
	for t := range work {
		t := t
		grp.Go(fmt.Sprintf("hashing-%d", t), func() {
			var kept [][]int
			for i, j := range work[t] {
				v, p := append([]float64(nil), j.v...), append(pairs(nil), j.p...)
				got := call(j, v, p)
				w.Check(equalInts(got, j.want), "hashing-interferes", "%s: task %d alone gets %v, together with %d others %v", hashName(kind), t, j.want, tasks-1, got)
				for q := range v {
					w.Check(v[q] == j.v[q], "input-altered", "%s changed its input", hashName(kind))
				}
				for q := range p {
					w.Check(p[q] == j.p[q], "input-altered", "%s changed its input", hashName(kind))
				}
				kept = append(kept, got)
				w.Logf("task %d: job %d done", t, i)
				w.Observe(got)
				w.Point()
				if i > 0 {
					// what was returned earlier belongs to the caller
					w.Check(equalInts(kept[i-1], work[t][i-1].want), "result-shared", "%s: codes returned earlier changed to %v", hashName(kind), kept[i-1])
					for q := range kept[i-1] {
						kept[i-1][q] = -7
					}
					kept[i-1] = append([]int(nil), work[t][i-1].want...)
				}
			}
		})
	}
	grp.Wait()
	// and nobody's use changed the functions
	for t := range work {
		for _, j := range work[t] {
			got := call(j, append([]float64(nil), j.v...), append(pairs(nil), j.p...))
			w.Check(equalInts(got, j.want), "hash-function-changed", "%s: the same input now hashes to %v instead of %v", hashName(kind), got, j.want)
		}
	}
	w.Check(w.Rng.N == draws, "hashing-draws", "%s draws random numbers while hashing", hashName(kind))
	w.NonTrivial = true
}

// C25: similar vectors collide more often than unrelated ones.
func propC25(w *World) {
	environment(w, false)
	kind := allHashes[w.Int(0, len(allHashes)-1)]
	dim := simrt.Pick(w, 64, 100, 200)
	nh := 8
	r := w.Rand()
	near, mid, far, total := 0, 0, 0, 0
	sparse := w.Chance(1, 2)
	support := dim
	if sparse && w.Chance(1, 2) {
		support = dim / 2
	}
	scale := math.Pow(10, float64(w.Int(-6, 6)))
	listed := r.Perm(dim)[:support]
	for draws := 0; draws < 60; draws++ {
		h := newHasher(kind, nh, dim, topK)
		a := make([]float64, dim)
		b := make([]float64, dim)
		c := make([]float64, dim)
		d := make([]float64, dim)
		for _, i := range listed {
			x := r.NormFloat64()
			a[i] = scale * x
			b[i] = scale * (x + 0.02*r.NormFloat64())
			c[i] = scale * r.NormFloat64()
			d[i] = scale * (x + 0.3*r.NormFloat64())
		}
		f := func(v []float64) []int {
			if sparse {
				p := make(pairs, 0, support)
				for _, i := range listed {
					p = append(p, index_value.Pair{Index: i, Value: v[i]})
				}
				r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				return h.sparse(p)
			}
			return h.dense(v)
		}
		ha, hb, hc, hd := f(a), f(b), f(c), f(d)
		for i := range ha {
			total++
			if ha[i] == hb[i] {
				near++
			}
			if ha[i] == hc[i] {
				far++
			}
			if ha[i] == hd[i] {
				mid++
			}
		}
	}
	limit := 0.45 // two winners among eight agree by chance once in eight
	switch kind {
	case configuration.SparseRandomProjectionHashFunction:
		limit = 0.8 // signs agree by chance half the time, and more when nothing of the list is sampled
	case configuration.DensifiedMinhashFunction:
		limit = 0.65
		if support < 64 {
			limit = 1 // most coordinates are among the best ones kept
		}
	}
	w.Logf("%s: near %d similar %d far %d of %d", hashName(kind), near, mid, far, total)
	w.Observe(near, mid, far)
	w.Check(float64(near) >= 0.85*float64(total), "near-vectors-differ", "%s: nearly equal vectors of %d coordinates share only %d of %d codes", hashName(kind), dim, near, total)
	w.Check(float64(far) <= limit*float64(total), "far-vectors-agree", "%s: unrelated vectors of %d coordinates share %d of %d codes", hashName(kind), dim, far, total)
	w.Check(mid >= far, "similarity-ignored", "%s: of %d codes, similar vectors of %d coordinates share %d, unrelated ones %d", hashName(kind), total, dim, mid, far)
	w.NonTrivial = true
}
