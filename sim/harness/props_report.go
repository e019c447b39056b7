//go:build go1.22

package main

import (
	"io"
	"math"
	mrand "math/rand"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C33", propC33)
	register("C34", propC34)
}

// C33: hash functions are drawn fairly.
func propC33(w *World) {
	environment(w, false)
	kind := allHashes[w.Int(0, len(allHashes)-1)]
	r := w.Rand()
	// all chances below hold exactly when no code's sample spans two permutations
	dim := 8 * w.Int(1, 5)
	nh := w.Int(1, 10)
	q := simrt.Pick(w, 600, 300, 1500)
	ratio := 32 // what newHasher builds for an even last argument
	if w.Chance(1, 2) {
		ratio = 3
	}
	sample := (dim + ratio - 1) / ratio
	if w.Chance(1, 8) {
		dim = 8 * w.Int(10, 40)
		nh = w.Int(2, 60)
		q = 150
		sample = (dim + ratio - 1) / ratio
	}
	binOf := 0 // hash bins a coordinate may be put in
	if kind == configuration.DensifiedMinhashFunction {
		nh = 1 << w.Int(0, 5)
		binOf = 24
	}
	coords := r.Perm(dim)
	if len(coords) > 16 {
		some := []int{0, dim - 1, dim / 2, dim/2 - 1}
		for _, c := range coords {
			if len(some) < 16 && !slices.Contains(some, c) {
				some = append(some, c)
			}
		}
		coords = some
	}
	w.Logf("%s: %d codes of %d coordinates, sample %d, %d draws", hashName(kind), nh, dim, sample, q)
	base := distinctValues(r, dim)
	low, high := base[0], base[0]
	for _, x := range base {
		low, high = math.Min(low, x), math.Max(high, x)
	}
	span := high - low + 1
	sparse := w.Chance(1, 2)
	decides := make([][]int, len(coords)) // per coordinate and code
	for i := range decides {
		decides[i] = make([]int, nh)
	}
	values := make([][2][]int, nh) // per code: how often each outcome
	for h := range values {
		values[h] = [2][]int{make([]int, 8), make([]int, 8)}
	}
	together := make([][]int, len(coords)) // how often two coordinates share a bin
	for i := range together {
		together[i] = make([]int, i)
	}
	shared := 0 // two codes deciding by the same coordinate
	h1, h2 := 0, nh-1
	perPerm := dim / 8
	step := perPerm // from a code to one of the next permutation or sample
	if kind == configuration.SparseRandomProjectionHashFunction {
		step = 1
	}
	overlap := make([]int, max(0, nh-step)) // coordinates that count in a code and in the one a step further
	signs := newTally("coordinates sampled together", "sampled again")
	for n := 0; n < q; n++ {
		counts := make([][]int, len(coords)) // per coordinate and code: whether it counts, and the sign
		for i := range counts {
			counts[i] = make([]int, nh)
		}
		if kind == configuration.DensifiedMinhashFunction {
			ids := densified_minhash.New(nh, binOf).GetMap(dim)
			w.Check(len(ids) == dim, "wrong-number", "%d coordinates are mapped to bins, want %d", len(ids), dim)
			for i, c := range coords {
				w.Check(ids[c] >= 0 && ids[c] < nh, "code-out-of-range", "coordinate %d is mapped to bin %d of %d", c, ids[c], nh)
				decides[i][ids[c]]++
			}
			for i, c := range coords {
				for j, d := range coords[:i] {
					if ids[c] == ids[d] {
						together[i][j]++
					}
				}
			}
			continue
		}
		k := 0
		if ratio == 3 {
			k = 1
		}
		if kind == configuration.DensifiedWtaHashFunction {
			k = topK
		}
		hs := newHasher(kind, nh, dim, k)
		for i, c := range coords {
			var got []int
			switch kind {
			case configuration.SparseRandomProjectionHashFunction:
				v := make([]float64, dim)
				v[c] = 1
				if sparse {
					got = hs.sparse(pairs{{Index: c, Value: 1}})
				} else {
					got = hs.dense(v)
				}
				var not []int
				if sparse {
					not = hs.sparse(pairs{{Index: c, Value: -1}})
				} else {
					v[c] = -1
					not = hs.dense(v)
				}
				for h, x := range got {
					decides[i][h] += x
					counts[i][h] = x - not[h]
				}
				if i == 0 && got[h1] == 1 && got[h2] == 1 {
					shared++
				}
				continue
			case configuration.WtaHashFunction:
				got = hs.code(base, c, high+span, sparse, r)
				for h, x := range got {
					if x == c {
						decides[i][h]++
						counts[i][h] = 1
					}
				}
				if i == 0 && got[h1] == c && got[h2] == c {
					shared++
				}
			case configuration.DensifiedWtaHashFunction:
				got = hs.code(base, c, high+span, sparse, r)
				was := hs.code(base, c, low-span, sparse, r)
				for h := range got {
					if got[h] != was[h] {
						decides[i][h]++
						counts[i][h] = 1
					}
				}
				if i == 0 {
					for h, x := range got {
						w.Check(x >= 0 && x < 8, "code-out-of-range", "code %d", x)
						values[h][0][x]++
					}
					if got[h1] != was[h1] && got[h2] != was[h2] {
						shared++
					}
				}
			}
		}
		for h := range overlap {
			for i := range coords {
				if counts[i][h] != 0 && counts[i][h+step] != 0 {
					overlap[h]++
				}
			}
		}
		if kind == configuration.SparseRandomProjectionHashFunction {
			for h := 0; h < nh; h++ {
				was := 0
				for i := range coords {
					now := counts[i][h]
					if h%2 == 1 && now*counts[i][h-1] != 0 {
						signs.add(1, now == counts[i][h-1])
					}
					if now != 0 && was != 0 {
						signs.add(0, now == was)
						now = 0
					}
					if now != 0 {
						was = now
					} else if counts[i][h] != 0 {
						was = 0
					}
				}
			}
		}
	}
	p := 8 / float64(dim)
	switch kind {
	case configuration.SparseRandomProjectionHashFunction:
		p = float64(sample) / float64(dim) / 2
	case configuration.DensifiedMinhashFunction:
		p = 1 / float64(nh)
	}
	want, bound := p*float64(q), chanceBound(float64(q), p)
	for i, c := range coords {
		for h, n := range decides[i] {
			w.Check(math.Abs(float64(n)-want) <= bound, "unfair-draw", "%s: coordinate %d of %d decides code %d of %d in %d of %d draws, want about %.1f", hashName(kind), c, dim, h, nh, n, q, want)
		}
	}
	if kind == configuration.DensifiedWtaHashFunction {
		for h := range values {
			for x, n := range values[h][0] {
				w.Check(math.Abs(float64(n)-float64(q)/8) <= chanceBound(float64(q), 0.125), "unfair-draw", "%s: code %d is %d in %d of %d draws, want about one in eight", hashName(kind), h, x, n, q)
			}
		}
	}
	// over all codes, or all coordinates, taken together
	for i, c := range coords {
		sum := 0
		for _, n := range decides[i] {
			sum += n
		}
		switch kind {
		case configuration.SparseRandomProjectionHashFunction:
			m := float64(q * nh)
			w.Check(math.Abs(float64(sum)-m*p) <= chanceBound(m, p), "unfair-draw", "%s: coordinate %d of %d decides %d of %.0f codes, want about %.1f", hashName(kind), c, dim, sum, m, m*p)
		case configuration.WtaHashFunction, configuration.DensifiedWtaHashFunction:
			// every coordinate has its place in every whole permutation
			w.Check(nh%perPerm != 0 || sum == q*nh/perPerm, "unfair-draw", "%s: coordinate %d of %d decides %d codes in %d draws of %d, want %d", hashName(kind), c, dim, sum, q, nh, q*nh/perPerm)
		}
	}
	// two codes are drawn independently when they come from different permutations
	both := -1.0
	switch kind {
	case configuration.SparseRandomProjectionHashFunction:
		if h1 != h2 {
			both = p * p
		}
	case configuration.DensifiedMinhashFunction:
		for i, c := range coords {
			for j, d := range coords[:i] {
				if c != d {
					n := together[i][j]
					w.Check(math.Abs(float64(n)-want) <= bound, "draws-depend", "%s: coordinates %d and %d share a bin in %d of %d draws, want about %.1f", hashName(kind), c, d, n, q, want)
				}
			}
		}
	default:
		if h1/perPerm != h2/perPerm {
			both = p * p
			w.Hit("codes-of-different-permutations")
		} else if h1 != h2 {
			both = 0
		}
	}
	if both >= 0 {
		w.Check(math.Abs(float64(shared)-both*float64(q)) <= chanceBound(float64(q), both), "draws-depend", "%s: codes %d and %d of %d are decided alike in %d of %d draws, want about %.1f", hashName(kind), h1, h2, nh, shared, q, both*float64(q))
	}
	if kind != configuration.DensifiedMinhashFunction {
		in := p // the chance of a coordinate to count in a code, of either sign
		if kind == configuration.SparseRandomProjectionHashFunction {
			in *= 2
		}
		m := float64(len(coords))
		judge := func(n int, draws float64, what string, h int) {
			want := in * in * m * draws
			// Bernstein's inequality for terms up to most, with the variance of independent coordinates
			most := min(m, in*float64(dim))
			l := 27.7 * most
			off := l/3 + math.Sqrt(l*l/9+2*27.7*want*(1-in*in))
			w.Check(math.Abs(float64(n)-want) <= off, "draws-depend", "%s: %d coordinates of %d count in %s %d and the one of %d further in %d cases in %.0f draws, want about %.1f", hashName(kind), len(coords), dim, what, h, step, n, draws, want)
		}
		pooled, groups := [2]int{}, [2]float64{}
		for h, n := range overlap {
			judge(n, float64(q), "code", h)
			pooled[h/step%2] += n
			groups[h/step%2] += float64(q)
		}
		if kind == configuration.SparseRandomProjectionHashFunction {
			for i, n := range pooled {
				judge(n, groups[i], "every second code from", i)
			}
		}
		for i, n := range signs.n {
			w.Check(math.Abs(float64(signs.hit[i])-float64(n)/2) <= chanceBound(float64(n), 0.5), "draws-depend", "%s: signs of %s agree in %d of %d cases, want about half", hashName(kind), signs.name[i], signs.hit[i], n)
		}
	}
	for i := range decides {
		w.Observe(decides[i])
	}
	w.NonTrivial = p > 0 && p < 1
}

// tally counts how often each of a few things happened.
type tally struct {
	name   []string
	n, hit []int
}

func newTally(name ...string) *tally {
	return &tally{name, make([]int, len(name)), make([]int, len(name))}
}

func (t *tally) add(i int, hit bool) {
	t.n[i]++
	if hit {
		t.hit[i]++
	}
}

// code hashes v with coordinate c replaced by x.
func (h *hasher) code(v []float64, c int, x float64, sparse bool, r *mrand.Rand) []int {
	if !sparse {
		u := append([]float64(nil), v...)
		u[c] = x
		return h.dense(u)
	}
	p := make(pairs, len(v))
	for i, y := range v {
		if i == c {
			y = x
		}
		p[i] = index_value.Pair{Index: i, Value: y}
	}
	r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	return h.sparse(p)
}

var (
	batchRE     = regexp.MustCompile(`(?m)^(\d+) records, with (\d+) features and (\d+) labels$`)
	epochRE     = regexp.MustCompile(`(?m)^Epoch (\d+)$`)
	initRE      = regexp.MustCompile(`(?m)^Network Initialization takes (\S+)$`)
	inferenceRE = regexp.MustCompile(`(?m)^Inference takes (\S+)\.$`)
	sampleRE    = regexp.MustCompile(`(?m)^Avg sample size((?: \S+)*)$`)
)

// C34: the program's account of its progress is true.
func propC34(w *World) {
	environment(w, false)
	p := genPipe(w, pipeDefaults)
	r := w.Rand()
	scale := simrt.Pick[int64](w, 1_000_000, 1000, 1, 1_000_000_000)
	duration := func() time.Duration {
		if r.Intn(6) == 0 {
			return 0
		}
		return time.Duration(r.Int63n(3 * scale))
	}
	var building time.Duration
	w.Clock.Set(simrt.ClockManual, w.Seed())
	p.spend = func(kind byte) {
		d := duration()
		w.Clock.Advance(d)
		if kind == 'N' {
			building += d
		}
	}
	// per training step or evaluation batch: what was retrieved, how long it took
	type account struct {
		sums  []int
		spent time.Duration
		epoch int // epoch lines before it
	}
	var accounts []account
	at := func() *account {
		for len(accounts) < len(p.events) {
			accounts = append(accounts, account{sums: make([]int, p.spec.layers), epoch: len(epochRE.FindAllString(simrt.StderrText(), -1))})
		}
		if len(accounts) == 0 {
			w.Broken("a forward pass outside any step")
		}
		return &accounts[len(accounts)-1]
	}
	onQuery(w, func(q probe) {
		a := at()
		a.sums[q.layerIndex] += q.retrieved
		d := duration()
		w.Clock.Advance(d)
		a.spent += d
	})
	streams := newSimReader(w, nil).deliver()
	nth := 0
	p.run(func(name string, _ int) (io.Reader, error) {
		data := p.file(name)
		if data == nil {
			return nil, syscall.ENOENT
		}
		w.Clock.Advance(duration())
		st := *streams
		nth++
		st.data, st.r = data, mrand.New(mrand.NewSource(int64(nth)))
		return slowReader{&st, func() { w.Clock.Advance(duration()) }}, nil
	})
	p.mustSucceed()
	stderr, stdout := simrt.StderrText(), simrt.StdoutText()
	takes := func(text, what string, want time.Duration) {
		d, err := time.ParseDuration(text)
		w.Check(err == nil && d == want, "time-wrong", "%s is reported to take %s, it took %v", what, text, want)
	}

	lines := initRE.FindAllStringSubmatch(stderr, -1)
	w.Check(len(lines) == 1, "report-missing", "%d lines about the initialization", len(lines))
	takes(lines[0][1], "initialization", building)

	lines = epochRE.FindAllStringSubmatch(stderr, -1)
	w.Check(len(lines) == p.epochs, "report-missing", "%d epochs announced, want %d", len(lines), p.epochs)
	for e := range lines {
		w.Check(lines[e][1] == strconv.Itoa(e), "report-order", "epoch %d is announced as %s", e, lines[e][1])
	}

	batches := batchRE.FindAllStringSubmatch(stderr, -1)
	inferences := inferenceRE.FindAllStringSubmatch(stdout, -1)
	samples := sampleRE.FindAllStringSubmatch(stdout, -1)
	nb, ns, nt := 0, 0, 0
	for i, e := range p.events {
		var a *account
		if i < len(accounts) {
			a = &accounts[i]
		}
		if e.kind == 'E' {
			features, labels := 0, 0
			for _, x := range e.batch {
				features += len(x.Features)
				labels += len(x.Labels)
			}
			w.Check(nb < len(batches) && nb < len(inferences), "report-missing", "evaluation batch %d of the run is not reported", nb)
			g := batches[nb]
			w.Check(g[1] == strconv.Itoa(len(e.batch)) && g[2] == strconv.Itoa(features) && g[3] == strconv.Itoa(labels), "batch-misreported",
				"an evaluation batch of %d records with %d features and %d labels is reported as %q", len(e.batch), features, labels, g[0])
			var spent time.Duration
			if a != nil {
				spent = a.spent
			}
			takes(inferences[nb][1], "an evaluation batch", spent)
			nb++
			continue
		}
		if a != nil && len(e.batch) > 0 {
			w.Check(a.epoch == nt/p.numBatches+1, "report-order", "training step %d takes place after %d epochs were announced", nt, a.epoch)
		}
		nt++
		if !e.rehash {
			continue
		}
		w.Check(ns < len(samples), "report-missing", "%d reports of sample sizes, there were more rehashes", len(samples))
		got := strings.Fields(samples[ns][1])
		ns++
		w.Check(len(got) == p.spec.layers, "report-missing", "%d sample sizes reported for %d layers", len(got), p.spec.layers)
		if len(e.batch) == 0 {
			continue
		}
		for l, s := range got {
			x, err := strconv.ParseFloat(s, 64)
			want := float64(a.sums[l]) / float64(len(e.batch))
			w.Check(err == nil && close2(x, want, 0.00051), "sample-size-wrong", "layer %d: average sample size reported as %s, want %.3f over %d records", l, s, want, len(e.batch))
			w.Observe(s)
		}
	}
	w.Check(nb == len(batches) && nb == len(inferences), "report-missing", "%d evaluation batches, %d and %d reports of them", nb, len(batches), len(inferences))
	w.Check(ns == len(samples), "report-missing", "%d rehashes and %d reports of sample sizes", ns, len(samples))
	w.NonTrivial = len(p.events) > 2
}
