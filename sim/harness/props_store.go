//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"github.com/nlpodyssey/goslide/bucket"
	"github.com/nlpodyssey/goslide/bucket/fifo"
	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C17", propC17)
	register("C18", propC18)
}

const window = 128

// windowModel is the reference bucket: the last 128 ids, each at the slot it
// was first put in.
type windowModel struct {
	all []int // everything added since the last reset
}

func (m *windowModel) reset()        { m.all = nil }
func (m *windowModel) add(x int) int { m.all = append(m.all, x); return (len(m.all) - 1) % window }
func (m *windowModel) size() int     { return min(len(m.all), window) }
func (m *windowModel) slots() []int {
	out := make([]int, m.size())
	for i, x := range m.all {
		if i >= len(m.all)-window {
			out[i%window] = x
		}
	}
	return out
}

type bucketOps interface {
	Reset()
	Add(id int) int
	Retrieve(index int) int
	GetAll() []int
}

// C17: a bucket is a bounded FIFO window.
func propC17(w *World) {
	environment(w, true)
	var bs []bucketOps
	var ms []*windowModel
	var plain []bool
	for k := w.Int(1, 3); k > 0; k-- {
		isPlain := w.Chance(1, 2)
		if isPlain {
			bs = append(bs, bucket.New())
		} else {
			bs = append(bs, fifo.New())
		}
		plain = append(plain, isPlain)
		ms = append(ms, &windowModel{})
	}
	read := func(who string, i int) {
		b, m := bs[i], ms[i]
		kind := map[bool]string{true: "bucket", false: "fifo bucket"}[plain[i]]
		all := b.GetAll()
		want := m.slots()
		n := m.size()
		if plain[i] {
			if n == 0 {
				w.Check(len(all) == 0, "wrong-content", "%s: an empty %s returns %v", who, kind, all)
			} else if len(all) < n || (n < window && (len(all) <= n || all[n] != -1)) {
				w.Fail("wrong-content", "%s: a %s with %d entries returns %d, or no end marker after them: %v", who, kind, n, len(all), all)
			}
			if sz, ok := b.(*bucket.Bucket); ok {
				w.Check(sz.GetSize() == len(m.all), "wrong-size", "%s: %s reports %d additions, want %d", who, kind, sz.GetSize(), len(m.all))
			}
		} else {
			w.Check(len(all) == n, "wrong-content", "%s: a %s with %d entries (%d added) returns %d", who, kind, n, len(m.all), len(all))
		}
		for j := 0; j < n; j++ {
			w.Check(all[j] == want[j], "wrong-content", "%s: slot %d of a %s after %d additions holds %d, want %d", who, j, kind, len(m.all), all[j], want[j])
			x := b.Retrieve(j)
			w.Check(x == want[j], "wrong-retrieve", "%s: Retrieve(%d) of a %s after %d additions is %d, want %d", who, j, kind, len(m.all), x, want[j])
		}
		for j := n; j < window; j++ {
			x := b.Retrieve(j)
			w.Check(x <= 0, "wrong-retrieve", "%s: Retrieve(%d) of a %s after %d additions is %d: nothing was put there", who, j, kind, len(m.all), x)
		}
		for _, j := range []int{window, window + 1, 1000} {
			x := b.Retrieve(j)
			w.Check(x == -1, "wrong-retrieve", "%s: Retrieve(%d) of a %s is %d, want -1", who, j, kind, x)
		}
		w.Observe(len(all), n)
	}
	next := 1
	// several clients at once, one operation at a time
	w.Schedule(false)
	grp := newGroup(w)
	clients := w.Int(1, 3)
	for c := 0; c < clients; c++ {
		c := c
		who := fmt.Sprintf("client %d", c)
		r := w.Rand()
		bursts := w.Int(1, 12)
		grp.Go(fmt.Sprintf("client-%d", c), func() {
			for ; bursts > 0; bursts-- {
				w.Point()
				i := r.Intn(len(bs))
				switch k := r.Intn(10); {
				case k == 0:
					w.Logf("%s: reset %d", who, i)
					bs[i].Reset()
					ms[i].reset()
				case k < 3:
					read(who, i)
				default:
					n := 1 + r.Intn(3)
					if k > 6 {
						n = 1 + r.Intn(300)
					}
					w.Logf("%s: add %d to %d", who, n, i)
					for ; n > 0; n-- {
						if r.Intn(8) == 0 {
							w.Point()
						}
						id := next
						if r.Intn(20) == 0 {
							id = 0
						}
						next++
						got, want := bs[i].Add(id), ms[i].add(id)
						w.Check(got == want, "wrong-slot", "%s: addition %d went to slot %d, want %d", who, len(ms[i].all), got, want)
						if len(ms[i].all) > window {
							w.Hit("wrapped")
						}
					}
				}
			}
		})
	}
	grp.Wait()
	for i := range bs {
		read("at the end", i)
	}
	// concurrent readers
	w.Schedule(true)
	rd := newGroup(w)
	for c := 0; c < 2; c++ {
		rd.Go(fmt.Sprintf("reader-%d", c), func() {
			for i := range bs {
				read("reader", i)
			}
		})
	}
	rd.Wait()
	w.NonTrivial = next > 3
}

// spread counts how often codes that differ in one place by an odd number, or
// equal codes of two tables with one of them odd, share an address, over many
// independent tables.
func spread(w *World) {
	k, l, rp := w.Int(1, 3), w.Int(2, 8), w.Int(2, 5)
	configuration.Global = configuration.Default()
	configuration.Global.HashFunction = configuration.DensifiedMinhashFunction
	r := w.Rand()
	place := w.Int(0, k-1)
	dim := simrt.Pick(w, 10, 100, 1000, 100000)
	shared, total, across, pairs := 0, 0, 0, 0
	for total < 1500 {
		t := lsh.New(k, l, rp)
		a, b := make([]int, k*l), make([]int, k*l)
		for i := range a {
			a[i] = r.Intn(dim)
			b[i] = a[i]
			if i%k == place {
				b[i] += 1 - 2*(a[i]&1) + 2*r.Intn(dim)
			}
		}
		x, y := t.HashesToIndex(a), t.HashesToIndex(b)
		for i := range x {
			total++
			if x[i] == y[i] {
				shared++
			}
		}
		for i := range a { // the codes of the first table in all
			if a[i] = a[i%k]; i%k == place {
				a[i] |= 1
			}
		}
		x = t.HashesToIndex(a)
		order := r.Perm(l)
		for i := 0; i+1 < l; i += 2 {
			pairs++
			if x[order[i]] == x[order[i+1]] {
				across++
			}
		}
	}
	p := 1 / float64(int(1)<<uint(rp))
	w.Logf("%d of %d pairs of codes share an address among %d", shared, total, 1<<uint(rp))
	w.Observe(shared)
	w.Check(float64(shared) <= float64(total)*p+chanceBound(float64(total), p), "address-collision",
		"codes that differ in place %d of %d share an address of %d in %d of %d cases", place, k, 1<<uint(rp), shared, total)
	w.Check(float64(across) <= float64(pairs)*p+chanceBound(float64(pairs), p), "address-collision",
		"equal codes have the same address of %d in two tables in %d of %d cases", 1<<uint(rp), across, pairs)
	w.Hit("addresses-counted")
	w.NonTrivial = true
}

// C18: the tables return exactly what was stored under the addresses asked for.
func propC18(w *World) {
	if w.Chance(1, 40) {
		environment(w, false)
		spread(w)
		return
	}
	environment(w, true)
	k, l := w.Int(1, 3), w.Int(1, 6)
	hash := allHashes[w.Int(0, len(allHashes)-1)]
	dim := w.Int(1, 30)
	rp := tableSize(hash, k, dim)
	if hash == configuration.DensifiedMinhashFunction {
		rp = w.Int(0, 7)
	}
	if w.Chance(1, 70) {
		// tables of the sizes real networks use
		l = 1
		switch hash {
		case configuration.DensifiedMinhashFunction:
			rp = w.Int(10, 16)
		case configuration.SparseRandomProjectionHashFunction:
			k = w.Int(8, 16)
			rp = tableSize(hash, k, dim)
		default:
			k = w.Int(4, 6)
			rp = tableSize(hash, k, dim)
		}
		w.Hit("large-table")
	}
	for l > 1 && l<<uint(rp) > 1500 {
		l--
	}
	configuration.Global = configuration.Default()
	configuration.Global.HashFunction = hash
	w.Logf("tables: k=%d l=%d rangePow=%d hash=%s", k, l, rp, hashName(hash))
	small := hash == configuration.DensifiedMinhashFunction && w.Chance(1, 3)
	if small {
		// tiny multipliers make addresses hit the ends of the table
		w.Rng.Small = 32
	}
	t := lsh.New(k, l, rp)
	w.Rng.Small = 0
	size := 1 << uint(rp)
	model := make([]map[int]*windowModel, l)
	for i := range model {
		model[i] = map[int]*windowModel{}
	}
	at := func(i, a int) *windowModel {
		if model[i][a] == nil {
			model[i][a] = &windowModel{}
		}
		return model[i][a]
	}
	code := func(r interface{ Intn(int) int }) int {
		switch hash {
		case configuration.WtaHashFunction:
			return r.Intn(dim)
		case configuration.DensifiedWtaHashFunction:
			return r.Intn(8)
		case configuration.SparseRandomProjectionHashFunction:
			return r.Intn(2)
		}
		if r.Intn(10) == 0 {
			return -1 << 63 // an empty bin
		}
		if small && r.Intn(2) == 0 {
			return 1 << uint(r.Intn(8))
		}
		return r.Intn(dim)
	}
	type seenCodes struct {
		codes []int
		addr  []int
	}
	var known []seenCodes
	address := func(r interface{ Intn(int) int }) []int {
		codes := make([]int, k*l)
		for i := range codes {
			codes[i] = code(r)
		}
		if len(known) > 0 && r.Intn(2) == 0 {
			// agree with an earlier one in some tables
			p := known[r.Intn(len(known))]
			for i := 0; i < l; i++ {
				if r.Intn(2) == 0 {
					copy(codes[i*k:i*k+k], p.codes[i*k:i*k+k])
				}
			}
		}
		keep := append([]int(nil), codes...)
		addr := t.HashesToIndex(codes)
		w.Check(equalInts(keep, codes), "input-altered", "computing addresses changed the codes")
		w.Check(len(addr) == l, "wrong-address", "%d addresses for %d tables", len(addr), l)
		for i, a := range addr {
			w.Check(a >= 0 && a < size, "address-out-of-range", "codes %v of table %d have address %d, the table has %d buckets", codes[i*k:i*k+k], i, a, size)
		}
		for _, p := range known {
			for i := range addr {
				same := equalInts(p.codes[i*k:i*k+k], codes[i*k:i*k+k])
				w.Check(!same || p.addr[i] == addr[i], "wrong-address", "the same codes %v of table %d had address %d and now have %d", codes[i*k:i*k+k], i, p.addr[i], addr[i])
				if hash == configuration.SparseRandomProjectionHashFunction || (k == 1 && hash != configuration.DensifiedMinhashFunction) {
					w.Check(same || p.addr[i] != addr[i], "address-collision", "different codes %v and %v of table %d share address %d", p.codes[i*k:i*k+k], codes[i*k:i*k+k], i, addr[i])
				}
			}
		}
		if hash != configuration.DensifiedMinhashFunction {
			// one code alone makes a difference
			i, j := r.Intn(l), r.Intn(k)
			other := append([]int(nil), codes...)
			other[i*k+j] = code(r)
			if a := t.HashesToIndex(other); other[i*k+j] != codes[i*k+j] {
				w.Check(a[i] != addr[i], "address-collision", "codes %v and %v of table %d, which differ in one place, share address %d", codes[i*k:i*k+k], other[i*k:i*k+k], i, addr[i])
				for q := range a {
					w.Check(q == i || a[q] == addr[q], "wrong-address", "another code of table %d changes the address in table %d from %d to %d", i, q, addr[q], a[q])
				}
			}
		}
		known = append(known, seenCodes{keep, append([]int(nil), addr...)})
		return addr
	}
	content := func(i, a int) []int {
		if m := model[i][a]; m != nil {
			return m.slots()
		}
		return nil
	}
	checkRaw := func(who string, addr []int) {
		keep := append([]int(nil), addr...)
		raw := t.RetrieveRaw(addr)
		w.Check(equalInts(addr, keep), "input-altered", "a lookup changed its addresses")
		w.Check(len(raw) == l, "wrong-content", "%s: %d results for %d tables", who, len(raw), l)
		for i := range raw {
			want := content(i, addr[i])
			w.Check(equalInts(raw[i], want), "wrong-content", "%s: table %d address %d returns %v, want %v", who, i, addr[i], raw[i], want)
			for j := range want {
				x := t.Retrieve(i, addr[i], j)
				w.Check(x == want[j], "wrong-retrieve", "%s: entry %d of table %d address %d is %d, want %d", who, j, i, addr[i], x, want[j])
			}
			w.Observe(len(raw[i]))
		}
	}
	next := 0
	w.Schedule(false)
	grp := newGroup(w)
	for c := w.Int(1, 3); c > 0; c-- {
		who := fmt.Sprintf("client %d", c)
		r := w.Rand()
		ops := w.Int(1, 25)
		grp.Go(who, func() {
			for ; ops > 0; ops-- {
				w.Point()
				switch op := r.Intn(12); {
				case op == 0 && r.Intn(2) == 0:
					w.Logf("%s: clear", who)
					t.Clear()
					for i := range model {
						model[i] = map[int]*windowModel{}
					}
					w.Hit("cleared")
				case op < 4:
					checkRaw(who, address(r))
				case op < 6:
					i, a := r.Intn(l), r.Intn(size)
					id := next
					next++
					got, want := t.AddSingle(i, a, id), at(i, a).add(id)
					w.Check(got == want, "wrong-slot", "%s: id %d went to slot %d of table %d address %d, want %d", who, id, got, i, a, want)
				default:
					addr := address(r)
					n := 1
					if r.Intn(6) == 0 {
						n = 1 + r.Intn(200)
					}
					for ; n > 0; n-- {
						id := next
						next++
						got := t.Add(addr, id)
						w.Check(len(got) == l, "wrong-slot", "%d slots for %d tables", len(got), l)
						for i := range got {
							want := at(i, addr[i]).add(id)
							w.Check(got[i] == want, "wrong-slot", "%s: id %d went to slot %d of table %d address %d, want %d", who, id, got[i], i, addr[i], want)
						}
					}
					if r.Intn(3) == 0 {
						checkRaw(who, addr)
					}
				}
			}
		})
	}
	grp.Wait()
	// everything that was ever stored, and nothing else, by several readers at once
	sweep := func(who string) {
		for i := range model {
			var as []int
			for a := range model[i] {
				as = append(as, a)
			}
			sort.Ints(as)
			for _, a := range as {
				addr := make([]int, l)
				for j := range addr {
					addr[j] = (a + j*7) % size
				}
				addr[i] = a
				checkRaw(who, addr)
			}
		}
		checkRaw(who, make([]int, l))
	}
	w.Schedule(true)
	rd := newGroup(w)
	for c := 0; c < 2; c++ {
		who := fmt.Sprintf("reader %d", c)
		rd.Go(who, func() { sweep(who) })
	}
	rd.Wait()
	w.NonTrivial = next > 2
}
