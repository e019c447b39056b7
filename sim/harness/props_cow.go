//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

func init() { register("C23", propC23) }

// family is a neuron with the neurons of the layer before it, as one owner
// sees them.
type family struct {
	cow    int
	top    *node.Node
	prev   []*node.Node
	active map[[2]int]bool // neuron (-1 the top one) and slot
}

func (f *family) fork(cow int) *family {
	c := &family{cow: cow, top: f.top, prev: append([]*node.Node(nil), f.prev...), active: map[[2]int]bool{}}
	for k, v := range f.active {
		c.active[k] = v
	}
	return c
}

// cowOp is one change an owner makes.
type cowOp struct {
	kind   int
	who    int // -1 the top neuron, otherwise one of the layer before
	i      int
	slot   int
	x      float64
	in     pairs
	labels []int
	depth  int
}

const cowKinds = 19

type cowShape struct {
	prevN, inDim, slots int
	adam                bool
	lazy                bool // gradient descent whose steps are taken over later, by whoever owns the neuron then
	seed                int64
}

// origin builds the family everything descends from.
func (s cowShape) origin(cow int) *family {
	r := mrand.New(mrand.NewSource(s.seed))
	vec := func(n int) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = r.NormFloat64()
		}
		return v
	}
	mk := func(id, dim int, t node.NodeType) *node.Node {
		ws, m, v := vec(dim), vec(dim), vec(dim)
		b := r.NormFloat64()
		if r.Intn(2) == 0 {
			return node.NewNode(cow, dim, id, 0, t, s.slots, ws, b, m, v)
		}
		tr := make([]*node.NodeTrain, s.slots)
		for i := range tr {
			tr[i] = node.NewNodeTrain(cow)
		}
		return node.NewEmptyNode(cow).Update(cow, dim, id, 0, t, s.slots, ws, b, m, v, tr)
	}
	f := &family{cow: cow, active: map[[2]int]bool{}, top: mk(1, s.prevN, node.Softmax)}
	for i := 0; i < s.prevN; i++ {
		f.prev = append(f.prev, mk(i, s.inDim, node.ReLU))
	}
	return f
}

func (s cowShape) randomOp(r *mrand.Rand) cowOp {
	op := cowOp{kind: r.Intn(cowKinds), who: r.Intn(s.prevN+1) - 1, slot: r.Intn(s.slots), x: r.NormFloat64(), depth: r.Intn(5)}
	dim := s.inDim
	if op.who < 0 {
		dim = s.prevN
	}
	op.i = r.Intn(dim)
	for _, i := range r.Perm(s.inDim)[:1+r.Intn(s.inDim)] {
		op.in = append(op.in, index_value.Pair{Index: i, Value: r.NormFloat64()})
	}
	op.labels = [][]int{{1}, {0}, {1, 2}, {}}[r.Intn(4)]
	if len(op.labels) == 0 {
		op.labels = []int{2}
	}
	return op
}

func (f *family) apply(op cowOp, s cowShape) {
	at := &f.top
	if op.who >= 0 {
		at = &f.prev[op.who]
	}
	n := *at
	c := f.cow
	if s.lazy && (op.kind == 9 || op.kind == 13 || op.kind >= 15) {
		// what reads weights needs the steps taken over
		f.settle(c)
		n = *at
	}
	switch op.kind {
	case 0:
		if s.adam {
			*at = n.SetT(c, op.i, op.x)
		} else {
			*at = n.SetBias(c, op.x)
			*at = (*at).CopyWeightsAndBiasFromMirror(c)
		}
	case 1:
		if s.adam {
			*at = n.SetAdamAvgMom(c, op.i, op.x)
		}
	case 2:
		if s.adam {
			*at = n.SetAdamAvgVel(c, op.i, op.x)
		}
	case 3:
		*at = n.SetAdamAvgMomBias(c, op.x)
	case 4:
		*at = n.SetAdamAvgVelBias(c, op.x)
	case 5:
		*at = n.SetTBias(c, op.x)
	case 6:
		if s.adam {
			*at = n.SetBias(c, op.x)
		}
	case 7:
		if s.adam {
			_, *at = n.PurturbWeight(c, op.i, op.x)
		}
	case 8:
		dim := s.inDim
		if op.who < 0 {
			dim = s.prevN
		}
		ws, m, v := make([]float64, dim), make([]float64, dim), make([]float64, dim)
		for i := range ws {
			ws[i], m[i], v[i] = op.x*float64(i+1), op.x+float64(i), float64(i)-op.x
		}
		tr := make([]*node.NodeTrain, s.slots)
		for i := range tr {
			tr[i] = node.NewNodeTrain(c)
		}
		t, id := node.ReLU, op.who
		if op.who < 0 {
			t, id = node.Softmax, 1
		}
		*at = n.Update(c, dim, id, 0, t, s.slots, ws, op.x, m, v, tr)
		for k := range tr {
			f.active[[2]int{op.who, k}] = false
		}
	case 9:
		// the forward pass of one neuron alone
		if op.who >= 0 {
			_, *at = n.GetActivation(c, op.in, op.slot)
		} else {
			_, *at = n.GetActivation(c, pairs{{Index: op.i, Value: op.x}}, op.slot)
		}
		f.active[[2]int{op.who, op.slot}] = true
	case 10:
		*at = n.SetlastActivation(c, op.slot, op.x)
	case 11:
		if f.active[[2]int{op.who, op.slot}] {
			*at = n.ComputeExtaStatsForSoftMax(c, 1+math.Abs(op.x), op.slot, op.labels)
		}
	case 12:
		if f.active[[2]int{op.who, op.slot}] {
			*at = n.IncrementDelta(c, op.slot, op.x)
		}
	case 13:
		// a backward pass of what somebody, maybe a former owner, passed forward
		at := [2]int{-1, op.slot}
		if !f.active[at] {
			break
		}
		var acts pairs
		for i := range f.prev {
			if f.active[[2]int{i, op.slot}] {
				acts = append(acts, index_value.Pair{Index: i, Value: 1})
			}
		}
		all := append([]*node.Node(nil), f.prev...)
		f.top = f.top.BackPropagate(c, &all, acts, 0.1, op.slot)
		f.prev = all
		f.active[at] = false
		if !s.adam && !s.lazy {
			f.top = f.top.CopyWeightsAndBiasFromMirror(c)
		}
	case 14:
		if op.who >= 0 && f.active[[2]int{op.who, op.slot}] {
			*at = n.BackPropagateFirstLayer(c, op.in, 0.1, op.slot)
			f.active[[2]int{op.who, op.slot}] = false
			if !s.adam && !s.lazy {
				*at = (*at).CopyWeightsAndBiasFromMirror(c)
			}
		}
	case 15:
		if s.lazy {
			f.settle(c)
		}
	default:
		// a forward pass of one slot, and as much of a backward pass as the depth says
		var acts pairs
		for i := range f.prev {
			var a float64
			a, f.prev[i] = f.prev[i].GetActivation(c, op.in, op.slot)
			acts = append(acts, index_value.Pair{Index: i, Value: a})
			f.active[[2]int{i, op.slot}] = true
		}
		f.active[[2]int{-1, op.slot}] = true
		var a float64
		a, f.top = f.top.GetActivation(c, acts, op.slot)
		if op.depth > 0 {
			f.top = f.top.SetlastActivation(c, op.slot, math.Exp(-a*a))
			f.top = f.top.ComputeExtaStatsForSoftMax(c, 2, op.slot, op.labels)
		}
		if op.depth == 2 {
			for i := range f.prev {
				f.prev[i] = f.prev[i].IncrementDelta(c, op.slot, op.x)
			}
		}
		if op.depth > 2 {
			all := append([]*node.Node(nil), f.prev...)
			f.top = f.top.BackPropagate(c, &all, acts, 0.1, op.slot)
			f.prev = all
			f.active[[2]int{-1, op.slot}] = false
			if !s.adam && !s.lazy {
				f.top = f.top.CopyWeightsAndBiasFromMirror(c)
			}
		}
		if op.depth > 3 {
			for i := range f.prev {
				f.prev[i] = f.prev[i].BackPropagateFirstLayer(c, op.in, 0.1, op.slot)
				f.active[[2]int{i, op.slot}] = false
				if !s.adam && !s.lazy {
					f.prev[i] = f.prev[i].CopyWeightsAndBiasFromMirror(c)
				}
			}
		}
	}
}

// settle takes over the steps of gradient descent.
func (f *family) settle(cow int) {
	f.top = f.top.CopyWeightsAndBiasFromMirror(cow)
	for i, n := range f.prev {
		f.prev[i] = n.CopyWeightsAndBiasFromMirror(cow)
	}
}

// passer is an owner that exists only for as long as it looks.
const passer = 2_000_000

// look reads everything that can be read.
func (f *family) look(s cowShape) []float64 {
	var out []float64
	one := func(n *node.Node, dim int) {
		if s.lazy {
			// steps not taken over yet may or may not show in the weights
			m := n.CopyWeightsAndBiasFromMirror(passer)
			out = append(out, m.Weights()...)
			out = append(out, m.Bias())
		} else {
			out = append(out, n.Weights()...)
		}
		out = append(out, n.Bias(), n.GetBias(), n.GetTBias(), n.GetAdamAvgMomBias(), n.GetAdamAvgVelBias())
		if s.adam {
			for d := 0; d < dim; d++ {
				out = append(out, n.GetT(d), n.GetAdamAvgMom(d), n.GetAdamAvgVel(d))
			}
		}
		for k := 0; k < s.slots; k++ {
			out = append(out, n.GetLastActivation(k), n.GetGradient(f.cow, 0, k, 1))
		}
	}
	one(f.top, s.prevN)
	for _, n := range f.prev {
		one(n, s.inDim)
	}
	return out
}

func sameFloats(a, b []float64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return i
		}
	}
	return -1
}

// C23: an owner's changes to a neuron are seen by that owner alone.
func propC23(w *World) {
	environment(w, false)
	s := cowShape{prevN: w.Int(1, 3), inDim: w.Int(1, 4), slots: w.Int(1, 3), adam: w.Chance(2, 3), seed: w.Seed()}
	if w.Chance(1, 4) {
		s.slots = w.Int(4, 8)
	}
	s.lazy = !s.adam && w.Chance(1, 2)
	configuration.Global = configuration.Default()
	configuration.Global.UseAdam = s.adam
	w.Logf("family: %+v", s)
	nextCow := 0
	r := w.Rand()
	ops := func(n int) []cowOp {
		var out []cowOp
		for ; n > 0; n-- {
			out = append(out, s.randomOp(r))
		}
		return out
	}
	type owner struct {
		name     string
		fam      *family
		mine     []cowOp // its own changes
		history  []cowOp // everything that led to its state
		children []*owner
		frozen   []float64
	}
	// alone replays a history under a single owner
	alone := func(h []cowOp) []float64 {
		f := s.origin(1_000_000)
		for _, op := range h {
			f.apply(op, s)
		}
		f.cow = 0
		return f.look(s)
	}
	var plan func(name string, depth int) *owner
	total := 0
	plan = func(name string, depth int) *owner {
		o := &owner{name: name, mine: ops(w.Int(0, 6))}
		total++
		if depth > 0 {
			for k := w.Int(depth/2, 3); k > 0 && total < 8; k-- {
				o.children = append(o.children, plan(fmt.Sprintf("%s.%d", name, k), depth-1))
			}
		}
		return o
	}
	root := plan("owner", 2)
	var all []*owner
	w.Schedule(true)
	grp := newGroup(w)
	var live func(o *owner)
	live = func(o *owner) {
		for _, op := range o.mine {
			o.fam.apply(op, s)
			o.history = append(o.history, op)
			w.Logf("%s: change kind %d of neuron %d", o.name, op.kind, op.who)
			want, got := alone(o.history), o.fam.look(s)
			if i := sameFloats(got, want); i >= 0 {
				w.Fail("not-isolated", "%s after its change %d (kind %d): value %d reads %v, alone it is %v", o.name, len(o.history), op.kind, i, got[min(i, len(got)-1)], want[min(i, len(want)-1)])
			}
		}
		o.frozen = o.fam.look(s)
		all = append(all, o)
		for _, c := range o.children {
			nextCow++
			c.fam = o.fam.fork(nextCow)
			c.history = append([]cowOp(nil), o.history...)
			c := c
			grp.Go(c.name, func() { live(c) })
		}
	}
	root.fam = s.origin(nextCow)
	grp.Go(root.name, func() { live(root) })
	for n := -1; n != len(grp.ts); {
		n = len(grp.ts)
		grp.Wait()
	}
	for _, o := range all {
		if i := sameFloats(o.fam.look(s), o.frozen); i >= 0 {
			w.Fail("not-isolated", "%s: others' changes altered what it reads: value %d was %v, is %v", o.name, i, o.frozen[i], o.fam.look(s)[i])
		}
		w.Observe(o.frozen)
	}
	w.Hit(fmt.Sprintf("owners-%d", len(all)))
	w.NonTrivial = len(all) > 1
}
