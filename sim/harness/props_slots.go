//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

func init() { register("C38", propC38) }

// refSlot is what a slot of a neuron is.
type refSlot struct {
	open       bool
	act, delta float64
}

// refNeuron is the reference for one neuron.
type refNeuron struct {
	nd      *node.Node
	typ     node.NodeType
	id      int
	w       []float64
	b       float64
	t       []float64
	tb      float64
	slots   []refSlot
	scale   float64 // of what was added up
	refused int
}

type slotWorld struct {
	w     *World
	adam  bool
	lr    float64
	top   *refNeuron
	prev  []*refNeuron
	inDim int
	slots int
	busy  bool // several tasks at once
}

func (sw *slotWorld) make(r *mrand.Rand, id, dim int, typ node.NodeType) *refNeuron {
	n := &refNeuron{typ: typ, id: id, b: float64(r.Intn(7) - 3), t: make([]float64, dim), slots: make([]refSlot, sw.slots), scale: 1}
	for i := 0; i < dim; i++ {
		n.w = append(n.w, float64(r.Intn(9)-4))
	}
	ws := append([]float64(nil), n.w...)
	if r.Intn(2) == 0 {
		n.nd = node.NewNode(0, dim, id, 0, typ, sw.slots, ws, n.b, make([]float64, dim), make([]float64, dim))
	} else {
		tr := make([]*node.NodeTrain, sw.slots)
		for i := range tr {
			tr[i] = node.NewNodeTrain(0)
		}
		n.nd = node.NewEmptyNode(0).Update(0, dim, id, 0, typ, sw.slots, ws, n.b, make([]float64, dim), make([]float64, dim), tr)
	}
	return n
}

// read compares one slot of a neuron with the reference.
func (sw *slotWorld) read(when string, n *refNeuron, slot int) {
	s := n.slots[slot]
	x := n.nd.GetLastActivation(slot)
	want := s.act
	if !s.open {
		want = 0
	}
	sw.w.Check(close2(x, want, 1e-6*(1+math.Abs(want))), "slot-activation", "%s: neuron %d slot %d (open: %v) reads activation %v, want %v", when, n.id, slot, s.open, x, want)
	want = s.delta
	if !s.open {
		want = 0
	}
	x = -n.nd.GetGradient(0, 0, slot, 1)
	sw.w.Check(close2(x, want, 1e-6*(1+math.Abs(want))), "slot-error", "%s: neuron %d slot %d (open: %v) holds the error %v, want %v", when, n.id, slot, s.open, x, want)
}

// sums compares what has been accumulated.
func (sw *slotWorld) sums(when string, n *refNeuron) {
	ok := func(x, want float64, what string) {
		sw.w.Check(close2(x, want, 1e-6*n.scale), "accumulated", "%s: neuron %d: %s is %v, want %v", when, n.id, what, x, want)
	}
	for i := range n.w {
		if sw.adam {
			ok(n.nd.GetT(i), n.t[i], fmt.Sprintf("gradient %d", i))
		}
		ok(n.nd.Weights()[i], n.w[i], fmt.Sprintf("weight %d", i))
	}
	if sw.adam {
		ok(n.nd.GetTBias(), n.tb, "the gradient of the bias")
	}
	ok(n.nd.Bias(), n.b, "the bias")
}

// refuse makes a call that has to fail and to change nothing.
func (sw *slotWorld) refuse(what string, n *refNeuron, slot int, f func()) {
	_, panicked := sw.w.Recover(f)
	sw.w.Check(panicked, "not-refused", "%s for slot %d of neuron %d, which is not open, is not refused", what, slot, n.id)
	n.refused++
	sw.w.Hit("refused")
	if slot >= 0 && slot < sw.slots {
		sw.read("after a refused call", n, slot)
	}
	if !sw.busy {
		sw.sums("after a refused call", n)
		for k := 0; k < sw.slots; k++ {
			sw.read("after a refused call for slot "+fmt.Sprint(slot), n, k)
		}
	}
}

// step does something to one slot of the family.
func (sw *slotWorld) step(r *mrand.Rand, slot int) {
	n := sw.top
	in := -1
	if r.Intn(2) == 0 {
		in = r.Intn(len(sw.prev))
		n = sw.prev[in]
	}
	s := &n.slots[slot]
	labels := [][]int{{n.id}, {n.id + 1}, {n.id + 3, n.id}, {n.id, n.id + 1, n.id + 2, n.id + 3}}[r.Intn(4)]
	var acts pairs
	var who []*refNeuron
	if in < 0 {
		for i, p := range sw.prev {
			if p.slots[slot].open && r.Intn(4) > 0 {
				acts = append(acts, index_value.Pair{Index: i, Value: p.slots[slot].act})
				who = append(who, p)
			}
		}
	} else {
		for _, i := range r.Perm(sw.inDim)[:1+r.Intn(sw.inDim)] {
			acts = append(acts, index_value.Pair{Index: i, Value: float64(r.Intn(7) - 3)})
		}
	}
	backward := func() {
		if in < 0 {
			all := make([]*node.Node, len(sw.prev))
			for i, p := range sw.prev {
				all[i] = p.nd
			}
			n.nd.BackPropagate(0, &all, acts, sw.lr, slot)
		} else {
			n.nd.BackPropagateFirstLayer(0, acts, sw.lr, slot)
		}
	}
	x := float64(r.Intn(15) - 7)
	switch r.Intn(11) {
	case 0, 1:
		sum := n.b
		for _, p := range acts {
			sum += n.w[p.Index] * p.Value
		}
		if s.open && s.delta != 0 && (n.typ != node.ReLU || sum >= 0) {
			return // what becomes of errors sent before is not specified
		}
		sw.w.Logf("forward: neuron %d slot %d", n.id, slot)
		a, _ := n.nd.GetActivation(0, acts, slot)
		s.open, s.act = true, sum
		if n.typ == node.ReLU && sum < 0 {
			s.act, s.delta = 0, 0
		}
		sw.w.Check(close2(a, s.act, 1e-6*(1+math.Abs(sum))), "activation", "neuron %d slot %d: the forward pass returns %v, want %v", n.id, slot, a, s.act)
	case 2, 3, 4:
		if n.typ != node.ReLU {
			return
		}
		if !s.open {
			sw.refuse("an error", n, slot, func() { n.nd.IncrementDelta(0, slot, x) })
			return
		}
		sw.w.Logf("error %v for neuron %d slot %d", x, n.id, slot)
		n.nd.IncrementDelta(0, slot, x)
		if s.act > 0 {
			s.delta += x
		} else {
			sw.w.Hit("error-for-a-neuron-that-did-not-fire")
		}
	case 5:
		if n.typ != node.Softmax {
			return
		}
		norm := 1 + float64(r.Intn(8))
		stats := func() { n.nd.ComputeExtaStatsForSoftMax(0, norm, slot, labels) }
		if !s.open {
			sw.refuse("softmax statistics", n, slot, stats)
			return
		}
		sw.w.Logf("softmax statistics of neuron %d slot %d", n.id, slot)
		n.nd.SetlastActivation(0, slot, math.Abs(x)/8)
		stats()
		s.act = math.Abs(x) / 8 / norm
		s.delta = -s.act / float64(sw.slots)
		for _, l := range labels {
			if l == n.id {
				s.delta = (1/float64(len(labels)) - s.act) / float64(sw.slots)
			}
		}
	case 6, 7:
		if !s.open {
			sw.refuse("a backward pass", n, slot, backward)
			return
		}
		sw.w.Logf("backward: neuron %d slot %d", n.id, slot)
		w0 := append([]float64(nil), n.w...)
		backward()
		for i, p := range acts {
			v := p.Value
			if in < 0 {
				o := who[i]
				v = o.slots[slot].act
				if v > 0 {
					o.slots[slot].delta += s.delta * w0[p.Index]
				}
			}
			n.scale += math.Abs(s.delta * v)
			if sw.adam {
				n.t[p.Index] += s.delta * v
			} else {
				n.w[p.Index] += sw.lr * s.delta * v
			}
		}
		n.scale += math.Abs(s.delta)
		if sw.adam {
			n.tb += s.delta
		} else {
			n.b += sw.lr * s.delta
			n.nd.CopyWeightsAndBiasFromMirror(0)
		}
		*s = refSlot{}
		for _, o := range who {
			sw.read("after a backward pass above", o, slot)
		}
		sw.w.Hit("closed")
	case 8:
		bad := sw.slots + r.Intn(2)
		if r.Intn(3) == 0 {
			bad = -1
		}
		switch r.Intn(3) {
		case 0:
			sw.refuse("a forward pass", n, bad, func() { n.nd.GetActivation(0, acts, bad) })
		case 1:
			slot := bad
			sw.refuse("a backward pass", n, slot, func() {
				if in < 0 {
					var all []*node.Node
					n.nd.BackPropagate(0, &all, nil, sw.lr, slot)
				} else {
					n.nd.BackPropagateFirstLayer(0, nil, sw.lr, slot)
				}
			})
		default:
			sw.refuse("an error", n, bad, func() { n.nd.IncrementDelta(0, bad, 1) })
		}
		return
	default:
		sw.read("meanwhile", n, slot)
		return
	}
	sw.read("after it", n, slot)
	sw.w.Observe(s.act, s.delta)
}

// C38: a slot of a neuron opens with its forward pass and closes with its
// backward pass.
func propC38(w *World) {
	environment(w, false)
	sw := &slotWorld{w: w, adam: w.Chance(2, 3), lr: 0.25, inDim: w.Int(1, 5), slots: w.Int(1, 4)}
	if w.Chance(1, 6) {
		sw.slots = w.Int(5, 12)
	}
	configuration.Global = configuration.Default()
	configuration.Global.UseAdam = sw.adam
	r := w.Rand()
	prevN := w.Int(1, 5)
	typ := node.Softmax
	if w.Chance(1, 3) {
		typ = node.ReLU
	}
	for i := 0; i < prevN; i++ {
		sw.prev = append(sw.prev, sw.make(r, i, sw.inDim, node.ReLU))
	}
	sw.top = sw.make(r, 100, prevN, typ)
	sw.busy = sw.adam && w.Chance(2, 3)
	w.Logf("%d neurons below one, %d inputs, %d slots, Adam %v, slots at the same time: %v", prevN, sw.inDim, sw.slots, sw.adam, sw.busy)
	steps := w.Int(5, 40)
	if sw.busy {
		w.Schedule(true)
		grp := newGroup(w)
		for k := 0; k < sw.slots; k++ {
			r := w.Rand()
			k := k
			grp.Go(fmt.Sprintf("slot-%d", k), func() {
				for i := 0; i < steps; i++ {
					sw.step(r, k)
				}
			})
		}
		grp.Wait()
	} else {
		for i := 0; i < steps*2; i++ {
			sw.step(r, r.Intn(sw.slots))
		}
	}
	for _, n := range append([]*refNeuron{sw.top}, sw.prev...) {
		for k := 0; k < sw.slots; k++ {
			sw.read("in the end", n, k)
		}
		sw.sums("in the end", n)
		if n.refused > 0 {
			w.NonTrivial = true
		}
	}
}
