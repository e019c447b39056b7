//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
)

func init() { register("C35", propC35) }

// gradPass is one record's way forward and backward and what was seen of it.
type gradPass struct {
	slot int
	ex   dataset.Example
	act  [][]index_value.Pair      // activations of the forward pass
	rep  []map[int]map[int]float64 // per layer, neuron, input: the gradient reported
}

func (g *gradPass) hasLabels() bool {
	on := map[int]bool{}
	for _, p := range g.act[len(g.act)-1] {
		on[p.Index] = true
	}
	for _, l := range g.ex.Labels {
		if !on[l] {
			return false
		}
	}
	return len(g.ex.Labels) > 0
}

// shape tells which of a pass' hidden neurons are on.
func shape(act [][]index_value.Pair) string {
	s := ""
	for _, a := range act[1 : len(act)-1] {
		for _, p := range a {
			if p.Value > 0 {
				s += fmt.Sprint(p.Index, " ")
			}
		}
		s += "/"
	}
	return s
}

// lossRef is the loss of a record with given active sets, from the formulas.
func lossRef(ps []layerParams, act [][]index_value.Pair, labels []int, batch int) (float64, string) {
	cur := act[0]
	var z pairs
	vals := [][]index_value.Pair{cur}
	for li := range ps {
		z = nil
		for _, p := range act[li+1] {
			v := ps[li].b[p.Index]
			for _, q := range cur {
				v += ps[li].w[p.Index][q.Index] * q.Value
			}
			if li < len(ps)-1 && v < 0 {
				v = 0
			}
			z = append(z, index_value.Pair{Index: p.Index, Value: v})
		}
		cur = z
		vals = append(vals, z)
	}
	return crossEntropy(z, labels, batch), shape(vals)
}

// crossEntropy is the mean over the labels of the negative logarithm of the
// softmax of z, as this record's share of the batch.
func crossEntropy(z pairs, labels []int, batch int) float64 {
	top := math.Inf(-1)
	for _, p := range z {
		top = math.Max(top, p.Value)
	}
	sum := 0.0
	at := map[int]float64{}
	for _, p := range z {
		sum += math.Exp(p.Value - top)
		at[p.Index] = p.Value
	}
	lse := top + math.Log(sum)
	loss := 0.0
	for _, l := range labels {
		loss += lse - at[l]
	}
	return loss / float64(len(labels)) / float64(batch)
}

// C35: the gradients are the derivatives of the loss.
func propC35(w *World) {
	environment(w, false)
	o := netDefaults
	o.adam, o.minL = 1, 3
	o.maxLayers, o.maxBatch = 4, 4
	o.wide = false
	o.maxHidden, o.maxOut, o.maxIn = 9, 12, 12
	if w.Chance(1, 2) {
		o.dense = true
	} else {
		o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1, configuration.LayerMode3, configuration.LayerMode2}
	}
	s := genNet(w, o)
	dense := true
	for i := 0; i < s.layers; i++ {
		if s.sparsity[i] < 1 {
			dense = false
		}
	}
	s.install()
	w.Logf("network %v", s)
	var layers []*layer.Layer
	for i := 0; i < s.layers; i++ {
		layers = append(layers, s.buildLayer(0, i))
	}
	// weights of a trained network rather than a fresh one
	r := w.Rand()
	for _, la := range layers {
		for n := 0; n < la.NumOfNodes(); n++ {
			ws := la.GetNodeById(n).Weights()
			for d := range ws {
				ws[d] = r.NormFloat64() * 1.3 / math.Sqrt(float64(len(ws)))
			}
		}
	}
	w.Schedule(false)
	passes := make([]*gradPass, s.batch)
	grp := newGroup(w)
	for slot := range passes {
		slot := slot
		g := &gradPass{slot: slot, ex: genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r), minLabels: r.Intn(2), once: true})}
		passes[slot] = g
		grp.Go(fmt.Sprintf("slot-%d", slot), func() { g.run(w, s, layers) })
	}
	grp.Wait()
	if w.Violation() != nil {
		return
	}
	var ps []layerParams
	for _, la := range layers {
		ps = append(ps, snapshotLayer(la, false))
	}
	// what is accumulated is what is reported, summed over the records
	for li, la := range layers {
		for n := 0; n < la.NumOfNodes(); n++ {
			nd := la.GetNodeById(n)
			for d := 0; d < nd.AdamTDim(); d++ {
				want, scale := 0.0, 0.0
				for _, g := range passes {
					want -= g.rep[li][n][d]
					scale += math.Abs(g.rep[li][n][d])
				}
				w.Check(close2(nd.GetT(d), want, 1e-11*scale), "not-accumulated", "layer %d neuron %d weight %d: the records' gradients add up to %v, accumulated is %v", li, n, d, want, nd.GetT(d))
			}
		}
	}
	checked := 0
	for _, i := range r.Perm(len(passes)) {
		g := passes[i]
		if !g.hasLabels() {
			continue
		}
		for k := 0; k < 12; k++ {
			li := r.Intn(s.layers)
			n := r.Intn(layers[li].NumOfNodes())
			d := r.Intn(len(ps[li].w[n]))
			if a := g.act[li+1]; len(a) > 0 && r.Intn(4) > 0 {
				n = a[r.Intn(len(a))].Index
			}
			if a := g.act[li]; len(a) > 0 && r.Intn(4) > 0 {
				d = a[r.Intn(len(a))].Index
			}
			in := 0.0
			for _, q := range g.act[li] {
				if q.Index == d {
					in = q.Value
				}
			}
			got := g.rep[li][n][d]
			real := dense && r.Intn(2) == 0
			loss := func(h float64) (float64, string) {
				if !real {
					keep := ps[li].w[n][d]
					ps[li].w[n][d] += h
					defer func() { ps[li].w[n][d] = keep }()
					return lossRef(ps, g.act, g.ex.Labels, s.batch)
				}
				return g.realLoss(w, s, layers, ps, li, n, d, h)
			}
			h := 2e-4 / math.Max(1, math.Abs(in))
			quotient := func(h float64) (float64, bool) {
				a, sa := loss(h)
				b, sb := loss(-h)
				return (a - b) / (2 * h), sa == sb && sa == shape(g.act)
			}
			d1, ok1 := quotient(h)
			d2, ok2 := quotient(h / 2)
			if !ok1 || !ok2 {
				w.Hit("kink")
				continue
			}
			if now, _ := loss(0); real && !(now*float64(s.batch) < 300) {
				// the share of a label is too small for a float64
				w.Hit("saturated")
				continue
			}
			tol := 1e-4*math.Max(math.Abs(got), math.Abs(d2)) + 1e-5*math.Max(1, math.Abs(in)) + 4*math.Abs(d1-d2)
			w.Check(close2(got, d2, tol), "wrong-gradient", "slot %d, labels %v of %d records: layer %d neuron %d weight %d with input %v: the reported gradient is %v, the loss changes by %v", g.slot, g.ex.Labels, s.batch, li, n, d, in, got, d2)
			w.Observe(got)
			if math.Abs(got) > 100*tol {
				checked++
			}
			if real {
				w.Hit("real-difference-quotient")
			}
		}
	}
	w.NonTrivial = checked > 3
}

// run takes the record forward and backward and keeps every gradient it sees.
func (g *gradPass) run(w *World, s netSpec, layers []*layer.Layer) {
	act := make([][]index_value.Pair, s.layers+1)
	act[0] = g.ex.Features
	for li := range layers {
		w.Point()
		layers[li].QueryActiveNodeAndComputeActivations(0, act, li, g.slot, g.ex.Labels, s.sparsity[li])
	}
	for _, a := range act {
		g.act = append(g.act, append(pairs(nil), a...))
		if len(g.rep) < s.layers {
			g.rep = append(g.rep, map[int]map[int]float64{})
		}
	}
	for li := s.layers - 1; li >= 0; li-- {
		for _, p := range act[li+1] {
			w.Point()
			nd := layers[li].GetNodeById(p.Index)
			if li == s.layers-1 {
				nd.ComputeExtaStatsForSoftMax(0, layers[li].GetNomalizationConstant(g.slot), g.slot, g.ex.Labels)
				w.Point()
			}
			g.rep[li][p.Index] = map[int]float64{}
			for _, q := range g.act[li] {
				g.rep[li][p.Index][q.Index] = nd.GetGradient(0, q.Index, g.slot, q.Value)
			}
			if li > 0 {
				all := layers[li-1].GetAllNodes()
				nd.BackPropagate(0, &all, act[li], s.lr, g.slot)
			} else {
				nd.BackPropagateFirstLayer(0, g.ex.Features, s.lr, g.slot)
			}
		}
	}
}

// realLoss moves one weight of the network, lets it compute the loss, and
// moves the weight back.
func (g *gradPass) realLoss(w *World, s netSpec, layers []*layer.Layer, ps []layerParams, li, n, d int, h float64) (float64, string) {
	before := ps[li].w[n][d]
	move := func(by float64) float64 {
		was := layers[li].GetNodeById(n).Weights()[d]
		v, nd := layers[li].GetNodeById(n).PurturbWeight(0, d, by)
		w.Check(nd != nil && v == was+by && nd.Weights()[d] == v && layers[li].GetNodeById(n).Weights()[d] == v, "wrong-perturbation",
			"layer %d neuron %d weight %d moved from %v by %v: reported %v, now %v", li, n, d, was, by, v, layers[li].GetNodeById(n).Weights()[d])
		return v
	}
	for _, by := range []float64{-before, -before + 1e-10, 1e9, -1e-12, 3, 0} {
		if w.Chance(1, 4) {
			was := move(by)
			if layers[li].GetNodeById(n).Weights()[d] = before; layers[li].GetNodeById(n).Weights()[d] != before {
				move(before - was) // a copy was handed out
				before = layers[li].GetNodeById(n).Weights()[d]
				ps[li].w[n][d] = before
			}
		}
	}
	v := move(h)
	for i, la := range layers {
		for j := 0; j < la.NumOfNodes(); j++ {
			nd := la.GetNodeById(j)
			for k, x := range nd.Weights() {
				w.Check(x == ps[i].w[j][k] || i == li && j == n && k == d, "wrong-perturbation", "moving weight %d of layer %d neuron %d changed weight %d of layer %d neuron %d from %v to %v", d, li, n, k, i, j, ps[i].w[j][k], x)
			}
			w.Check(nd.Bias() == ps[i].b[j], "wrong-perturbation", "moving a weight changed the bias of layer %d neuron %d", i, j)
		}
	}
	act := make([][]index_value.Pair, s.layers+1)
	act[0] = append(pairs(nil), g.ex.Features...)
	for i := range layers {
		layers[i].QueryActiveNodeAndComputeActivations(0, act, i, g.slot, g.ex.Labels, 1)
	}
	move(before - v)
	layers[li].GetNodeById(n).Weights()[d] = before
	norm := layers[s.layers-1].GetNomalizationConstant(g.slot)
	loss := 0.0
	for _, l := range g.ex.Labels {
		for _, p := range act[s.layers] {
			if p.Index == l {
				loss -= math.Log(p.Value / norm)
			}
		}
	}
	return loss / float64(len(g.ex.Labels)) / float64(s.batch), shape(act)
}
