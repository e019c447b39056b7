//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"sort"
	"time"

	goslide "github.com/nlpodyssey/goslide"
	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C10", propC10)
	register("C11", propC11)
	register("C12", propC12)
	register("C13", propC13)
	register("C14", propC14)
	register("C21", propC21)
	register("C22", propC22)
	register("C24", propC24)
}

var netDefaults = netOpts{maxLayers: 3, maxHidden: 10, maxOut: 16, minOut: 1, maxIn: 24, maxBatch: 4, minL: 3, modes: allModes, hashes: allHashes, wide: true}

// reseed gives every source of nondeterminism a known state, so that replicas
// can be compared.
func reseed(w *World, seed int64) {
	w.Rng = simrt.NewStream(seed)
	w.Clock.Set(simrt.ClockSteady, seed)
	w.SetEntropy(seed)
	w.SetMapOrder(seed)
}

var iterStarts = []int{0, 1, 5, 6940, 6944, 13886, 100000}

// C10: evaluating a model never changes what training does to it.
func propC10(w *World) {
	environment(w, false)
	if w.Chance(1, 3) {
		propC10Program(w)
		return
	}
	o := netDefaults
	steps := w.Int(1, 6)
	if w.Chance(1, 40) {
		// a layer so large that sampling leaves neurons out at random
		o.minOut, o.maxOut, o.maxBatch, o.maxIn, o.maxHidden = 1001, 1300, 2, 6, 4
		steps = min(steps, 3)
		w.Hit("randomly-topped-up-layer")
	}
	s := genNet(w, o)
	if w.Chance(1, 30) {
		s.batch = w.Int(10, 40)
		w.Hit("large-batch")
	}
	s.install()
	w.Logf("network %v", s)
	base := w.Seed()
	type step struct {
		iter            int
		batch           []dataset.Example
		rehash, rebuild bool
		evals           [][]dataset.Example
	}
	var plan []step
	it := iterStarts[w.Int(0, len(iterStarts)-1)]
	nevals := 0
	for i := 0; i <= steps; i++ {
		st := step{iter: it + i, rehash: w.Chance(1, 3), rebuild: w.Chance(1, 4)}
		r := w.Rand()
		for k := w.Int(0, s.batch); k > 0; k-- {
			st.batch = append(st.batch, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)}))
		}
		for k := w.Int(0, 2); k > 0; k-- {
			var b []dataset.Example
			for j := r.Intn(s.batch + 1); j > 0; j-- {
				b = append(b, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: 3}))
			}
			st.evals = append(st.evals, b)
			nevals++
		}
		plan = append(plan, st)
	}
	run := func(evaluate bool) []layerParams {
		reseed(w, base)
		net := s.build(0)
		for i, st := range plan {
			if evaluate {
				for _, b := range st.evals {
					reseed(w, base+1000+int64(i))
					keep := cloneBatch(b)
					w.Logf("step %d: evaluate %d records", i, len(b))
					_, net = net.PredictClass(0, b)
					w.Check(sameBatch(b, keep), "evaluation-alters-data", "evaluating changed the records it was given")
				}
			}
			if i == steps {
				break
			}
			reseed(w, base+int64(i)+1)
			w.Logf("step %d: train iteration %d on %d records rehash=%v rebuild=%v", i, st.iter, len(st.batch), st.rehash, st.rebuild)
			_, net = net.ProcessInput(0, cloneBatch(st.batch), st.iter, st.rehash, st.rebuild)
		}
		return snapshot(w, net, s.adam)
	}
	plain := run(false)
	with := run(true)
	if d := firstDiff(plain, with); d != "" {
		w.Fail("evaluation-changes-training", "after %d training steps the model differs when evaluations run in between (without and with): %s", steps, d)
	}
	observeParams(w, plain)
	w.NonTrivial = nevals > 0
}

// the same for the whole program: two runs that differ in how often they evaluate
func propC10Program(w *World) {
	o := pipeDefaults
	o.net.maxOut, o.net.maxBatch = 8, 3
	o.maxBatches, o.maxEpochs, o.long = 4, 2, false
	p := genPipe(w, o)
	base := w.Seed()
	evals := [2]int{}
	var final [2][]layerParams
	conf := string(p.conf)
	for variant := 0; variant < 2; variant++ {
		reseed(w, base)
		q := *p
		q.events = nil
		step := 1_000_000
		if variant == 1 {
			step = 1
		}
		q.conf = []byte(replaceNumber(conf, "Stepsize", step))
		var last *network.Network
		n := 0
		q.onStep = func(net *network.Network) {
			last = net
			n++
			reseed(w, base+int64(n))
		}
		q.onEval = func() { reseed(w, base-5) }
		q.run(nil)
		q.mustSucceed()
		if last == nil {
			return
		}
		for _, e := range q.events {
			if e.kind == 'E' {
				evals[variant]++
			}
		}
		final[variant] = snapshot(w, last, q.spec.adam)
	}
	if d := firstDiff(final[0], final[1]); d != "" {
		w.Fail("evaluation-changes-training", "the program trains another model when it evaluates after every step (%d and %d evaluation batches): %s", evals[0], evals[1], d)
	}
	w.Hit("whole-program-replica")
	w.NonTrivial = evals[1] > evals[0]
}

// C11: a prediction is the best-scoring active class, whatever the grouping.
func propC11(w *World) {
	environment(w, false)
	o := netDefaults
	o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1, configuration.LayerMode3}
	o.noDraws = true
	o.maxBatch = 5
	records := w.Int(1, 12)
	if w.Chance(1, 25) {
		o.maxLayers, o.maxHidden, o.maxOut, o.wide = 2, 6, 8, false
		records = w.Int(17, 300)
		w.Hit("large-evaluation-batch")
	}
	s := genNet(w, o)
	if records > 12 {
		s.batch = w.Int(10, records)
	}
	s.install()
	w.Logf("network %v", s)
	net := s.build(0)
	labels := s.sizes[s.layers-1]
	r := w.Rand()
	it := 0
	train := func(n int) {
		for ; n > 0; n-- {
			var b []dataset.Example
			for k := 0; k < s.batch; k++ {
				b = append(b, genExample(r, s.inputDim, labels, exOpts{maxLabels: min(2, s.maxLabels())}))
			}
			_, net = net.ProcessInput(0, b, it, r.Intn(2) == 0, r.Intn(3) == 0)
			it++
		}
	}
	train(w.Int(0, 5))
	var evalSet []dataset.Example
	for k := records; k > 0; k-- {
		evalSet = append(evalSet, genExample(r, s.inputDim, labels, exOpts{maxLabels: 3, dupLabels: true}))
	}
	if labels > 1 && w.Chance(1, 4) {
		// two output neurons almost alike
		last := layersOf(w, net)[s.layers-1]
		pick := r.Perm(labels)
		a, b := last.GetNodeById(pick[0]), last.GetNodeById(pick[1])
		copy(b.Weights(), a.Weights())
		d := r.Intn(len(b.Weights()))
		b.SetBias(0, a.GetBias())
		b.Weights()[d] += math.Copysign(simrt.Pick(w, 1e-9, 1e-7, 1e-10, 1e-5), r.Float64()-0.5)
		for i := range evalSet {
			if r.Intn(2) == 0 {
				evalSet[i].Labels = []int{pick[r.Intn(2)]}
			}
		}
		w.Hit("outputs-almost-alike")
	}
	if w.Chance(1, 4) {
		// evaluate after the tables have been emptied: nothing is retrieved
		for _, la := range layersOf(w, net) {
			la.ClearHashTables()
		}
		w.Hit("empty-tables")
	}
	type verdict struct{ correct, wrong bool } // with ties both may be legal
	var verdicts []verdict
	var outs []pairs
	onQuery(w, func(p probe) {
		if p.layerIndex == s.layers-1 {
			outs = append(outs, p.out)
		}
	})
	group := func(order []int, cuts func(left int) int) (int, []int) {
		total := 0
		var per []int
		for i := 0; i < len(order); {
			n := cuts(len(order) - i)
			var b []dataset.Example
			for _, j := range order[i : i+n] {
				b = append(b, cloneExample(evalSet[j]))
			}
			outs = nil
			var c int
			c, net = net.PredictClass(0, b)
			if len(outs) != n {
				w.Broken("%d forward passes of the output layer for %d examples", len(outs), n)
			}
			// each prediction by the definition
			lo, hi := 0, 0
			for k, j := range order[i : i+n] {
				v := judge(outs[k], evalSet[j].Labels)
				if v[0] {
					lo++
				}
				if v[1] {
					hi++
				}
				if len(outs[k]) == 0 {
					w.Hit("nothing-active")
				}
				verdicts = append(verdicts, verdict{v[0], !v[1]})
			}
			w.Check(c >= lo && c <= hi, "wrong-count", "%d of %d records counted as predicted correctly, want %d (to %d with ties); labels and active outputs:\n%s",
				c, n, lo, hi, showOuts(outs, order[i:i+n], evalSet))
			total += c
			per = append(per, c)
			i += n
		}
		return total, per
	}
	order := r.Perm(len(evalSet))
	for i := range order {
		order[i] = i
	}
	a, _ := group(order, func(left int) int { return 1 })
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	b, _ := group(order, func(left int) int { return min(left, 1+r.Intn(s.batch)) })
	ties := false
	for _, v := range verdicts {
		if !v.correct && !v.wrong {
			ties = true
		}
	}
	if !ties {
		w.Check(a == b, "grouping-matters", "%d records correct when evaluated one by one, %d in groups and another order", a, b)
	}
	w.Observe(a, b)
	w.NonTrivial = len(evalSet) > 1
}

// judge: must it count as correct, may it count as correct.
func judge(out pairs, labels []int) [2]bool {
	if len(out) == 0 {
		return [2]bool{false, false}
	}
	best := math.Inf(-1)
	for _, p := range out {
		if p.Value > best {
			best = p.Value
		}
	}
	must, may := true, false
	for _, p := range out {
		if p.Value == best {
			in := false
			for _, l := range labels {
				in = in || l == p.Index
			}
			must = must && in
			may = may || in
		}
	}
	return [2]bool{must, may}
}

func showOuts(outs []pairs, order []int, set []dataset.Example) string {
	s := ""
	for k, j := range order {
		o := outs[k]
		if len(o) > 8 {
			o = o[:8]
		}
		s += fmt.Sprintf("  record %d labels %v active(%d) %v\n", j, set[j].Labels, len(outs[k]), o)
	}
	return s
}

// ---------------------------------------------------------------- reference training

// grads are summed gradients with the sum of their absolute terms.
type grads struct {
	g, abs   [][]float64
	gb, absB []float64
}

func newGrads(p layerParams) grads {
	var g grads
	for _, x := range p.w {
		g.g = append(g.g, make([]float64, len(x)))
		g.abs = append(g.abs, make([]float64, len(x)))
	}
	g.gb, g.absB = make([]float64, len(p.b)), make([]float64, len(p.b))
	return g
}

// forwardRef computes one layer's outputs for an active set, by definition:
// rectified linear units, or a softmax over the active set.
func forwardRef(p layerParams, typ node.NodeType, in pairs, active []int) []float64 {
	z := make([]float64, len(active))
	m := math.Inf(-1)
	for i, n := range active {
		for _, x := range in {
			z[i] += p.w[n][x.Index] * x.Value
		}
		z[i] += p.b[n]
		m = math.Max(m, z[i])
	}
	if typ == node.ReLU {
		for i := range z {
			z[i] = math.Max(0, z[i])
		}
		return z
	}
	sum := 0.0
	for i := range z {
		z[i] = math.Exp(z[i] - m)
		sum += z[i]
	}
	for i := range z {
		z[i] /= sum
	}
	return z
}

// backRef adds one example's gradients of the softmax cross-entropy, scaled by
// the batch size; active[i] is the active set of layer i.
func backRef(s netSpec, ps []layerParams, gs []grads, ex dataset.Example, active [][]int) {
	acts := []pairs{ex.Features}
	for i := range ps {
		v := forwardRef(ps[i], s.types[i], acts[i], active[i])
		var out pairs
		for k, n := range active[i] {
			out = append(out, index_value.Pair{Index: n, Value: v[k]})
		}
		acts = append(acts, out)
	}
	last := len(ps) - 1
	delta := map[int]float64{}
	dabs := map[int]float64{}
	isLabel := map[int]bool{}
	for _, l := range ex.Labels {
		isLabel[l] = true
	}
	for _, p := range acts[last+1] {
		y := 0.0
		if isLabel[p.Index] {
			y = 1 / float64(len(isLabel))
		}
		delta[p.Index] = (y - p.Value) / float64(s.batch)
		dabs[p.Index] = (y + p.Value) / float64(s.batch)
	}
	for li := last; li >= 0; li-- {
		pd, pa := map[int]float64{}, map[int]float64{}
		for _, n := range active[li] {
			for _, x := range acts[li] {
				gs[li].g[n][x.Index] += delta[n] * x.Value
				gs[li].abs[n][x.Index] += math.Abs(dabs[n] * x.Value)
				if li > 0 && x.Value > 0 {
					pd[x.Index] += delta[n] * ps[li].w[n][x.Index]
					pa[x.Index] += math.Abs(dabs[n] * ps[li].w[n][x.Index])
				}
			}
			gs[li].gb[n] += delta[n]
			gs[li].absB[n] += math.Abs(dabs[n])
		}
		delta, dabs = pd, pa
	}
}

func cloneParams(ps []layerParams) []layerParams {
	var out []layerParams
	for _, p := range ps {
		q := p
		q.w = nil
		for _, x := range p.w {
			q.w = append(q.w, append([]float64(nil), x...))
		}
		q.b = append([]float64(nil), p.b...)
		out = append(out, q)
	}
	return out
}

// checkSGD compares with plain gradient steps; online: the weights move after
// every example, otherwise after the batch.
func checkSGD(s netSpec, pre, post []layerParams, batch []dataset.Example, active [][][]int, online bool) string {
	ps := cloneParams(pre)
	tol := make([]grads, len(ps))
	sum := make([]grads, len(ps))
	for i := range ps {
		tol[i], sum[i] = newGrads(ps[i]), newGrads(ps[i])
	}
	for e, ex := range batch {
		gs := make([]grads, len(ps))
		for i := range ps {
			gs[i] = newGrads(ps[i])
		}
		backRef(s, ps, gs, ex, active[e])
		for i := range gs {
			for n := range gs[i].g {
				for d := range gs[i].g[n] {
					sum[i].g[n][d] += gs[i].g[n][d]
					tol[i].abs[n][d] += gs[i].abs[n][d]
					if online {
						ps[i].w[n][d] += s.lr * gs[i].g[n][d]
					}
				}
				sum[i].gb[n] += gs[i].gb[n]
				tol[i].absB[n] += gs[i].absB[n]
			}
		}
	}
	for i := range ps {
		for n := range ps[i].w {
			for d := range ps[i].w[n] {
				want := pre[i].w[n][d] + s.lr*sum[i].g[n][d]
				if !close2(post[i].w[n][d], want, s.lr*1e-5*tol[i].abs[n][d]+1e-14*math.Abs(want)+1e-300) {
					return fmt.Sprintf("layer %d neuron %d weight %d: was %v, became %v, want %v (gradient %v)", i, n, d, pre[i].w[n][d], post[i].w[n][d], want, sum[i].g[n][d])
				}
			}
			want := pre[i].b[n] + s.lr*sum[i].gb[n]
			if !close2(post[i].b[n], want, s.lr*1e-5*tol[i].absB[n]+1e-14*math.Abs(want)+1e-300) {
				return fmt.Sprintf("layer %d neuron %d bias: was %v, became %v, want %v (gradient %v)", i, n, pre[i].b[n], post[i].b[n], want, sum[i].gb[n])
			}
		}
	}
	return ""
}

// checkAdam compares with Adam (Kingma and Ba): beta1 0.9, beta2 0.999,
// epsilon 1e-8, bias-corrected step size for step number iter+1.
func checkAdam(s netSpec, pre, post []layerParams, batch []dataset.Example, active [][][]int, iter int) string {
	gs := make([]grads, len(pre))
	for i := range pre {
		gs[i] = newGrads(pre[i])
	}
	for e, ex := range batch {
		backRef(s, pre, gs, ex, active[e])
	}
	t := float64(iter) + 1
	lr := s.lr * math.Sqrt(1-math.Pow(0.999, t)) / (1 - math.Pow(0.9, t))
	one := func(what string, g, abs, m0, v0, m1, v1, x0, x1 float64) string {
		wantM := 0.9*m0 + 0.1*g
		wantV := 0.999*v0 + 0.001*g*g
		if !close2(m1, wantM, 1e-6*abs+1e-12*math.Abs(m0)) {
			return fmt.Sprintf("%s: first moment %v, want %v (gradient %v)", what, m1, wantM, g)
		}
		if !close2(v1, wantV, 0.001*3e-5*abs*abs+1e-12*v0) {
			return fmt.Sprintf("%s: second moment %v, want %v (gradient %v)", what, v1, wantV, g)
		}
		step := lr * m1 / (math.Sqrt(v1) + 1e-8)
		if !close2(x1, x0+step, 1e-7*math.Abs(step)+1e-14*math.Abs(x0)) {
			return fmt.Sprintf("%s: was %v, became %v, want %v (learning rate %v, moments %v %v)", what, x0, x1, x0+step, lr, m1, v1)
		}
		return ""
	}
	for i := range pre {
		for n := range pre[i].w {
			for d := range pre[i].w[n] {
				if e := one(fmt.Sprintf("layer %d neuron %d weight %d", i, n, d), gs[i].g[n][d], gs[i].abs[n][d],
					pre[i].mom[n][d], pre[i].vel[n][d], post[i].mom[n][d], post[i].vel[n][d], pre[i].w[n][d], post[i].w[n][d]); e != "" {
					return e
				}
			}
			if e := one(fmt.Sprintf("layer %d neuron %d bias", i, n), gs[i].gb[n], gs[i].absB[n],
				pre[i].momB[n], pre[i].velB[n], post[i].momB[n], post[i].velB[n], pre[i].b[n], post[i].b[n]); e != "" {
				return e
			}
		}
	}
	return ""
}

// C12: a training step does what the optimizer is defined to do.
func propC12(w *World) {
	environment(w, true)
	o := netDefaults
	o.maxOut, o.maxHidden = 12, 8
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	net := s.build(0)
	iter := iterStarts[w.Int(0, len(iterStarts)-1)]
	steps := w.Int(1, 6)
	var sets [][]int
	var examples [][][]int
	onQuery(w, func(p probe) {
		if p.layerIndex == 0 {
			sets = nil
		}
		var idx []int
		for _, x := range p.out {
			idx = append(idx, x.Index)
		}
		sets = append(sets, idx)
		if p.layerIndex == s.layers-1 {
			examples = append(examples, sets)
		}
	})
	r := w.Rand()
	for i := 0; i < steps; i++ {
		n := w.Int(0, s.batch)
		if n == 0 {
			w.Hit("empty-batch")
		}
		rehash, rebuild := w.Chance(1, 3), w.Chance(1, 4)
		var batch []dataset.Example
		for k := 0; k < n; k++ {
			batch = append(batch, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)}))
		}
		if w.Chance(1, 4) {
			// an evaluation in between leaves its traces in the input slots
			var ev []dataset.Example
			for k := 0; k < s.batch; k++ {
				ev = append(ev, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: 2}))
			}
			_, net = net.PredictClass(0, ev)
			w.Hit("evaluation-between-steps")
		}
		pre := snapshot(w, net, s.adam)
		keep := cloneBatch(batch)
		examples = nil
		w.Logf("iteration %d: %d records, rehash=%v rebuild=%v", iter, n, rehash, rebuild)
		_, net = net.ProcessInput(0, batch, iter, rehash, rebuild)
		if len(examples) != n {
			w.Broken("%d forward passes for %d examples", len(examples), n)
		}
		w.Check(sameBatch(keep, batch), "training-alters-data", "the training step changed the records it was given")
		post := snapshot(w, net, s.adam)
		observeParams(w, post)
		var e string
		if s.adam {
			e = checkAdam(s, pre, post, keep, examples, iter)
		} else {
			e = checkSGD(s, pre, post, keep, examples, true)
			if e != "" && checkSGD(s, pre, post, keep, examples, false) == "" {
				e = ""
			}
		}
		w.Check(e == "", "wrong-update", "iteration %d with %d records: %s", iter, n, e)
		iter++
		w.NonTrivial = w.NonTrivial || n > 0
	}
}

func checkForward(w *World, p probe, typ node.NodeType) {
	ps := snapshotLayer(p.la, false)
	var idx []int
	for _, x := range p.out {
		idx = append(idx, x.Index)
	}
	want := forwardRef(ps, typ, p.in, idx)
	norm := 1.0
	if typ == node.Softmax {
		norm = p.la.GetNomalizationConstant(p.slot)
		sum := 0.0
		for _, x := range p.out {
			sum += x.Value
		}
		w.Check(close2(norm, sum, 1e-9*math.Abs(sum)), "wrong-normalization", "layer %d slot %d: the normalization constant is %v, the outputs sum to %v", p.layerIndex, p.slot, norm, sum)
	}
	for i, x := range p.out {
		scale := 0.0
		for _, q := range p.in {
			scale += math.Abs(ps.w[x.Index][q.Index] * q.Value)
		}
		scale += math.Abs(ps.b[x.Index])
		got := x.Value
		tol := 1e-10 * scale
		if typ == node.Softmax {
			got /= norm
			for _, y := range p.out {
				m := math.Abs(ps.b[y.Index])
				for _, q := range p.in {
					m += math.Abs(ps.w[y.Index][q.Index] * q.Value)
				}
				scale = math.Max(scale, m)
			}
			tol = want[i]*(1e-8+1e-9*scale) + 1e-250
		}
		w.Check(close2(got, want[i], tol), "wrong-activation", "layer %d slot %d neuron %d: output %v, want %v (input %d pairs, active %d)", p.layerIndex, p.slot, x.Index, got, want[i], len(p.in), len(p.out))
		last := p.la.GetNodeById(x.Index).GetLastActivation(p.slot)
		w.Check(close2(last, x.Value, 1e-12*math.Abs(x.Value)), "activation-not-kept", "layer %d slot %d neuron %d: output %v but the activation kept for the slot is %v", p.layerIndex, p.slot, x.Index, x.Value, last)
		w.Observe(x.Value)
	}
}

// C13: the forward pass computes what it is defined to compute, slot by slot.
func propC13(w *World) {
	environment(w, true)
	o := netDefaults
	o.maxBatch = 5
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	var layers []*layer.Layer
	for i := 0; i < s.layers; i++ {
		layers = append(layers, s.buildLayer(0, i))
	}
	scale := 1.0
	if w.Chance(1, 8) || s.sizes[s.layers-1] > 60 && w.Chance(1, 2) {
		scale = simrt.Pick(w, 1e5, 1e4, 1e-6, 300)
		w.Hit("inputs-of-another-magnitude")
	}
	w.Schedule(false)
	type kept struct {
		li, slot int
		out      pairs
		norm     float64
	}
	latest := map[[2]int]kept{}
	grp := newGroup(w)
	rounds := w.Int(1, 3)
	for slot := 0; slot < s.batch; slot++ {
		slot := slot
		r := w.Rand()
		grp.Go(fmt.Sprintf("slot-%d", slot), func() {
			for k := 0; k < rounds; k++ {
				ex := genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)})
				if r.Intn(3) == 0 {
					ex.Labels = nil
				}
				for i := range ex.Features {
					ex.Features[i].Value *= scale
				}
				act := make([][]index_value.Pair, s.layers+1)
				act[0] = ex.Features
				keep := cloneExample(ex)
				for li := range layers {
					w.Point()
					in := append(pairs(nil), act[li]...)
					_, nl := layers[li].QueryActiveNodeAndComputeActivations(0, act, li, slot, ex.Labels, s.sparsity[li])
					p := probe{la: nl, layerIndex: li, slot: slot, in: in, out: append(pairs(nil), act[li+1]...)}
					w.Logf("slot %d layer %d: %d inputs, %d active", slot, li, len(in), len(p.out))
					checkForward(w, p, s.types[li])
					kp := kept{li: li, slot: slot, out: p.out}
					if s.types[li] == node.Softmax {
						kp.norm = nl.GetNomalizationConstant(slot)
					}
					latest[[2]int{li, slot}] = kp
				}
				w.Check(sameExample(ex, keep), "input-altered", "the forward pass changed its input")
				if len(act[s.layers]) > 0 {
					w.NonTrivial = s.batch > 1
				}
			}
		})
	}
	grp.Wait()
	for li := 0; li < s.layers; li++ {
		for slot := 0; slot < s.batch; slot++ {
			kp := latest[[2]int{li, slot}]
			for _, x := range kp.out {
				last := layers[li].GetNodeById(x.Index).GetLastActivation(slot)
				w.Check(close2(last, x.Value, 1e-12*math.Abs(x.Value)), "slot-disturbed", "layer %d slot %d neuron %d: activation was %v, other slots' work made it %v", li, slot, x.Index, x.Value, last)
			}
			if s.types[li] == node.Softmax {
				got := layers[li].GetNomalizationConstant(slot)
				w.Check(got == kp.norm, "slot-disturbed", "slot %d: the normalization constant was %v and is now %v", slot, kp.norm, got)
			}
		}
	}
}

// backward runs one slot forward and backward through exported operations.
func slotPass(w *World, s netSpec, layers []*layer.Layer, ex dataset.Example, slot int) {
	act := make([][]index_value.Pair, s.layers+1)
	act[0] = ex.Features
	for li := range layers {
		w.Point()
		layers[li].QueryActiveNodeAndComputeActivations(0, act, li, slot, ex.Labels, s.sparsity[li])
	}
	for li := s.layers - 1; li >= 0; li-- {
		for _, p := range act[li+1] {
			w.Point()
			nd := layers[li].GetNodeById(p.Index)
			if li == s.layers-1 {
				nd.ComputeExtaStatsForSoftMax(0, layers[li].GetNomalizationConstant(slot), slot, ex.Labels)
				w.Point()
			}
			if li > 0 {
				all := layers[li-1].GetAllNodes()
				nd.BackPropagate(0, &all, act[li], s.lr, slot)
			} else {
				nd.BackPropagateFirstLayer(0, ex.Features, s.lr, slot)
			}
		}
	}
}

// C14: accumulated gradients do not depend on how the slots' work interleaves.
func propC14(w *World) {
	environment(w, false)
	o := netDefaults
	o.adam = 1
	o.maxBatch = 5
	o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1, configuration.LayerMode3}
	o.noDraws = true
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	base := w.Seed()
	build := func() []*layer.Layer {
		reseed(w, base)
		var out []*layer.Layer
		for i := 0; i < s.layers; i++ {
			out = append(out, s.buildLayer(0, i))
		}
		return out
	}
	r := w.Rand()
	rounds := w.Int(1, 3)
	var work [][]dataset.Example
	for slot := 0; slot < s.batch; slot++ {
		var e []dataset.Example
		for k := 0; k < rounds; k++ {
			e = append(e, genExample(r, s.inputDim, s.sizes[s.layers-1], exOpts{maxLabels: s.labelCount(r)}))
		}
		work = append(work, e)
	}
	seq := build()
	for slot := range work {
		for _, ex := range work[slot] {
			slotPass(w, s, seq, cloneExample(ex), slot)
		}
	}
	con := build()
	w.Schedule(false)
	grp := newGroup(w)
	for slot := range work {
		slot := slot
		grp.Go(fmt.Sprintf("slot-%d", slot), func() {
			for _, ex := range work[slot] {
				slotPass(w, s, con, cloneExample(ex), slot)
			}
		})
	}
	grp.Wait()
	// each record on its own, in a network that has not seen anything else
	alone := make([]grads, s.layers)
	for li := range seq {
		alone[li] = newGrads(snapshotLayer(seq[li], false))
	}
	for slot := range work {
		for _, ex := range work[slot] {
			one := build()
			slotPass(w, s, one, cloneExample(ex), slot)
			for li := range one {
				for n := 0; n < one[li].NumOfNodes(); n++ {
					a := one[li].GetNodeById(n)
					for d := 0; d < a.AdamTDim(); d++ {
						alone[li].g[n][d] += a.GetT(d)
					}
					alone[li].gb[n] += a.GetTBias()
				}
			}
		}
	}
	var biggest float64
	for li := range seq {
		for n := 0; n < seq[li].NumOfNodes(); n++ {
			for slot := range work {
				x := con[li].GetNodeById(n).GetLastActivation(slot)
				w.Check(x == 0, "slot-not-clean", "layer %d neuron %d keeps activation %v of slot %d after its backward pass", li, n, x, slot)
			}
			a := seq[li].GetNodeById(n)
			for d := 0; d < a.AdamTDim(); d++ {
				biggest = math.Max(biggest, math.Abs(a.GetT(d)))
			}
			biggest = math.Max(biggest, math.Abs(a.GetTBias()))
		}
	}
	for li := range seq {
		for n := 0; n < seq[li].NumOfNodes(); n++ {
			a, b := seq[li].GetNodeById(n), con[li].GetNodeById(n)
			for d := 0; d < a.AdamTDim(); d++ {
				w.Check(close2(a.GetT(d), b.GetT(d), 1e-11*biggest), "interleaving-matters", "layer %d neuron %d weight %d: accumulated %v one slot after the other, %v interleaved", li, n, d, a.GetT(d), b.GetT(d))
				w.Check(close2(alone[li].g[n][d], b.GetT(d), 1e-11*biggest), "records-interfere", "layer %d neuron %d weight %d: accumulated %v, each record alone adds up to %v", li, n, d, b.GetT(d), alone[li].g[n][d])
				w.Observe(b.GetT(d))
			}
			w.Check(close2(alone[li].gb[n], b.GetTBias(), 1e-11*biggest), "records-interfere", "layer %d neuron %d bias: accumulated %v, each record alone adds up to %v", li, n, b.GetTBias(), alone[li].gb[n])
			w.Check(close2(a.GetTBias(), b.GetTBias(), 1e-11*biggest), "interleaving-matters", "layer %d neuron %d bias: accumulated %v one slot after the other, %v interleaved", li, n, a.GetTBias(), b.GetTBias())
		}
	}
	w.NonTrivial = s.batch > 1 && biggest > 0
}

// lifeOf runs a drawn history of training and evaluation and returns what came
// out; the same plan always makes the same calls.
type life struct {
	s     netSpec
	steps []lifeStep
}
type lifeStep struct {
	batch           []dataset.Example
	iter            int
	rehash, rebuild bool
	eval            bool
}

func genLife(w *World, o netOpts, maxSteps int) life {
	l := life{s: genNet(w, o)}
	r := w.Rand()
	it := iterStarts[w.Int(0, len(iterStarts)-1)]
	for k := w.Int(1, maxSteps); k > 0; k-- {
		st := lifeStep{iter: it, rehash: w.Chance(1, 3), rebuild: w.Chance(1, 3), eval: w.Chance(1, 3)}
		for j := w.Int(1, l.s.batch); j > 0; j-- {
			st.batch = append(st.batch, genExample(r, l.s.inputDim, l.s.sizes[l.s.layers-1], exOpts{maxLabels: l.s.labelCount(r)}))
		}
		l.steps = append(l.steps, st)
		it++
	}
	return l
}

func (l life) run(w *World) (ps []layerParams, counts []int, sets [][]int) {
	l.s.install()
	onQuery(w, func(p probe) {
		var idx []int
		for _, x := range p.out {
			idx = append(idx, x.Index)
		}
		sort.Ints(idx)
		sets = append(sets, idx)
	})
	net := l.s.build(0)
	for _, st := range l.steps {
		if st.eval {
			var c int
			c, net = net.PredictClass(0, cloneBatch(st.batch))
			counts = append(counts, c)
		} else {
			_, net = net.ProcessInput(0, cloneBatch(st.batch), st.iter, st.rehash, st.rebuild)
		}
	}
	return snapshot(w, net, l.s.adam), counts, sets
}

// C21: the outcome does not depend on map iteration order or the clock.
func propC21(w *World) {
	environment(w, false)
	o := netDefaults
	o.modes = []configuration.LayerModeType{configuration.LayerMode1, configuration.LayerMode4, configuration.LayerMode2, configuration.LayerMode3}
	o.minL = 4
	steps := 6
	if w.Chance(1, 40) {
		// more neurons than the sampling mode tops an active set up to
		o.maxLayers, o.minOut, o.maxOut, o.maxHidden, o.maxIn, o.maxBatch, o.wide = 2, 1001, 1500, 4, 8, 2, false
		o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1}
		steps = 2
		w.Hit("over-1000-neurons")
	}
	l := genLife(w, o, steps)
	w.Logf("network %v, %d steps", l.s, len(l.steps))
	base := w.Seed()
	reseed(w, base)
	pa, ca, sa := l.run(w)
	for k := 0; k < 2; k++ {
		reseed(w, base)
		w.SetMapOrder(base + 17 + int64(k))
		w.Fault("map-iteration-order-changed")
		if mode := simrt.Pick(w, simrt.ClockSteady, simrt.ClockFrozen, simrt.ClockJumpy); k == 1 || mode != simrt.ClockSteady {
			w.Clock.Set(mode, base+29)
			w.Clock.Shift(time.Duration(w.Draw(1 << 55))) // up to a year later
			w.Fault("clock-changed")
		}
		pb, cb, sb := l.run(w)
		for i := range sa {
			w.Check(i < len(sb) && equalInts(sa[i], sb[i]), "surroundings-matter", "forward pass %d activates %v under one map order and clock and %v under another", i, sa[i], sb[min(i, len(sb)-1)])
		}
		w.Check(equalInts(ca, cb), "surroundings-matter", "correct predictions %v under one map order and clock and %v under another", ca, cb)
		if d := firstDiff(pa, pb); d != "" {
			w.Fail("surroundings-matter", "the trained model depends on map iteration order or the clock: %s", d)
		}
	}
	observeParams(w, pa)
	w.NonTrivial = len(l.steps) > 1
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C24: evaluations with distinct owner ids on a shared network are isolated.
func propC24(w *World) {
	environment(w, false)
	o := netDefaults
	o.modes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1, configuration.LayerMode3}
	o.noDraws = true
	o.maxLayers = 2
	s := genNet(w, o)
	s.install()
	w.Logf("network %v", s)
	net := s.build(0)
	labels := s.sizes[s.layers-1]
	r := w.Rand()
	for k := w.Int(0, 3); k > 0; k-- {
		var b []dataset.Example
		for j := 0; j < s.batch; j++ {
			b = append(b, genExample(r, s.inputDim, labels, exOpts{maxLabels: min(2, s.maxLabels())}))
		}
		_, net = net.ProcessInput(0, b, k, r.Intn(2) == 0, false)
	}
	shared := w.Chance(1, 2) // start from the owner's slots in use
	if shared {
		var b []dataset.Example
		for j := 0; j < s.batch; j++ {
			b = append(b, genExample(r, s.inputDim, labels, exOpts{}))
		}
		net.PredictClass(0, b)
	}
	state := func() ([]layerParams, []float64) {
		var acts []float64
		for _, la := range layersOf(w, net) {
			for i := 0; i < la.NumOfNodes(); i++ {
				for slot := 0; slot < s.batch; slot++ {
					acts = append(acts, la.GetNodeById(i).GetLastActivation(slot))
				}
			}
		}
		for slot := 0; slot < s.batch; slot++ {
			acts = append(acts, layersOf(w, net)[s.layers-1].GetNomalizationConstant(slot))
		}
		return snapshot(w, net, s.adam), acts
	}
	beforeP, beforeA := state()
	readers := w.Int(1, 4)
	var work [][][]dataset.Example
	var want [][]int
	ident := func(e dataset.Example) string { return fmt.Sprint(e) }
	outsWant := map[string]pairs{}
	var recording func(p probe)
	onQuery(w, func(p probe) {
		if recording != nil {
			recording(p)
		}
	})
	for k := 0; k < readers; k++ {
		var batches [][]dataset.Example
		var counts []int
		n := net
		for j := 1 + r.Intn(2); j > 0; j-- {
			var b []dataset.Example
			for m := 1 + r.Intn(s.batch); m > 0; m-- {
				b = append(b, genExample(r, s.inputDim, labels, exOpts{maxLabels: 3}))
			}
			i := 0
			recording = func(p probe) {
				if p.layerIndex == s.layers-1 {
					outsWant[fmt.Sprint(k, len(batches), i)+ident(b[i])] = p.out
					i++
				}
			}
			var c int
			c, n = n.PredictClass(100+k, cloneBatch(b))
			batches = append(batches, b)
			counts = append(counts, c)
		}
		work = append(work, batches)
		want = append(want, counts)
	}
	recording = nil
	w.OnCall("layer.Layer.QueryActiveNodeAndComputeActivations", nil)
	check := func(when string) {
		p, a := state()
		if d := firstDiff(beforeP, p); d != "" {
			w.Fail("shared-network-changed", "%s: evaluations under other owner ids changed the shared network: %s", when, d)
		}
		for i := range a {
			w.Check(math.Float64bits(a[i]) == math.Float64bits(beforeA[i]), "shared-network-changed", "%s: evaluations under other owner ids changed the owner's activations: %v became %v", when, beforeA[i], a[i])
		}
	}
	check("one after the other")
	w.Schedule(true)
	grp := newGroup(w)
	for k := range work {
		k := k
		grp.Go(fmt.Sprintf("evaluator-%d", k), func() {
			n := net
			for j, b := range work[k] {
				var c int
				c, n = n.PredictClass(200+k, cloneBatch(b))
				w.Logf("evaluator %d batch %d: %d correct", k, j, c)
				w.Check(c == want[k][j], "evaluations-interfere", "evaluator %d batch %d: %d correct predictions alone, %d with %d evaluators at once", k, j, want[k][j], c, readers)
				w.Observe(c)
			}
		})
	}
	grp.Wait()
	check("concurrently")
	w.NonTrivial = readers > 1
}

// C22: independence of random draws does not rest on the clock.
func propC22(w *World) {
	seed := w.Seed()
	w.Clock.Set(simrt.Pick(w, simrt.ClockFrozen, simrt.ClockJumpy, simrt.ClockSteady), w.Seed())
	if w.Clock.Mode == simrt.ClockFrozen {
		w.Fault("clock-frozen")
	}
	w.SetEntropy(w.Seed())
	w.Rng = simrt.NewStream(seed)
	s := netSpec{layers: 3, batch: 1, lr: 0.01, adam: w.Chance(1, 2)}
	s.hash = allHashes[w.Int(0, len(allHashes)-1)]
	s.mode = configuration.LayerMode1
	s.inputDim = 64
	n := simrt.Pick(w, 64, 48, 100)
	s.inputDim = n
	s.sizes = []int{n, n, n}
	s.types = []node.NodeType{node.ReLU, node.ReLU, node.Softmax}
	k, l := 2, w.Int(3, 5)
	rp := tableSize(s.hash, k, n)
	if s.hash == configuration.DensifiedMinhashFunction {
		rp = 4
	}
	for i := 0; i < 3; i++ {
		s.k, s.l, s.rangePow = append(s.k, k), append(s.l, l), append(s.rangePow, rp)
		s.sparsity = append(s.sparsity, 1)
	}
	s.sparsity = append(s.sparsity, 1, 1, 1)
	s.install()
	w.Logf("network %v clock mode %d", s, w.Clock.Mode)
	var layers []*layer.Layer
	for i := 0; i < 3; i++ {
		layers = append(layers, s.buildLayer(0, i))
	}
	// weights: no layer repeats another's draws (a few equal values are chance)
	seen := map[uint64]string{}
	repeats, first := 0, ""
	for i, la := range layers {
		p := snapshotLayer(la, false)
		for j := range p.w {
			for d, x := range p.w[j] {
				at := fmt.Sprintf("layer %d neuron %d weight %d", i, j, d)
				if prev, dup := seen[math.Float64bits(x)]; dup && x != 0 {
					repeats++
					if first == "" {
						first = fmt.Sprintf("%s and %s are both %v", prev, at, x)
					}
				}
				seen[math.Float64bits(x)] = at
			}
		}
	}
	w.Check(repeats < 30, "repeated-draws", "%d initial weights of equally shaped layers repeat others: %s, ...", repeats, first)
	// hash functions: equally shaped layers hash differently
	probe := mrand.New(mrand.NewSource(seed))
	vecs := make([][]float64, 16)
	for i := range vecs {
		vecs[i] = make([]float64, n)
		for j := range vecs[i] {
			vecs[i][j] = probe.NormFloat64()
		}
	}
	codes := func(la *layer.Layer) string {
		s := ""
		for _, v := range vecs {
			s += fmt.Sprint(la.GetHashForInputProcessing(append([]float64(nil), v...)))
		}
		return s
	}
	h := []string{codes(layers[0]), codes(layers[1]), codes(layers[2])}
	w.Check(h[0] != h[1] && h[1] != h[2] && h[0] != h[2], "repeated-hash-functions", "equally shaped layers built one after the other have the same hash functions")
	// rebuilding draws new functions
	old := h[0]
	nl := layers[0].UpdateTable(0)
	w.Check(codes(nl) != old, "rebuild-repeats", "rebuilding drew the same hash functions again")
	w.Check(codes(nl.UpdateTable(0)) != codes(layers[1].UpdateTable(0)), "rebuild-repeats", "two rebuilds drew the same hash functions")
	w.Observe(h[0])
	w.NonTrivial = true
}

var _ = goslide.Main
