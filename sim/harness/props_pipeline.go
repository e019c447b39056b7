//go:build go1.22

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	goslide "github.com/nlpodyssey/goslide"
	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() {
	register("C06", propC06)
	register("C07", propC07)
	register("C08", propC08)
	register("C09", propC09)
	register("C26", propC26)
}

// event is one call the training program makes.
type event struct {
	kind     byte // 'T' a training step, 'E' an evaluation batch
	batch    []dataset.Example
	iter     int
	rehash   bool
	rebuild  bool
	correct  int
	returned bool
}

// pipe is one simulated run of the whole program.
type pipe struct {
	w           *World
	spec        netSpec
	epochs      int
	numBatches  int
	testBatches int
	stepsize    int
	rehash      int
	rebuild     int
	train, test *doc
	conf        []byte
	cpu, mem    bool
	events      []event
	trainOpens  int
	done        bool // main returned
	panicMsg    string
	model       *network.Network           // what the last training step or evaluation returned
	onStep      func(net *network.Network) // before every training step
	onEval      func()                     // before every evaluation batch
	spend       func(kind byte)            // while a training step, an evaluation batch or a construction takes place
}

func replaceNumber(conf, key string, v int) string {
	return regexp.MustCompile(`"`+key+`":\d+`).ReplaceAllString(conf, fmt.Sprintf(`"%s":%d`, key, v))
}

type pipeOpts struct {
	net        netOpts
	maxBatches int
	maxEpochs  int
	shortFiles bool // files may hold fewer or more records than configured
	long       bool // some runs are much longer than usual
}

var pipeDefaults = pipeOpts{
	net: netOpts{maxLayers: 3, maxHidden: 8, maxOut: 12, minOut: 2, maxIn: 20, maxBatch: 4, minL: 3,
		modes: allModes, hashes: allHashes, wide: true},
	maxBatches: 6, maxEpochs: 3, shortFiles: true, long: true,
}

func genPipe(w *World, o pipeOpts) *pipe {
	p := &pipe{w: w}
	p.spec = genNet(w, o.net)
	s := &p.spec
	p.epochs = w.Int(1, o.maxEpochs)
	p.numBatches = w.Int(1, o.maxBatches)
	p.testBatches = w.Int(1, o.maxBatches)
	p.stepsize = simrt.Pick(w, 1000, 2, 1, 3, 4, 5, 7)
	if o.long && w.Chance(1, 24) {
		p.lengthen()
	}
	p.rehash = simrt.Pick(w, 1, 2, 3, 5, 7) * s.batch
	p.rebuild = simrt.Pick(w, 3, 1, 2, 4, 1000) * s.batch
	if w.Chance(1, 4) {
		p.rehash += w.Int(0, s.batch-1)
		p.rebuild += w.Int(0, s.batch-1)
	}
	if w.Chance(1, 8) {
		p.rehash = w.Int(1, max(1, s.batch-1))
		w.Hit("rehash-period-below-batch-size")
	}
	if w.Chance(1, 8) {
		p.rebuild = w.Int(1, max(1, s.batch-1))
		w.Hit("rebuild-period-below-batch-size")
	}
	labels := s.sizes[s.layers-1]
	d := docOpts{features: s.inputDim, labels: labels, maxPerRec: 8, value: netValue, distinctLabels: true, dupLabels: true, maxLabelsPerRec: s.maxLabels()}
	gen := func(batches int) *doc {
		n := batches * s.batch
		if o.shortFiles && w.Chance(1, 4) {
			n = w.Int(0, n+3)
			w.Hit("file-length-differs-from-configuration")
		}
		d.fixedRecs = n
		if n == 0 {
			d.fixedRecs = -1
		}
		return genDoc(w, d)
	}
	p.train, p.test = gen(p.numBatches), gen(p.testBatches)
	genFormat(w, p.train)
	genFormat(w, p.test)
	p.cpu, p.mem = w.Chance(1, 4), w.Chance(1, 4)
	p.encode()
	w.Logf("pipeline %v epochs=%d batches=%d test=%d stepsize=%d rehash=%d rebuild=%d; files hold %d and %d records",
		s, p.epochs, p.numBatches, p.testBatches, p.stepsize, p.rehash, p.rebuild, len(p.train.recs), len(p.test.recs))
	return p
}

// lengthen makes one dimension of the run much larger than usual.
func (p *pipe) lengthen() {
	w, s := p.w, &p.spec
	w.Hit("long-run")
	switch w.Int(0, 5) {
	case 0:
		p.testBatches = w.Int(21, 130)
		p.stepsize = simrt.Pick(w, 1000, 3, 5)
	case 1:
		p.numBatches = w.Int(20, 90)
		p.stepsize = simrt.Pick(w, 1000, 9, 16, 25, 33, 1)
	case 2:
		p.epochs = w.Int(4, 14)
	case 3:
		p.numBatches, p.testBatches = min(p.numBatches, 3), min(p.testBatches, 3)
		s.batch = w.Int(10, 60)
	case 4:
		p.epochs, p.numBatches = w.Int(3, 6), w.Int(12, 30)
		p.stepsize = w.Int(8, 40)
	case 5:
		if !w.Chance(1, 5) {
			p.epochs = w.Int(4, 8)
			break
		}
		// past the iteration at which the random nodes are reshuffled
		s.layers, s.inputDim, s.batch = w.Int(1, 2), 4, 1
		s.types, s.sizes, s.k, s.l, s.rangePow, s.sparsity = nil, nil, nil, nil, nil, nil
		dim := s.inputDim
		for i := 0; i < s.layers; i++ {
			s.types, s.sizes = append(s.types, node.ReLU), append(s.sizes, w.Int(3, 4))
			s.k, s.l, s.rangePow = append(s.k, 1), append(s.l, 3), append(s.rangePow, tableSize(s.hash, 1, dim))
			s.sparsity = append(s.sparsity, 1, 1)
			dim = s.sizes[i]
		}
		s.types[s.layers-1] = node.Softmax
		if w.Chance(1, 2) {
			s.sparsity[s.layers-1] = 0.7
		}
		p.epochs, p.numBatches, p.testBatches, p.stepsize = 2, w.Int(3500, 3700), 2, w.Int(500, 4000)
		if w.Chance(1, 3) {
			p.epochs, p.numBatches = 1, w.Int(6950, 8500)
		}
		w.Hit("run-past-iteration-6946")
	}
}

// numberOfHash and numberOfMode are what configuration files call the hash
// functions and modes, whatever the constants are.
func numberOfHash(h configuration.HashFunctionType) int {
	switch h {
	case configuration.WtaHashFunction:
		return 1
	case configuration.DensifiedWtaHashFunction:
		return 2
	case configuration.DensifiedMinhashFunction:
		return 3
	case configuration.SparseRandomProjectionHashFunction:
		return 4
	}
	return int(h)
}

func numberOfMode(m configuration.LayerModeType) int {
	switch m {
	case configuration.LayerMode1:
		return 1
	case configuration.LayerMode2:
		return 2
	case configuration.LayerMode3:
		return 3
	case configuration.LayerMode4:
		return 4
	}
	return int(m)
}

// encode writes the configuration file.
func (p *pipe) encode() {
	w, s := p.w, &p.spec
	c := map[string]any{
		"RangePow": s.rangePow, "K": s.k, "L": s.l, "Sparsity": s.sparsity, "BatchSize": s.batch, "Rehash": p.rehash, "Rebuild": p.rebuild,
		"InputDim": s.inputDim, "TotRecords": p.numBatches*s.batch + tot(w, s.batch), "TotRecordsTest": p.testBatches*s.batch + tot(w, s.batch),
		"LearningRate": s.lr, "Epoch": p.epochs, "Stepsize": p.stepsize, "SizesOfLayers": s.sizes, "NumLayer": s.layers,
		"TrainData": "train.txt", "TestData": "test.txt", "UseAdam": s.adam, "HashFunction": numberOfHash(s.hash), "LayerMode": numberOfMode(s.mode),
		"CpuProfile": p.cpu, "MemProfile": p.mem,
	}
	p.conf, _ = json.Marshal(c)
}

// tot: the configured totals need not be whole multiples of the batch size.
func tot(w *World, batch int) int {
	if w.Chance(1, 4) {
		return w.Int(0, batch-1)
	}
	return 0
}

// start installs files and observation and runs the program to its end.
func (p *pipe) run(open func(name string, nth int) (io.Reader, error)) {
	w := p.w
	if open == nil {
		var streams []*simReader
		for i := 0; i < 4; i++ {
			streams = append(streams, newSimReader(w, nil).deliver())
		}
		k := 0
		open = func(name string, nth int) (io.Reader, error) {
			data := p.file(name)
			if data == nil {
				return nil, syscall.ENOENT
			}
			st := *streams[k%len(streams)]
			k++
			st.data = data
			st.r = mrand.New(mrand.NewSource(int64(k)))
			return &st, nil
		}
	}
	w.FS.OnOpen = open
	w.FS.MaxOpen = 3
	if p.cpu {
		w.FS.MaxOpen++
	}
	w.OnCall("network.Network.ProcessInput", func(args []any) func([]any) {
		if len(args) != 6 {
			w.Broken("a training step takes %d arguments", len(args)-1)
		}
		ex, ok := args[2].([]dataset.Example)
		it, ok2 := args[3].(int)
		rh, ok3 := args[4].(bool)
		rb, ok4 := args[5].(bool)
		if !ok || !ok2 || !ok3 || !ok4 {
			w.Broken("a training step has other argument types")
		}
		if p.onStep != nil {
			net, ok := args[0].(*network.Network)
			if !ok {
				w.Broken("a training step has another receiver")
			}
			p.onStep(net)
		}
		p.events = append(p.events, event{kind: 'T', batch: cloneBatch(ex), iter: it, rehash: rh, rebuild: rb})
		i := len(p.events) - 1
		w.Logf("train iteration %d on %d examples rehash=%v rebuild=%v", it, len(ex), rh, rb)
		return func(res []any) {
			p.events[i].returned = true
			p.keepModel(res)
			if p.spend != nil {
				p.spend('T')
			}
		}
	})
	w.OnCall("network.Network.PredictClass", func(args []any) func([]any) {
		if len(args) != 3 {
			w.Broken("an evaluation takes %d arguments", len(args)-1)
		}
		ex, ok := args[2].([]dataset.Example)
		if !ok {
			w.Broken("an evaluation has other argument types")
		}
		if p.onEval != nil {
			p.onEval()
		}
		p.events = append(p.events, event{kind: 'E', batch: cloneBatch(ex)})
		i := len(p.events) - 1
		return func(res []any) {
			p.events[i].returned = true
			p.keepModel(res)
			if p.spend != nil {
				p.spend('E')
			}
			c, ok := res[0].(int)
			if !ok {
				w.Broken("an evaluation has other result types")
			}
			p.events[i].correct = c
		}
	})
	w.OnCall("network.New", func(args []any) func([]any) {
		if p.spend != nil {
			p.spend('N')
		}
		return nil
	})
	simrt.Args = []string{"goslide", "conf.json"}
	t := w.Go("program", func() {
		if msg, bad := w.Recover(goslide.Main); bad {
			p.panicMsg = msg
			return
		}
		p.done = true
	})
	w.Join(t)
	w.Logf("stderr ends with %q", tailOf(simrt.StderrText(), 300))
}

func (p *pipe) keepModel(res []any) {
	n, ok := res[len(res)-1].(*network.Network)
	if !ok {
		p.w.Broken("a training step or evaluation returns no network")
	}
	p.model = n
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (p *pipe) file(name string) []byte {
	switch name {
	case "conf.json":
		return p.conf
	case "train.txt":
		return p.train.text
	case "test.txt":
		return p.test.text
	}
	return nil
}

func cloneBatch(b []dataset.Example) []dataset.Example {
	out := make([]dataset.Example, len(b))
	for i := range b {
		out[i] = cloneExample(b[i])
	}
	return out
}

func (p *pipe) mustSucceed() {
	w := p.w
	w.Check(p.panicMsg == "", "crash", "the program crashed: %s", p.panicMsg)
	w.Check(!w.Exited, "spurious-failure", "the program exited with status %d: %s", w.ExitCode, tailOf(simrt.StderrText(), 300))
	w.Check(p.done, "crash", "the program did not come to its end")
}

// chop is what the batches of a reader of recs look like.
func chop(recs []dataset.Example, batch, n int) [][]dataset.Example {
	var out [][]dataset.Example
	for i := 0; i < n; i++ {
		a := min(i*batch, len(recs))
		b := min(a+batch, len(recs))
		out = append(out, recs[a:b])
	}
	return out
}

func sameBatch(a, b []dataset.Example) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameExample(a[i], b[i]) {
			return false
		}
	}
	return true
}

func batchString(b []dataset.Example) string {
	var out []string
	for _, e := range b {
		out = append(out, exString(e))
	}
	return "[" + strings.Join(out, " | ") + "]"
}

func (p *pipe) steps() []event {
	var out []event
	for _, e := range p.events {
		if e.kind == 'T' {
			out = append(out, e)
		}
	}
	return out
}

// C06: every epoch trains each record once, in file order.
func propC06(w *World) {
	environment(w, false)
	p := genPipe(w, pipeDefaults)
	p.run(nil)
	p.mustSucceed()
	steps := p.steps()
	want := chop(p.train.recs, p.spec.batch, p.numBatches)
	w.Check(len(steps) == p.epochs*p.numBatches, "steps-missing", "%d training steps, want %d epochs of %d", len(steps), p.epochs, p.numBatches)
	for i, e := range steps {
		w.Check(e.iter == i, "iteration-number", "training step %d carries iteration number %d", i, e.iter)
		w.Check(sameBatch(e.batch, want[i%p.numBatches]), "wrong-batch", "epoch %d batch %d is %s, want %s",
			i/p.numBatches, i%p.numBatches, batchString(e.batch), batchString(want[i%p.numBatches]))
		w.Observe(len(e.batch))
	}
	w.NonTrivial = len(steps) > 1 && len(p.train.recs) > 0
}

// C08: evaluations and table maintenance happen on schedule.
func propC08(w *World) {
	environment(w, false)
	p := genPipe(w, pipeDefaults)
	p.run(nil)
	p.mustSucceed()
	// evaluation groups: maximal runs of evaluation batches, split where the test file starts over
	type grp struct {
		before int // training steps done
		evs    []event
	}
	var groups []grp
	done := 0
	for _, e := range p.events {
		if e.kind == 'T' {
			w.Check(e.iter == done, "iteration-number", "training step %d carries iteration number %d", done, e.iter)
			period := func(n int) int { return max(1, n/p.spec.batch) }
			maintained := p.spec.mode == configuration.LayerMode1 || p.spec.mode == configuration.LayerMode4
			rh := maintained && (done+1)%period(p.rehash) == 0
			rb := maintained && (done+1)%period(p.rebuild) == 0
			w.Check(e.rehash == rh, "rehash-schedule", "iteration %d: rehash is %v, want %v (period %d records, batch %d, mode %d)", done, e.rehash, rh, p.rehash, p.spec.batch, p.spec.mode)
			w.Check(e.rebuild == rb, "rebuild-schedule", "iteration %d: rebuild is %v, want %v (period %d records, batch %d, mode %d)", done, e.rebuild, rb, p.rebuild, p.spec.batch, p.spec.mode)
			done++
			continue
		}
		if len(groups) == 0 || groups[len(groups)-1].before != done {
			groups = append(groups, grp{before: done})
		}
		g := &groups[len(groups)-1]
		g.evs = append(g.evs, e)
	}
	i := 0
	total := p.epochs * p.numBatches
	w.Check(done == total, "steps-missing", "%d training steps, want %d", done, total)
	for at := 1; at <= total; at++ {
		end := at%p.numBatches == 0 // after the last step of an epoch
		within := !end && at%p.stepsize == 0
		present := i < len(groups) && groups[i].before == at
		if !end && !within {
			w.Check(!present, "evaluation-unscheduled", "an evaluation runs after %d training steps (step size %d, %d steps per epoch)", at, p.stepsize, p.numBatches)
			continue
		}
		w.Check(present, "evaluation-missing", "no evaluation runs after %d training steps (step size %d, %d steps per epoch)", at, p.stepsize, p.numBatches)
		evs := groups[i].evs
		i++
		// each evaluation reads the test file from its start, in order
		var seen []dataset.Example
		for _, e := range evs {
			w.Check(len(e.batch) <= p.spec.batch, "oversized-batch", "an evaluation batch has %d records", len(e.batch))
			seen = append(seen, e.batch...)
		}
		w.Check(len(seen) <= len(p.test.recs), "evaluation-repeats", "one evaluation used %d records of a file of %d", len(seen), len(p.test.recs))
		for k := range seen {
			w.Check(sameExample(seen[k], p.test.recs[k]), "evaluation-wrong-record", "evaluation after %d steps: record %d is %s, want %s", at, k+1, exString(seen[k]), exString(p.test.recs[k]))
		}
		all := min(p.testBatches*p.spec.batch, len(p.test.recs))
		if at == total {
			w.Check(len(seen) == all, "final-evaluation", "the final evaluation used %d records, want %d", len(seen), all)
		} else {
			w.Check(len(seen) >= min(all, p.spec.batch), "evaluation-empty", "the evaluation after %d steps used %d records", at, len(seen))
		}
		w.Observe(at, len(seen))
	}
	w.Check(i == len(groups), "evaluation-unscheduled", "an evaluation runs before any training step")
	w.NonTrivial = len(groups) > 1
}

var (
	overallRE = regexp.MustCompile(`(?m)^Over all: (\S+) correct$`)
	runningRE = regexp.MustCompile(`(?m)^Iter (\d+) - (\S+) correct$`)
	summaryRE = regexp.MustCompile(`(?m)^(\d+) (\S+) (\S+)$`)
)

// evaluation is what happened between two training steps.
type evaluation struct {
	before  int // training steps done
	batches []event
	n       int // records evaluated
	correct int
}

func (p *pipe) evaluations() []evaluation {
	var out []evaluation
	done := 0
	for _, e := range p.events {
		if e.kind == 'T' {
			done++
			continue
		}
		if len(out) == 0 || out[len(out)-1].before != done {
			out = append(out, evaluation{before: done})
		}
		g := &out[len(out)-1]
		g.batches = append(g.batches, e)
		g.n += len(e.batch)
		g.correct += e.correct
	}
	return out
}

// checkAccuracy judges one printed accuracy.
func checkAccuracy(w *World, text, where string, correct, n int) float64 {
	v, err := strconv.ParseFloat(text, 64)
	if err != nil {
		w.Broken("accuracy %q", text)
	}
	if n == 0 {
		w.Hit("accuracy-of-no-records")
		w.Check(!(v > 0), "accuracy-wrong", "%s: accuracy %v reported without records", where, v)
		return v
	}
	want := float64(correct) / float64(n)
	w.Check(close2(v, want, 1e-6), "accuracy-wrong", "%s: %d of %d records predicted correctly, accuracy reported as %v", where, correct, n, v)
	return v
}

// C09: the reported accuracy is correct predictions over evaluated records.
func propC09(w *World) {
	environment(w, false)
	p := genPipe(w, pipeDefaults)
	// what the records of every batch were scored
	outs := map[int][]pairs{}
	onQuery(w, func(q probe) {
		if i := len(p.events) - 1; i >= 0 && q.layerIndex == p.spec.layers-1 && p.events[i].kind == 'E' {
			outs[i] = append(outs[i], q.out)
		}
	})
	p.run(nil)
	p.mustSucceed()
	for i, e := range p.events {
		if e.kind != 'E' || len(outs[i]) != len(e.batch) {
			continue
		}
		lo, hi := 0, 0
		for k, x := range e.batch {
			v := judge(outs[i][k], x.Labels)
			if v[0] {
				lo++
			}
			if v[1] {
				hi++
			}
		}
		w.Check(e.correct >= lo && e.correct <= hi, "wrong-count", "%d records of an evaluation batch of %d are counted as predicted correctly, %d to %d are", e.correct, len(e.batch), lo, hi)
	}
	groups := p.evaluations()
	text := simrt.StderrText()
	got := overallRE.FindAllStringSubmatch(text, -1)
	if len(groups) > 0 && len(got) == 0 {
		w.Broken("no accuracy line found in the program's output")
	}
	w.Check(len(got) == len(groups), "report-missing", "%d evaluations and %d accuracy reports", len(groups), len(got))
	// the running figures, one per batch
	running := runningRE.FindAllStringSubmatch(text, -1)
	k := 0
	for i, g := range groups {
		where := fmt.Sprintf("evaluation after %d steps", g.before)
		v := checkAccuracy(w, got[i][1], where, g.correct, g.n)
		w.Observe(v)
		if g.correct > 0 {
			w.NonTrivial = true
		}
		n, correct := 0, 0
		for j, e := range g.batches {
			n += len(e.batch)
			correct += e.correct
			w.Check(k < len(running), "report-missing", "%s: no figure for batch %d", where, j)
			w.Check(running[k][1] == strconv.Itoa(j), "report-order", "%s: the figure of batch %d is labelled %s", where, j, running[k][1])
			checkAccuracy(w, running[k][2], fmt.Sprintf("%s, up to batch %d", where, j), correct, n)
			k++
		}
	}
	w.Check(k == len(running), "report-missing", "%d figures for %d evaluation batches", len(running), k)
}

// slowReader takes simulated time for every read.
type slowReader struct {
	r     io.Reader
	spend func()
}

func (s slowReader) Read(p []byte) (int, error) {
	s.spend()
	return s.r.Read(p)
}

// C26: the closing line of an evaluation says what was trained, and for how long.
func propC26(w *World) {
	environment(w, false)
	p := genPipe(w, pipeDefaults)
	r := w.Rand()
	scale := simrt.Pick[int64](w, 1_000_000, 1000, 1, 1_000_000_000, 60_000_000_000, 2_400_000_000_000)
	duration := func() time.Duration {
		if r.Intn(6) == 0 {
			return 0
		}
		return time.Duration(r.Int63n(3 * scale))
	}
	var spent []time.Duration // by training steps so far
	p.spend = func(kind byte) {
		d := duration()
		w.Clock.Advance(d)
		if kind == 'T' {
			if n := len(spent); n > 0 {
				d += spent[n-1]
			}
			spent = append(spent, d)
		} else if d > 0 {
			w.Fault("time-passes-outside-training")
		}
	}
	streams := newSimReader(w, nil).deliver()
	nth := 0
	w.Clock.Set(simrt.ClockManual, w.Seed())
	p.run(func(name string, _ int) (io.Reader, error) {
		data := p.file(name)
		if data == nil {
			return nil, syscall.ENOENT
		}
		w.Clock.Advance(duration())
		st := *streams
		nth++
		st.data, st.r = data, mrand.New(mrand.NewSource(int64(nth)))
		return slowReader{&st, func() { w.Clock.Advance(duration()) }}, nil
	})
	p.mustSucceed()
	groups := p.evaluations()
	got := summaryRE.FindAllStringSubmatch(simrt.StderrText(), -1)
	if len(groups) > 0 && len(got) == 0 {
		w.Broken("no summary line found in the program's output")
	}
	w.Check(len(got) == len(groups), "report-missing", "%d evaluations and %d summaries", len(groups), len(got))
	for i, g := range groups {
		where := fmt.Sprintf("evaluation after %d steps", g.before)
		w.Check(got[i][1] == strconv.Itoa(g.before), "steps-wrong", "%s: %s steps reported", where, got[i][1])
		d, err := time.ParseDuration(got[i][2])
		if err != nil {
			w.Broken("training time %q", got[i][2])
		}
		w.Check(d == spent[g.before-1], "time-wrong", "%s: training time reported as %v, the training steps took %v", where, d, spent[g.before-1])
		checkAccuracy(w, got[i][3], where, g.correct, g.n)
		w.Observe(int(d))
	}
	w.NonTrivial = len(groups) > 1
}

// C07: failures end the run, loudly, before bad data is used.
func propC07(w *World) {
	environment(w, false)
	o := pipeDefaults
	o.shortFiles = false
	p := genPipe(w, o)
	// what fails
	var (
		needle   string // the diagnostic mentions this
		maxSteps = -1   // training steps that may start
		maxEvals = -1   // evaluation records that may be used in the failing evaluation
		badTrain = -1   // first record of the training file that must not be used
		badTest  = -1
		fault    string
	)
	type plan struct {
		name string
		nth  int
		err  error
		at   int
		with bool
	}
	var pl *plan
	kind := w.Int(0, 9)
	needs := 0
	for at := 1; at <= p.epochs*p.numBatches; at++ {
		if at%p.numBatches == 0 || at%p.stepsize == 0 {
			needs++
		}
	}
	writeErr := func(name string, limit int, err error) {
		w.FS.OnCreate = func(n string) (int, error) {
			if n == name {
				if err != nil {
					w.Fault("create-error")
				}
				return limit, err
			}
			return -1, nil
		}
	}
	switch kind {
	case 0: // no fault
	case 1: // open fails
		w.Fault("open-error")
		file := simrt.Pick(w, "train.txt", "test.txt", "conf.json")
		nth := 0
		if file == "train.txt" {
			nth = w.Int(0, p.epochs-1)
			maxSteps = nth * p.numBatches
		} else if file == "test.txt" {
			nth = w.Int(0, needs-1)
		} else {
			maxSteps = 0
		}
		e := simrt.Pick[error](w, syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO)
		pl = &plan{name: file, nth: nth, err: e, at: -1}
		needle = e.Error()
		fault = fmt.Sprintf("open number %d of %s fails with %v", nth+1, file, e)
	case 2, 3: // read fails
		file := "train.txt"
		d := p.train
		nth := w.Int(0, p.epochs-1)
		if kind == 3 {
			file, d = "test.txt", p.test
			nth = w.Int(0, needs-1)
		}
		if w.Chance(1, 8) {
			file, nth = "conf.json", 0
		}
		text := p.file(file)
		e := readErrors[w.Int(0, len(readErrors)-1)]
		pl = &plan{name: file, nth: nth, err: e, at: w.Int(0, len(text)), with: w.Chance(1, 3)}
		needle = e.Error()
		fault = fmt.Sprintf("reading %s (open number %d) fails at byte %d with %v", file, nth+1, pl.at, e)
		// records whole in the bytes before the failure
		whole := max(0, strings.Count(string(text[:pl.at]), "\n")-1)
		if pl.at == len(text) && !d.finalEol {
			whole++
		}
		switch file {
		case "train.txt":
			maxSteps = nth*p.numBatches + whole/p.spec.batch
			if whole/p.spec.batch >= p.numBatches {
				// every record needed had arrived: the program need not notice
				maxSteps = -1
				pl.nth, needle, fault = -1, "", ""
			}
		case "test.txt":
			maxEvals = whole
			need := p.testBatches * p.spec.batch
			if nth < needs-1 {
				need = min(need, 20*p.spec.batch) // all but the last evaluation are cut short
			}
			if whole >= need {
				// every record needed had arrived: the program need not notice
				pl.nth, needle, fault = -1, "", ""
				maxEvals = -1
			}
		case "conf.json":
			maxSteps = 0
		}
	case 4, 5: // a bad record
		d := p.train
		if kind == 5 {
			d = p.test
		}
		lines := len(d.lines)
		if lines == 0 {
			break
		}
		i := w.Int(0, lines-1)
		bad := simrt.Pick(w, "x 1:1", "0 1", "0", "999999 0:1", "0 999999:1", "-1 0:1", "0 0:z", "0  0:1", "0,,0 0:1", "0:1")
		d.lines[i] = bad
		d.render()
		w.Fault("malformed-record")
		needle = fmt.Sprintf("line %d", i+2)
		fault = fmt.Sprintf("line %d of a data file is %q", i+2, bad)
		if kind == 4 {
			badTrain = i
			maxSteps = i / p.spec.batch
		} else {
			badTest = i
		}
	case 6: // a bad header
		d := simrt.Pick(w, p.train, p.test)
		t := string(d.text)
		d.text = []byte(simrt.Pick(w, "", "1 2", "0 4 4", "a b c", "1 2 3 4") + t[min(len(t), len(d.header())):])
		w.Fault("malformed-header")
		needle = "header"
		fault = "the header of a data file is malformed"
		if d == p.train {
			if p.spec.batch > 1 && w.Chance(1, 5) {
				p.conf = []byte(replaceNumber(string(p.conf), "TotRecords", p.spec.batch-1))
				w.Hit("no-whole-batch-configured")
			}
			maxSteps = 0
		} else {
			badTest = 0
		}
	case 7: // configuration
		switch w.Int(0, 2) {
		case 0:
			p.conf = p.conf[:w.Int(0, len(p.conf)-1)]
			fault = "the configuration file is torn"
		case 1:
			p.conf = []byte(`{"BatchSize": "many"}`)
			fault = "the configuration holds a value of the wrong kind"
		default:
			pl = &plan{name: "conf.json", err: syscall.ENOENT, at: -1}
			fault = "the configuration file is missing"
		}
		w.Fault("bad-configuration")
		maxSteps = 0
	case 8: // profile files
		switch {
		case p.cpu:
			maxSteps = 0
			if w.Chance(1, 3) {
				w.FS.ProfileErr = errors.New("injected: profiler busy")
				fault = "the CPU profiler cannot be started"
				needle = "profiler busy"
				w.Fault("profiler-error")
				break
			}
			writeErr("cpu.prof", -1, syscall.EACCES)
			fault = "cpu.prof cannot be created"
			needle = syscall.EACCES.Error()
		case p.mem:
			if w.Chance(1, 2) {
				writeErr("mem.prof", -1, syscall.EROFS)
				needle = syscall.EROFS.Error()
				fault = "mem.prof cannot be created"
			} else {
				writeErr("mem.prof", w.Int(0, 5), nil)
				needle = syscall.ENOSPC.Error()
				fault = "the disk is full when mem.prof is written"
			}
		}
	case 9: // arguments
		fault = "the command line is malformed"
		maxSteps = 0
		w.Fault("bad-arguments")
	}
	w.Logf("fault: %s", fault)
	template := newSimReader(w, nil).deliver()
	fired := false
	open := func(name string, nth int) (io.Reader, error) {
		data := p.file(name)
		if data == nil {
			return nil, syscall.ENOENT
		}
		st := *template
		st.data = data
		st.r = mrand.New(mrand.NewSource(int64(nth)))
		if pl != nil && pl.name == name && pl.nth == nth {
			fired = true
			if pl.at < 0 {
				return nil, pl.err
			}
			st.failAt, st.failErr, st.failWith = pl.at, pl.err, pl.with
		}
		return &st, nil
	}
	if fault == "the command line is malformed" {
		p.runArgs(open, simrt.Pick(w, []string{"goslide"}, []string{"goslide", "a", "b"}, []string{},
			[]string{"goslide", "conf.json", "extra"}, []string{"goslide", "conf.json", "conf.json"}, []string{"goslide", "conf.json", ""}, []string{"goslide", ""}))
	} else {
		p.run(open)
	}
	if fault == "" {
		p.mustSucceed()
		w.Hit("fault-free-run")
		w.NonTrivial = true
		return
	}
	_ = fired
	w.NonTrivial = true
	w.Check(p.panicMsg == "", "crash", "%s: the program crashed: %s", fault, p.panicMsg)
	w.Check(w.Exited && w.ExitCode != 0, "failure-hidden", "%s: the program ended normally", fault)
	text := simrt.StderrText()
	w.Check(strings.TrimSpace(text) != "", "silent-failure", "%s: nothing on standard error", fault)
	last := tailOf(text, 400)
	if needle != "" {
		if !strings.Contains(last, needle) {
			num := regexp.MustCompile(`\d+`).FindString(needle)
			ok := strings.HasPrefix(needle, "line ") && regexp.MustCompile(`\b`+num+`\b`).MatchString(lastLine(text))
			w.Check(ok, "diagnostic-unspecific", "%s: the diagnostic %q does not mention %q", fault, lastLine(text), needle)
		}
	}
	steps := p.steps()
	if maxSteps >= 0 {
		w.Check(len(steps) <= maxSteps, "bad-data-used", "%s: %d training steps ran, at most %d had sound data", fault, len(steps), maxSteps)
	}
	for _, e := range steps {
		for _, x := range e.batch {
			w.Check(badTrain < 0 || len(e.batch) == p.spec.batch, "short-batch", "%s: a training step used %d records", fault, len(e.batch))
			w.Check(belongs(x, p.train.recs), "bad-data-used", "%s: trained on %s, which is not in the file", fault, exString(x))
		}
	}
	if badTest >= 0 || maxEvals >= 0 {
		lim := badTest
		if maxEvals >= 0 {
			lim = maxEvals
		}
		// the evaluation that failed is the last one: records used since the last training step
		n := 0
		for i := len(p.events) - 1; i >= 0 && p.events[i].kind == 'E'; i-- {
			n += len(p.events[i].batch)
		}
		w.Check(n <= lim, "bad-data-used", "%s: the failing evaluation used %d records, %d were sound", fault, n, lim)
	}
	w.Observe(len(steps), len(p.events))
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n")
	return s[strings.LastIndexByte(s, '\n')+1:]
}

func belongs(x dataset.Example, recs []dataset.Example) bool {
	for _, r := range recs {
		if sameExample(x, r) {
			return true
		}
	}
	return false
}

func (p *pipe) runArgs(open func(name string, nth int) (io.Reader, error), args []string) {
	w := p.w
	w.FS.OnOpen = open
	simrt.Args = args
	t := w.Go("program", func() {
		if msg, bad := w.Recover(goslide.Main); bad {
			p.panicMsg = msg
			return
		}
		p.done = true
	})
	w.Join(t)
}
