//go:build go1.22

// Package simrt is the simulator the instrumented copy of goslide runs under.
//
// Every source of nondeterminism goslide can see is owned by the one World of
// the process: which task runs next (statement-level yield points), the clock,
// math/rand, hash/maphash seeds, map iteration order, files, process exit and
// standard streams.  A run is a pure function of its choice sequence; the
// choice sequence is either drawn from one seeded PRNG or replayed from a file.
package simrt

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/bits"
	mrand "math/rand"
	"runtime"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- choices

// splitmix64 is the one generator every choice of a fresh run comes from.
type splitmix64 struct{ s uint64 }

func (g *splitmix64) next() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// ---------------------------------------------------------------- world

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type World struct {
	gen      splitmix64
	replay   []uint64
	replayOn bool
	Choices  []uint64

	// scheduling
	tasks    []*Task // not yet done
	spawned  int
	cur      *Task
	back     chan struct{} // task -> controller
	quantum  int64
	Steps    int64
	MaxSteps int64
	Stmt     bool // statement-level preemption enabled
	gapScale int64
	preempts int
	MaxPre   int
	stalled  *Task

	// environment
	Clock    *Clock
	Rng      *Stream
	entropy  *mrand.Rand // maphash seeds, crypto/rand
	mapRng   *mrand.Rand // map iteration order
	FS       *FS
	StdoutB  []byte
	StderrB  []byte
	ArgsV    []string
	Exited   bool
	ExitCode int

	hooks map[string]func(args []any) func(res []any)

	// accounting
	violation  *Violation
	Faults     map[string]int
	Probes     map[string]int
	NonTrivial bool
	hash       uint64
	TraceOn    bool
	Trace      []string
	BrokenMsg  string
}

// W is the world of this process; nil before the run starts and during package
// initialisation.
var W *World

// budget is decremented at every yield point; the scheduler refills it.
var budget int64 = math.MaxInt64

// NewWorld makes the world of a run, from a seed or from recorded choices.
func NewWorld(seed uint64, choices []uint64, replay bool) *World {
	w := &World{
		gen:      splitmix64{seed},
		replay:   choices,
		replayOn: replay,
		back:     make(chan struct{}),
		MaxSteps: 1_500_000_000,
		MaxPre:   4000,
		Faults:   map[string]int{},
		Probes:   map[string]int{},
		hooks:    map[string]func(args []any) func(res []any){},
		hash:     1469598103934665603,
	}
	W = w
	w.Clock = newClock(w)
	w.Rng = NewStream(1)
	w.entropy = mrand.New(mrand.NewSource(1))
	w.mapRng = mrand.New(mrand.NewSource(1))
	w.FS = newFS(w)
	return w
}

// Draw returns a choice in [0,n). Choice 0 is by convention the simplest one.
func (w *World) Draw(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	var v uint64
	if w.replayOn {
		if len(w.Choices) < len(w.replay) {
			v = w.replay[len(w.Choices)]
			if v >= n {
				v %= n
			}
		}
	} else {
		hi, _ := bits.Mul64(w.gen.next(), n)
		v = hi
	}
	w.Choices = append(w.Choices, v)
	w.mix(v)
	return v
}

// Int draws an integer in [lo,hi]; lo is the simplest.
func (w *World) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(w.Draw(uint64(hi-lo+1)))
}

// Chance is true with probability num/den; false is the simplest.
func (w *World) Chance(num, den int) bool {
	return int(w.Draw(uint64(den))) >= den-num
}

// Pick draws one of the arguments; the first is the simplest.
func Pick[T any](w *World, xs ...T) T { return xs[w.Draw(uint64(len(xs)))] }

// Seed draws a sub-seed for bulk data (so that bulk data is one choice).
func (w *World) Seed() int64 { return int64(w.Draw(1 << 40)) }

// Rand is a data generator seeded by one choice.
func (w *World) Rand() *mrand.Rand { return mrand.New(mrand.NewSource(w.Seed())) }

func (w *World) mix(v uint64) {
	w.hash = (w.hash ^ v) * 1099511628211
	w.hash ^= w.hash >> 29
}

// Observe folds an observation into the run's trace hash.
func (w *World) Observe(vs ...any) {
	for _, v := range vs {
		switch x := v.(type) {
		case int:
			w.mix(uint64(x))
		case uint64:
			w.mix(x)
		case float64:
			w.mix(math.Float64bits(x))
		case bool:
			if x {
				w.mix(3)
			} else {
				w.mix(5)
			}
		case []int:
			for _, y := range x {
				w.mix(uint64(y))
			}
			w.mix(uint64(len(x)))
		case []float64:
			for _, y := range x {
				w.mix(math.Float64bits(y))
			}
			w.mix(uint64(len(x)))
		default:
			h := fnv.New64a()
			fmt.Fprint(h, v)
			w.mix(h.Sum64())
		}
	}
}

func (w *World) TraceHash() uint64 { return w.hash }

// Logf adds to the human-readable trace of a replay; it never draws.
func (w *World) Logf(format string, a ...any) {
	if w.TraceOn && len(w.Trace) < 4000 {
		w.Trace = append(w.Trace, fmt.Sprintf("[%d] ", w.Steps)+fmt.Sprintf(format, a...))
	}
}

// Fault counts a fault that actually fired.
func (w *World) Fault(kind string) {
	w.Faults[kind]++
	w.mix(uint64(len(kind))*31 + uint64(kind[0]))
	w.Logf("FAULT %s", kind)
}

// Hit counts a rare condition that was reached.
func (w *World) Hit(name string) { w.Probes[name]++ }

type stopRun struct{ v *Violation }

// Fail reports a violation and ends the run.
func (w *World) Fail(class, format string, a ...any) {
	if w.violation == nil {
		w.violation = &Violation{Class: class, Detail: fmt.Sprintf(format, a...)}
	}
	panic(stopRun{w.violation})
}

// Check fails the run unless ok.
func (w *World) Check(ok bool, class, format string, a ...any) {
	if !ok {
		w.Fail(class, format, a...)
	}
}

// Broken ends the run without a verdict: the harness cannot judge this tree.
func (w *World) Broken(format string, a ...any) {
	w.BrokenMsg = fmt.Sprintf(format, a...)
	w.Fail("broken-harness", "%s", w.BrokenMsg)
}

func (w *World) Violation() *Violation { return w.violation }

// OnCall registers a hook on an exported function of the code under test.
// The hook runs on entry and may return a function to run on return.
func (w *World) OnCall(name string, f func(args []any) func(res []any)) { w.hooks[name] = f }

// CallEnter is called by the wrappers the instrumenter generates.
func CallEnter(name string, args ...any) func(res []any) {
	if W == nil {
		return nil
	}
	h := W.hooks[name]
	if h == nil {
		return nil
	}
	return h(args)
}

// CallExit is called by the wrappers the instrumenter generates.
func CallExit(f func(res []any), res ...any) {
	if f != nil {
		f(res)
	}
}

// ---------------------------------------------------------------- tasks

type Task struct {
	id      int
	name    string
	resume  chan struct{}
	done    bool
	started bool
	fn      func()
	blocked func() bool // nil: runnable; otherwise runnable when it returns true

	// Rng and Entropy, if set, serve this task's draws instead of the world's.
	Rng     *Stream
	Entropy *mrand.Rand
}

// Y is the yield point the instrumenter puts before every statement.
func Y() {
	budget--
	if budget < 0 {
		yieldSlow()
	}
}

func yieldSlow() {
	w := W
	if w == nil || w.cur == nil {
		budget = math.MaxInt64
		return
	}
	w.settle()
	if w.Steps >= w.MaxSteps {
		w.failNow("no-progress", "a task made no progress within %d simulated steps:\n%s", w.MaxSteps, stack())
	}
	w.preempts++
	w.suspend()
}

func (w *World) failNow(class, format string, a ...any) {
	budget = math.MaxInt64
	w.Fail(class, format, a...)
}

// settle moves the consumed part of the quantum to Steps.
func (w *World) settle() {
	used := w.quantum - budget
	if used > 0 {
		w.Steps += used
	}
	w.quantum = budget
}

// suspend gives control to the scheduler and waits for the next turn.
func (w *World) suspend() {
	t := w.cur
	w.settle()
	w.back <- struct{}{}
	<-t.resume
}

// Go starts a task. It does not run before the current one yields.
func (w *World) Go(name string, fn func()) *Task {
	t := &Task{id: w.spawned, name: name, resume: make(chan struct{}), fn: fn}
	w.spawned++
	w.tasks = append(w.tasks, t)
	return t
}

// Point is an API-level scheduling point of the workload.
func (w *World) Point() {
	if w.cur == nil {
		return
	}
	w.suspend()
}

// Wait blocks the current task until ok() holds.
func (w *World) Wait(ok func() bool) {
	if ok() {
		return
	}
	w.cur.blocked = ok
	w.suspend()
	w.cur.blocked = nil
}

// Join waits for the given tasks.
func (w *World) Join(ts ...*Task) {
	w.Wait(func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
}

// Schedule draws the scheduling policy of this run.
func (w *World) Schedule(stmt bool) {
	w.Stmt = stmt
	w.gapScale = Pick[int64](w, 1000, 100, 20, 5, 2, 10000)
	w.Logf("schedule: statement-level=%v gap=%d", stmt, w.gapScale)
}

// Stall makes the scheduler starve t while any other task can run.
func (w *World) Stall(t *Task) { w.stalled = t; w.Fault("stalled-thread") }

func (w *World) start(t *Task) {
	t.started = true
	go func() {
		<-t.resume
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok && w.violation == nil {
					w.violation = &Violation{Class: "panic", Detail: fmt.Sprintf("task %s panicked: %v\n%s", t.name, r, stack())}
				}
			}
			t.done = true
			w.settle()
			w.back <- struct{}{}
		}()
		t.fn()
	}()
}

// Main runs fn as the main task and schedules until everything is done, a
// violation is found or nothing can run.
func (w *World) Main(fn func()) {
	main := w.Go("main", fn)
	for {
		if w.violation != nil {
			budget = math.MaxInt64
			return
		}
		var run []*Task
		alive := false
		curIdx := -1
		left := w.tasks[:0]
		for _, t := range w.tasks {
			if !t.done {
				left = append(left, t)
			}
		}
		for i := len(left); i < len(w.tasks); i++ {
			w.tasks[i] = nil
		}
		w.tasks = left
		for _, t := range w.tasks {
			alive = true
			if t.blocked == nil || t.blocked() {
				if t == w.cur {
					curIdx = len(run)
				}
				run = append(run, t)
			}
		}
		if main.done || !alive {
			budget = math.MaxInt64
			return
		}
		if len(run) == 0 {
			var names []string
			for _, t := range w.tasks {
				if !t.done {
					names = append(names, t.name)
				}
			}
			w.violation = &Violation{Class: "deadlock", Detail: "no task can run: " + strings.Join(names, ", ")}
			budget = math.MaxInt64
			return
		}
		if w.stalled != nil && len(run) > 1 {
			keep := run[:0:0]
			curIdx = -1
			for _, t := range run {
				if t != w.stalled {
					if t == w.cur {
						curIdx = len(keep)
					}
					keep = append(keep, t)
				}
			}
			run = keep
		}
		pick := 0
		q := w.MaxSteps - w.Steps
		if len(run) > 1 {
			// choice 0 keeps the current task running
			k := int(w.Draw(uint64(len(run))))
			if curIdx >= 0 {
				pick = (curIdx + k) % len(run)
			} else {
				pick = k
			}
			if w.Stmt && w.preempts < w.MaxPre {
				g := int64(w.Draw(uint64(2*w.gapScale + 1)))
				if g > 0 && g < q {
					q = g
				}
			}
		}
		t := run[pick]
		if t != w.cur && len(run) > 1 {
			w.Logf("switch to %s (quantum %d)", t.name, q)
		}
		w.cur = t
		if !t.started {
			w.start(t)
		}
		if q < 1 {
			q = 1
		}
		budget, w.quantum = q, q
		t.resume <- struct{}{}
		<-w.back
	}
}

// Current is the running task.
func (w *World) Current() *Task { return w.cur }

// Preemptions is the number of forced statement-level switches of the run.
func (w *World) Preemptions() int { return w.preempts }

// stack is a deterministic rendering of the current call stack: function names
// and line numbers of the code under test only.
func stack() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "goslide") && !strings.Contains(f.Function, "/simrt.") {
			out = append(out, f.Function)
		}
		if !more || len(out) > 12 {
			break
		}
	}
	return "  in " + strings.Join(out, "\n  in ")
}

// Recover runs fn and returns the text of a panic of the code under test.
func (w *World) Recover(fn func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopRun); ok {
				panic(s)
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	fn()
	return "", false
}

// MapKeys lists the keys of m in the order this run's map iteration takes.
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if W != nil {
		W.mapRng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		if len(keys) > 1 {
			W.Probes["map-iteration-ordered-by-simulator"]++
		}
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
}

// SetMapOrder re-seeds the map iteration order.
func (w *World) SetMapOrder(seed int64) { w.mapRng = mrand.New(mrand.NewSource(seed)) }

// SetEntropy re-seeds maphash seeds and crypto/rand.
func (w *World) SetEntropy(seed int64) { w.entropy = mrand.New(mrand.NewSource(seed)) }
