//go:build go1.22

// Command worker executes one simulated run of one property and reports it as
// JSON on file descriptor 3.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

type World = simrt.World

type prop struct {
	id string
	fn func(w *World)
}

var props = map[string]prop{}

func register(id string, fn func(w *World)) { props[id] = prop{id, fn} }

type result struct {
	Prop      string           `json:"prop"`
	Seed      uint64           `json:"seed"`
	Hash      uint64           `json:"hash"`
	Steps     int64            `json:"steps"`
	Preempt   int              `json:"preempt"`
	SimNanos  int64            `json:"sim_nanos"`
	Choices   []uint64         `json:"choices,omitempty"`
	NChoices  int              `json:"n_choices"`
	Violation *simrt.Violation `json:"violation,omitempty"`
	Faults    map[string]int   `json:"faults"`
	Probes    map[string]int   `json:"probes"`
	NonTriv   bool             `json:"non_trivial"`
	Trace     []string         `json:"trace,omitempty"`
	Broken    string           `json:"broken,omitempty"`
}

func main() {
	id := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 0, "seed of a fresh run")
	choices := flag.String("choices", "", "file with a JSON array of choices to replay")
	trace := flag.Bool("trace", false, "record a readable trace")
	list := flag.Bool("list", false, "list the properties")
	keep := flag.Bool("keep", false, "report the choices of a run without a violation too")
	flag.Parse()
	debug.SetGCPercent(400)
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	p, ok := props[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "worker: unknown property", *id)
		os.Exit(3)
	}
	var cs []uint64
	replay := *choices != ""
	if replay {
		b, err := os.ReadFile(*choices)
		if err == nil {
			err = json.Unmarshal(b, &cs)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
	}
	w := simrt.NewWorld(*seed, cs, replay)
	w.TraceOn = *trace
	w.Main(func() { p.fn(w) })

	r := result{
		Prop: *id, Seed: *seed, Hash: w.TraceHash(), Steps: w.Steps, Preempt: w.Preemptions(),
		SimNanos: w.Clock.Covered, NChoices: len(w.Choices), Violation: w.Violation(),
		Faults: w.Faults, Probes: w.Probes, NonTriv: w.NonTrivial, Trace: w.Trace,
	}
	r.Broken = w.BrokenMsg
	if r.Violation != nil || *keep {
		r.Choices = w.Choices
	}
	out := os.NewFile(3, "result")
	if out == nil {
		out = os.Stdout
	}
	b, err := json.Marshal(r)
	if err == nil {
		_, err = out.Write(b)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: cannot report:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

// environment draws the run's clock, randomness, entropy and map order.
func environment(w *World, adversarialRng bool) {
	w.Clock.Set(simrt.Pick(w, simrt.ClockSteady, simrt.ClockFrozen, simrt.ClockJumpy), w.Seed())
	w.Clock.Shift(time.Duration(w.Draw(1 << 57))) // within about four years
	s := w.Seed()
	w.Rng = simrt.NewStream(s)
	if adversarialRng && w.Chance(1, 3) {
		w.Rng.Adversarial(s + 1)
	}
	w.SetEntropy(w.Seed())
	w.SetMapOrder(w.Seed())
}

// group is a set of tasks to wait for.
type group struct {
	w  *World
	ts []*simrt.Task
}

func newGroup(w *World) *group { return &group{w: w} }

func (g *group) Go(name string, fn func()) *simrt.Task {
	t := g.w.Go(name, fn)
	g.ts = append(g.ts, t)
	return t
}

// Wait waits until every task of the group is done, and sees to it that one of
// them is sometimes starved by the scheduler.
func (g *group) Wait() {
	if len(g.ts) > 1 && g.w.Chance(1, 6) {
		g.w.Stall(g.ts[g.w.Int(0, len(g.ts)-1)])
	}
	g.w.Join(g.ts...)
}
