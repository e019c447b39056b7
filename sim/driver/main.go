// Command driver builds the simulation from the current working tree and
// searches seeds for violations of one property.
//
//	driver check  -root /verif -repo /repo -tmp DIR -prop C01 [-tier quick|thorough] [-runs N]
//	driver replay -root /verif -repo /repo -tmp DIR FILE
//	driver setup  -root /verif -repo /repo -tmp DIR
//
// Exit status: 0 the property held on everything explored, 1 a violation was
// found (and a VIOLATION line printed), anything else is trouble of the check.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type propMeta struct {
	Quick    int      `json:"quick"`
	Thorough int      `json:"thorough"`
	Rule     string   `json:"rule"`
	Real     []string `json:"real"`
	Stub     []string `json:"stub"`
	Assume   []string `json:"assumptions"`
}

type violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type result struct {
	Prop      string         `json:"prop"`
	Seed      uint64         `json:"seed"`
	Hash      uint64         `json:"hash"`
	Steps     int64          `json:"steps"`
	Preempt   int            `json:"preempt"`
	SimNanos  int64          `json:"sim_nanos"`
	Choices   []uint64       `json:"choices,omitempty"`
	NChoices  int            `json:"n_choices"`
	Violation *violation     `json:"violation,omitempty"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	NonTriv   bool           `json:"non_trivial"`
	Trace     []string       `json:"trace,omitempty"`
	Broken    string         `json:"broken,omitempty"`
}

type replayFile struct {
	Property  string         `json:"property"`
	Seed      uint64         `json:"seed"`
	VerifSeed int64          `json:"verif_seed"`
	Index     int            `json:"run_index"`
	BySeed    bool           `json:"by_seed,omitempty"`
	Choices   []uint64       `json:"choices"`
	Violation *violation     `json:"violation"`
	Hash      uint64         `json:"trace_hash"`
	Original  int            `json:"choices_before_shrinking"`
	Trials    int            `json:"shrink_executions"`
	Faults    map[string]int `json:"faults"`
	Trace     []string       `json:"trace"`
	How       string         `json:"how_to_replay"`
}

type finding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regular expression over the violation's detail
	What     string `json:"what"`
}

var root, repo, tmp string

func trouble(format string, a ...any) {
	fmt.Printf("TROUBLE: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		trouble("usage: driver check|replay|setup ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	fs.StringVar(&root, "root", "/verif", "")
	fs.StringVar(&repo, "repo", "/repo", "")
	fs.StringVar(&tmp, "tmp", "", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	runs := fs.Int("runs", 0, "")
	start := fs.Int("start", 0, "index of the first run")
	noEvidence := fs.Bool("no-evidence", false, "")
	all := fs.Bool("all", false, "report every violating run, do not shrink")
	fs.Parse(os.Args[2:])
	if tmp == "" {
		trouble("no scratch directory")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	worker, err := build()
	if err != nil {
		trouble("cannot build the simulation from %s: %v", repo, err)
	}
	switch cmd {
	case "setup":
		fmt.Println("ok")
	case "check":
		os.Exit(check(worker, *prop, *tier, *runs, *start, *noEvidence, *all))
	case "replay":
		if fs.NArg() != 1 {
			trouble("replay needs one file")
		}
		os.Exit(replay(worker, fs.Arg(0)))
	default:
		trouble("unknown command %s", cmd)
	}
}

// ---------------------------------------------------------------- build

func goCmd(dir string, args ...string) error {
	c := exec.Command("go", args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

func build() (string, error) {
	dir := filepath.Join(tmp, "mod")
	if err := os.MkdirAll(filepath.Join(dir, "verifsim"), 0o755); err != nil {
		return "", err
	}
	sim := filepath.Join(root, "sim")
	instr := filepath.Join(tmp, "instr")
	if err := goCmd(sim, "build", "-o", instr, "./instr"); err != nil {
		return "", err
	}
	out, err := exec.Command(instr, "-repo", repo, "-out", dir).CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("instrumenting: %v\n%s", err, out)
	}
	for _, d := range []string{"simrt", "harness"} {
		files, err := filepath.Glob(filepath.Join(sim, d, "*.go"))
		if err != nil {
			return "", err
		}
		to := filepath.Join(dir, "verifsim", d)
		if err := os.MkdirAll(to, 0o755); err != nil {
			return "", err
		}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err == nil {
				err = os.WriteFile(filepath.Join(to, filepath.Base(f)), b, 0o644)
			}
			if err != nil {
				return "", err
			}
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module github.com/nlpodyssey/goslide\n\ngo 1.21\n"), 0o644); err != nil {
		return "", err
	}
	worker := filepath.Join(tmp, "worker")
	return worker, goCmd(dir, "build", "-o", worker, "./verifsim/harness")
}

// ---------------------------------------------------------------- one run

type runOpts struct {
	seed    uint64
	choices []uint64
	replay  bool
	trace   bool
	procs   int
	gogc    string
}

const runLimit = 120 * time.Second

// run executes one simulated run in a fresh process.
// crashed is non-empty when the process died without reporting.
func run(worker, prop string, o runOpts) (res *result, crashed string, err error) {
	args := []string{"-prop", prop, "-seed", strconv.FormatUint(o.seed, 10)}
	if o.replay {
		f, err := os.CreateTemp(tmp, "choices-")
		if err != nil {
			return nil, "", err
		}
		defer os.Remove(f.Name())
		b, _ := json.Marshal(o.choices)
		if o.choices == nil {
			b = []byte("[]")
		}
		if _, err := f.Write(b); err != nil {
			return nil, "", err
		}
		f.Close()
		args = append(args, "-choices", f.Name())
	}
	if o.trace {
		args = append(args, "-trace")
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, "", err
	}
	defer r.Close()
	c := exec.Command(worker, args...)
	c.ExtraFiles = []*os.File{w}
	var stderr bytes.Buffer
	c.Stderr = &stderr
	procs := o.procs
	if procs == 0 {
		procs = 2
	}
	c.Env = append(os.Environ(), "GOTRACEBACK=single", fmt.Sprintf("GOMAXPROCS=%d", procs))
	if err := c.Start(); err != nil {
		w.Close()
		return nil, "", err
	}
	w.Close()
	timer := time.AfterFunc(runLimit, func() { c.Process.Kill() })
	b, rerr := io.ReadAll(r)
	werr := c.Wait()
	killed := !timer.Stop()
	if killed {
		return nil, "", fmt.Errorf("run with seed %d exceeded %v of real time", o.seed, runLimit)
	}
	if rerr != nil {
		return nil, "", rerr
	}
	if werr != nil {
		if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() != 3 {
			return nil, clip(stderr.String(), 4000), nil
		}
		return nil, "", fmt.Errorf("worker: %v: %s", werr, clip(stderr.String(), 2000))
	}
	res = &result{}
	if err := json.Unmarshal(b, res); err != nil {
		return nil, "", fmt.Errorf("worker report: %v", err)
	}
	if res.Broken != "" {
		return nil, "", fmt.Errorf("the harness cannot judge this tree (seed %d): %s", o.seed, res.Broken)
	}
	return res, "", nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func seedOf(verifSeed int64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", verifSeed, prop, i)
	s := h.Sum64()
	s ^= s >> 32
	s *= 0x9e3779b97f4a7c15
	return s ^ s>>29
}

// ---------------------------------------------------------------- check

func check(worker, prop, tier string, runs, startAt int, noEvidence, all bool) int {
	t0 := time.Now()
	metas := map[string]propMeta{}
	b, err := os.ReadFile(filepath.Join(root, "sim", "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &metas)
	}
	if err != nil {
		trouble("props.json: %v", err)
	}
	meta, ok := metas[prop]
	if !ok {
		trouble("unknown property %s", prop)
	}
	if runs == 0 {
		runs = meta.Quick
		if tier == "thorough" {
			runs = meta.Thorough
		}
	}
	verifSeed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			trouble("VERIF_SEED=%q", s)
		}
		verifSeed = v
	}
	known := loadFindings(prop)
	softLimit := 8 * time.Minute
	if tier == "thorough" {
		softLimit = 13 * time.Minute
	}

	type agg struct {
		sync.Mutex
		n, nontriv int
		steps, sim int64
		preempt    int64
		faults     map[string]int
		faultRuns  map[string]int
		probes     map[string]int
		probeRuns  map[string]int
		hashes     map[uint64]bool
		allHashes  map[uint64]bool
		sampleIdx  []int
		firstHash  map[int]uint64
	}
	a := &agg{faults: map[string]int{}, faultRuns: map[string]int{}, probes: map[string]int{}, probeRuns: map[string]int{},
		hashes: map[uint64]bool{}, allHashes: map[uint64]bool{}, firstHash: map[int]uint64{}}
	type bad struct {
		idx     int
		res     *result
		crashed string
	}
	var (
		next      int64 = int64(startAt) - 1
		stopAt    int64 = int64(startAt + runs)
		bads      []bad
		knownHits = map[int]int{}
		firstErr  error
		wg        sync.WaitGroup
		cut       bool
	)
	for p := 0; p < runtime.NumCPU(); p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if int64(i) >= atomic.LoadInt64(&stopAt) {
					return
				}
				if time.Since(t0) > softLimit {
					a.Lock()
					cut = true
					a.Unlock()
					return
				}
				seed := seedOf(verifSeed, prop, i)
				res, crashed, err := run(worker, prop, runOpts{seed: seed})
				if err == nil && crashed != "" {
					// only a death that repeats is the code's doing
					_, again, err2 := run(worker, prop, runOpts{seed: seed})
					if err2 != nil {
						err = err2
					} else if again == "" {
						err = fmt.Errorf("a worker died once and not again (seed %d): %s", seed, crashed)
					}
				}
				a.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = err
					}
					atomic.StoreInt64(&stopAt, 0)
					a.Unlock()
					return
				}
				if crashed != "" {
					res = &result{Prop: prop, Seed: seed, Violation: &violation{"process-crash", crashed}}
				}
				a.n++
				a.steps += res.Steps
				a.sim += res.SimNanos
				a.preempt += int64(res.Preempt)
				for k, v := range res.Faults {
					a.faults[k] += v
					a.faultRuns[k]++
				}
				for k, v := range res.Probes {
					a.probes[k] += v
					a.probeRuns[k]++
				}
				a.allHashes[res.Hash] = true
				if res.NonTriv {
					a.nontriv++
					a.hashes[res.Hash] = true
				}
				if i-startAt < 48 && crashed == "" {
					a.firstHash[i] = res.Hash
				}
				if res.NonTriv && len(a.sampleIdx) < 64 {
					a.sampleIdx = append(a.sampleIdx, i)
				}
				if res.Violation != nil {
					if k := matchFinding(known, res.Violation); k >= 0 {
						knownHits[k]++
					} else {
						bads = append(bads, bad{i, res, crashed})
						if !all && int64(i+1) < atomic.LoadInt64(&stopAt) {
							// earlier runs still in flight may hold a lower index
							atomic.StoreInt64(&stopAt, int64(i+1))
						}
					}
				}
				a.Unlock()
			}
		}()
	}
	wg.Wait()
	searchTime := time.Since(t0)
	if firstErr != nil {
		trouble("%v", firstErr)
	}

	// the simulator must be deterministic, or nothing it says can be replayed
	selfChecked, err := selfCheck(worker, prop, verifSeed, a.firstHash)
	if err != nil {
		trouble("%v", err)
	}

	status := 0
	nviol := 0
	if len(bads) > 0 {
		sort.Slice(bads, func(i, j int) bool { return bads[i].idx < bads[j].idx })
		if all {
			classes := map[string]int{}
			for _, x := range bads {
				classes[x.res.Violation.Class]++
			}
			fmt.Printf("%s: %d of %d runs violate: %v\n", prop, len(bads), a.n, classes)
			shown := map[string]bool{}
			for _, x := range bads {
				if !shown[x.res.Violation.Class] {
					shown[x.res.Violation.Class] = true
					fmt.Printf("  seed %d: %s: %s\n", x.res.Seed, x.res.Violation.Class, clip(x.res.Violation.Detail, 600))
				}
			}
			return 1
		}
		first := bads[0]
		nviol = 1
		rf := replayFile{Property: prop, Seed: first.res.Seed, VerifSeed: verifSeed, Index: first.idx, Violation: first.res.Violation}
		if first.crashed != "" {
			rf.BySeed = true
		} else {
			best, trials := shrink(worker, prop, first.res)
			final, crashed, err := run(worker, prop, runOpts{choices: best.Choices, replay: true, trace: true})
			if err != nil || crashed != "" || final.Violation == nil || final.Violation.Class != first.res.Violation.Class || final.Hash != best.Hash {
				trouble("a violation did not replay (seed %d): %v %s", first.res.Seed, err, crashed)
			}
			rf.Choices, rf.Violation, rf.Hash, rf.Trace, rf.Faults = final.Choices, final.Violation, final.Hash, final.Trace, final.Faults
			rf.Original, rf.Trials = len(first.res.Choices), trials
		}
		dir := filepath.Join(root, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, prop+".json")
		rf.How = "cd " + root + " && ./check --replay " + path
		jb, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, jb, 0o644); err != nil {
			trouble("%v", err)
		}
		fmt.Printf("%s: run %d (seed %d): %s: %s\n", prop, first.idx, first.res.Seed, rf.Violation.Class, clip(rf.Violation.Detail, 1500))
		for _, t := range tail(rf.Trace, 25) {
			fmt.Println("   ", clip(t, 300))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		status = 1
	}
	for k, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", prop, f.What, knownHits[k])
	}
	if !noEvidence {
		sort.Ints(a.sampleIdx)
		var samples []any
		for _, i := range a.sampleIdx {
			if len(samples) == 3 {
				break
			}
			seed := seedOf(verifSeed, prop, i)
			res, crashed, err := run(worker, prop, runOpts{seed: seed, trace: true})
			if err != nil || crashed != "" {
				continue
			}
			var tr []string
			for _, t := range tail(res.Trace, 40) {
				tr = append(tr, clip(t, 240))
			}
			samples = append(samples, map[string]any{"run": i, "seed": seed, "choices": res.NChoices, "steps": res.Steps,
				"preemptions": res.Preempt, "faults": res.Faults, "trace": tr})
		}
		if samples == nil {
			samples = []any{}
		}
		perHour := float64(a.n) / searchTime.Hours()
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": verifSeed, "level": "exploration",
			"wall_s": time.Since(t0).Seconds(), "violations": nviol,
			"coverage": map[string]any{
				"evaluations": a.n, "distinct_nontrivial": len(a.hashes), "rule": meta.Rule, "samples": samples,
				"simulated_runs": a.n, "distinct_interleavings_or_histories": len(a.allHashes),
				"measure_of_distinctness":     "hash of the run's whole choice sequence, the faults that fired and the observed results",
				"runs_and_seeds_per_hour":     int64(perHour),
				"simulated_statements":        a.steps,
				"statement_level_preemptions": a.preempt,
				"simulated_time_covered_s":    float64(a.sim) / 1e9,
				"faults_injected":             a.faults,
				"runs_with_fault":             a.faultRuns,
				"rare_conditions_reached":     a.probes,
				"runs_with_rare_condition":    a.probeRuns,
				"determinism_reruns_compared": selfChecked,
				"stopped_early_by_time_limit": cut,
				"ran_real_code":               meta.Real,
				"ran_stub":                    meta.Stub,
			},
			"assumptions": append([]string{
				"yield points are statements of the code under test: interleavings inside one statement, and weak-memory effects, are not explored",
				"the instrumented copy differs from the tree only in yield points and in which implementation of clock, random numbers, hash seeds, files, streams and process exit it calls",
			}, meta.Assume...),
		}
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		jb, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(jb, '\n'), 0o644)
		}
		if err != nil {
			trouble("%v", err)
		}
	}
	if status == 0 {
		fmt.Printf("%s: held on %d simulated runs (%d distinct non-trivial), %.1fs; faults %v; probes %v\n", prop, a.n, len(a.hashes), time.Since(t0).Seconds(), a.faultRuns, a.probeRuns)
	}
	return status
}

func tail(s []string, n int) []string {
	if len(s) <= n {
		return s
	}
	out := append([]string{}, s[:n/3]...)
	out = append(out, fmt.Sprintf("... %d lines ...", len(s)-n))
	return append(out, s[len(s)-(n-n/3):]...)
}

func loadFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "{") {
			continue // "fixed:" lines suppress nothing
		}
		var f finding
		if err := json.Unmarshal([]byte(l), &f); err != nil {
			trouble("known_findings.jsonl: %v", err)
		}
		if f.Status == "known" && f.Property == prop {
			out = append(out, f)
		}
	}
	return out
}

func matchFinding(known []finding, v *violation) int {
	for i, f := range known {
		if f.Class == v.Class {
			if ok, _ := regexp.MatchString(f.Match, v.Detail); ok && f.Match != "" {
				return i
			}
		}
	}
	return -1
}

// selfCheck repeats runs at other worker settings and compares trace hashes.
func selfCheck(worker, prop string, verifSeed int64, hashes map[int]uint64) (int, error) {
	var idx []int
	for i := range hashes {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad error
	sem := make(chan bool, runtime.NumCPU())
	for k, i := range idx {
		k, i := k, i
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res, crashed, err := run(worker, prop, runOpts{seed: seedOf(verifSeed, prop, i), procs: []int{1, 3, 8}[k%3]})
			mu.Lock()
			defer mu.Unlock()
			switch {
			case err != nil:
				bad = err
			case crashed != "":
				bad = fmt.Errorf("run %d died when repeated: %s", i, crashed)
			case res.Hash != hashes[i]:
				bad = fmt.Errorf("run %d is not deterministic: trace hashes %x and %x", i, hashes[i], res.Hash)
			}
		}()
	}
	wg.Wait()
	return len(idx), bad
}

// ---------------------------------------------------------------- shrink

const maxTrials = 1500

func shrink(worker, prop string, orig *result) (*result, int) {
	best := orig
	trials := 0
	t0 := time.Now()
	out := func() bool { return trials >= maxTrials || time.Since(t0) > 90*time.Second }
	// try runs candidates in parallel and adopts the first that still fails the same way
	try := func(cands [][]uint64) bool {
		for len(cands) > 0 && !out() {
			n := min(len(cands), runtime.NumCPU())
			rs := make([]*result, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					r, crashed, err := run(worker, prop, runOpts{choices: cands[i], replay: true})
					if err == nil && crashed == "" {
						rs[i] = r
					}
				}()
			}
			wg.Wait()
			trials += n
			for _, r := range rs {
				if r != nil && r.Violation != nil && r.Violation.Class == orig.Violation.Class && simpler(r.Choices, best.Choices) {
					best = r
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	for progress := true; progress && !out(); {
		progress = false
		// truncate
		for {
			c := best.Choices
			var cands [][]uint64
			for k := len(c) / 2; k >= 1; k /= 2 {
				cands = append(cands, cut(c, len(c)-k, len(c)))
			}
			if !try(cands) {
				break
			}
			progress = true
		}
		// delete chunks
		for size := len(best.Choices) / 2; size >= 1 && !out(); size /= 2 {
			for from := 0; from+size <= len(best.Choices) && !out(); {
				var cands [][]uint64
				for k := 0; k < runtime.NumCPU() && from+size*(k+1) <= len(best.Choices); k++ {
					cands = append(cands, cut(best.Choices, from+size*k, from+size*(k+1)))
				}
				if try(cands) {
					progress = true
				} else {
					from += size * len(cands)
				}
			}
		}
		// zero and lower values
		for i := 0; i < len(best.Choices) && !out(); i++ {
			v := best.Choices[i]
			if v == 0 {
				continue
			}
			var cands [][]uint64
			for _, nv := range []uint64{0, 1, v / 2, v - v/4, v - 1} {
				if nv < v {
					c := append([]uint64(nil), best.Choices...)
					c[i] = nv
					cands = append(cands, c)
				}
			}
			if try(cands) {
				progress = true
			}
		}
	}
	return best, trials
}

func cut(c []uint64, from, to int) []uint64 {
	return append(append([]uint64(nil), c[:from]...), c[to:]...)
}

// simpler: shorter, or equally long and smaller in the first difference.
func simpler(a, b []uint64) bool {
	for len(a) > 0 && a[len(a)-1] == 0 {
		a = a[:len(a)-1]
	}
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// ---------------------------------------------------------------- replay

func replay(worker, path string) int {
	b, err := os.ReadFile(path)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		trouble("%v", err)
	}
	o := runOpts{choices: rf.Choices, replay: !rf.BySeed, seed: rf.Seed, trace: true}
	res, crashed, err := run(worker, rf.Property, o)
	if err != nil {
		trouble("%v", err)
	}
	if crashed != "" {
		fmt.Println(crashed)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	for _, t := range res.Trace {
		fmt.Println(t)
	}
	if res.Violation == nil {
		fmt.Printf("%s: the replayed run does not violate the property on this tree\n", rf.Property)
		return 0
	}
	fmt.Printf("%s: %s\n", res.Violation.Class, res.Violation.Detail)
	fmt.Printf("trace hash %x (recorded %x)\n", res.Hash, rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}
