//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	mrand "math/rand"
	"reflect"
	"strings"
	"syscall"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

func init() { register("C05", propC05) }

// documented defaults of the configuration file
func defaultConfig() configuration.Configuration {
	return configuration.Configuration{
		RangePow: []int{}, K: []int{}, L: []int{}, Sparsity: []float64{}, SizesOfLayers: []int{},
		BatchSize: 1000, Rehash: 1000, Rebuild: 1000, InputDim: 784, TotRecords: 60000, TotRecordsTest: 10000,
		LearningRate: 0.0001, Epoch: 5, Stepsize: 20, NumLayer: 3, UseAdam: true,
		HashFunction: configuration.DensifiedWtaHashFunction, LayerMode: configuration.LayerMode4,
	}
}

func cloneConfig(c *configuration.Configuration) configuration.Configuration {
	d := *c
	d.RangePow = append([]int{}, c.RangePow...)
	d.K = append([]int{}, c.K...)
	d.L = append([]int{}, c.L...)
	d.SizesOfLayers = append([]int{}, c.SizesOfLayers...)
	d.Sparsity = append([]float64{}, c.Sparsity...)
	return d
}

func sameConfig(a, b configuration.Configuration) bool {
	return reflect.DeepEqual(cloneConfig(&a), cloneConfig(&b))
}

func configDiff(a, b configuration.Configuration) string {
	va, vb := reflect.ValueOf(cloneConfig(&a)), reflect.ValueOf(cloneConfig(&b))
	var out []string
	for i := 0; i < va.NumField(); i++ {
		if !reflect.DeepEqual(va.Field(i).Interface(), vb.Field(i).Interface()) {
			out = append(out, fmt.Sprintf("%s: %v, want %v", va.Type().Field(i).Name, va.Field(i).Interface(), vb.Field(i).Interface()))
		}
	}
	return strings.Join(out, "; ")
}

// genConfigText makes a file that sets some fields, and what it should mean.
func genConfigText(r *mrand.Rand, density int) (string, configuration.Configuration) {
	c := defaultConfig()
	v := reflect.ValueOf(&c).Elem()
	t := v.Type()
	var parts []string
	for _, i := range r.Perm(t.NumField()) {
		if r.Intn(10) >= density {
			continue
		}
		f := v.Field(i)
		name := t.Field(i).Name
		var val any
		switch f.Interface().(type) {
		case int:
			n := r.Intn(2000)
			switch r.Intn(12) {
			case 0, 1:
				n = 0
			case 2:
				n = -n
			case 3:
				n = int(r.Uint64() >> uint(r.Intn(60)))
			}
			f.SetInt(int64(n))
			val = n
		case float64:
			x := float64(r.Intn(100000)) / 65536
			switch r.Intn(8) {
			case 0:
				x = 0
			case 1:
				x = -x
			case 2:
				x = math.Ldexp(1+x, r.Intn(600)-300)
			}
			f.SetFloat(x)
			val = x
		case string:
			s := fmt.Sprintf("path/%d é\"q\\.txt", r.Intn(100))
			if r.Intn(4) == 0 {
				s = ""
			}
			f.SetString(s)
			val = s
		case bool:
			b := r.Intn(2) == 0
			f.SetBool(b)
			val = b
		case []int:
			n := make([]int, r.Intn(6))
			for j := range n {
				n[j] = r.Intn(500)
			}
			f.Set(reflect.ValueOf(n))
			val = n
		case []float64:
			n := make([]float64, r.Intn(6))
			for j := range n {
				n[j] = float64(r.Intn(1000)) / 1024
			}
			f.Set(reflect.ValueOf(n))
			val = n
		case configuration.HashFunctionType, configuration.LayerModeType:
			n := 1 + r.Intn(4)
			f.SetInt(int64(n))
			val = n
		default:
			continue // a field this harness does not know
		}
		b, _ := json.Marshal(val)
		parts = append(parts, fmt.Sprintf("%q%s%s%s", name, ": "[:1+r.Intn(2)], []string{"", " ", "\n"}[r.Intn(3)], b))
	}
	if r.Intn(5) == 0 {
		parts = append(parts, `"Comment": {"nested": [1, 2, "three"]}`)
	}
	sep := []string{",", ", ", ",\n\t"}[r.Intn(3)]
	return "{" + strings.Join(parts, sep) + "}", c
}

// C05: configuration loading is all or nothing.
func propC05(w *World) {
	environment(w, false)
	n := w.Int(1, 4)
	w.Schedule(true)
	type job struct {
		name     string
		text     []byte
		want     configuration.Configuration
		mustFail string // why
		mustWork bool
		mayFail  bool
	}
	var jobs []*job
	readers := map[string]func() (io.Reader, error){}
	for i := 0; i < n; i++ {
		r := w.Rand()
		text, want := genConfigText(r, w.Int(0, 10))
		if w.Chance(1, 8) {
			text += strings.Repeat(" \n", 1+r.Intn(3000))
		}
		j := &job{name: fmt.Sprintf("conf-%d.json", i), text: []byte(text), want: want, mustWork: true}
		switch w.Int(0, 7) {
		case 1:
			j.mustFail = "the file does not exist"
			w.Fault("open-error")
			e := simrt.Pick[error](w, syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.EIO)
			readers[j.name] = func() (io.Reader, error) { return nil, e }
		case 2: // read failure
			rd := newSimReader(w, j.text).deliver()
			rd.fail()
			j.mustFail = fmt.Sprintf("reading failed at byte %d", rd.failAt)
			readers[j.name] = func() (io.Reader, error) { return rd, nil }
		case 3: // torn file: a proper prefix of an object
			end := bytes.LastIndexByte(j.text, '}')
			j.text = j.text[:w.Int(0, end)]
			j.mustFail = "the file is torn"
			w.Fault("torn-file")
		case 4: // flipped bytes
			for k := w.Int(1, 3); k > 0 && len(j.text) > 0; k-- {
				j.text[r.Intn(len(j.text))] ^= 1 << uint(r.Intn(8))
			}
			w.Fault("flipped-bits")
			j.mustWork = false
			if !json.Valid(j.text) {
				j.mustFail = "the file is not JSON"
			}
		case 5: // a value of the wrong kind
			bad := []string{`"BatchSize": "ten"`, `"K": 3`, `"L": ["a"]`, `"UseAdam": 1`, `"LearningRate": "x"`, `"Epoch": 1.5`, `"TrainData": 7`,
				`"Sparsity": [true]`, `"HashFunction": 300`, `"Stepsize": 1e300`, `"LayerMode": "four"`, `"SizesOfLayers": {}`, `"RangePow": [1, 2, 3, {}]`}[w.Int(0, 12)]
			t := string(j.text)
			end := strings.LastIndexByte(t, '}')
			sep := ","
			if strings.TrimSpace(t[1:end]) == "" {
				sep = ""
			}
			if w.Chance(1, 2) {
				t = "{" + bad + sep + t[1:end] + "}"
			} else {
				t = t[:end] + sep + bad + "}"
			}
			j.text = []byte(t)
			j.mustFail = "a value has the wrong kind: " + bad
			w.Fault("wrong-kind-of-value")
		case 6: // trailing garbage
			j.text = append(j.text, []string{"}", "{}", "x", " 1", "\x00"}[w.Int(0, 4)]...)
			j.mustFail = "garbage follows the object"
			w.Fault("trailing-garbage")
		}
		if w.Chance(1, 25) && readers[j.name] == nil {
			t := simrt.Pick(w, "null", "[]", "3", `"settings"`, "true", "[{}]", "")
			j.text = []byte(t + []string{"", "\n"}[r.Intn(2)])
			j.mustFail = "the file holds no object"
			if t == "null" {
				// no settings at all, or no settings file
				j.mustFail, j.want, j.mustWork, j.mayFail = "", defaultConfig(), true, true
			}
			w.Fault("not-an-object")
		}
		if readers[j.name] == nil {
			text := j.text
			rd := newSimReader(w, text).deliver()
			first := true
			readers[j.name] = func() (io.Reader, error) {
				if first {
					first = false
					return rd, nil
				}
				return bytes.NewReader(text), nil
			}
		}
		jobs = append(jobs, j)
		w.Logf("%s: %s; text %s", j.name, j.mustFail, abbreviate(string(j.text)))
	}
	w.FS.OnOpen = func(name string, nth int) (io.Reader, error) {
		f := readers[name]
		if f == nil {
			return nil, syscall.ENOENT
		}
		return f()
	}
	w.Check(configuration.Global != nil && sameConfig(*configuration.Global, defaultConfig()), "wrong-default",
		"the initial configuration differs from the documented defaults: %s", configDiff(*configuration.Global, defaultConfig()))
	_, global := genConfigText(w.Rand(), 5)
	gcopy := cloneConfig(&global)
	g := cloneConfig(&global)
	configuration.Global = &g
	type loaded struct {
		c    *configuration.Configuration
		want configuration.Configuration
		name string
	}
	var all []loaded
	grp := newGroup(w)
	ok := 0
	for _, j := range jobs {
		j := j
		scribble := w.Chance(1, 3)
		grp.Go(j.name, func() {
			c, err := configuration.FromJsonFile(j.name)
			w.Observe(err == nil)
			if err != nil {
				w.Check(c == nil, "partial-config", "%s: failed with %v and still returned a configuration", j.name, err)
				w.Check(j.mustFail != "" || !j.mustWork || j.mayFail, "valid-rejected", "%s: a valid file failed: %v\n%s", j.name, err, abbreviate(string(j.text)))
				return
			}
			w.Check(j.mustFail == "", "bad-config-accepted", "%s: accepted although %s\n%s", j.name, j.mustFail, abbreviate(string(j.text)))
			w.Check(c != nil, "no-config", "%s: no error and no configuration", j.name)
			if j.mustWork {
				w.Check(sameConfig(*c, j.want), "config-differs", "%s: %s\nfile: %s", j.name, configDiff(*c, j.want), abbreviate(string(j.text)))
			} else {
				j.want = cloneConfig(c)
			}
			ok++
			if scribble {
				for k := range c.K {
					c.K[k] = -1
				}
				_ = append(c.L, -1)
				_ = append(c.RangePow, -1)
				c.BatchSize = -5
				c.TrainData = "scribbled"
				w.Fault("caller-scribbles-on-configuration")
				return
			}
			all = append(all, loaded{c, j.want, j.name})
		})
	}
	grp.Wait()
	for _, l := range all {
		w.Check(sameConfig(*l.c, l.want), "config-altered", "%s changed after it was loaded: %s", l.name, configDiff(*l.c, l.want))
	}
	w.Check(configuration.Global == &g && sameConfig(g, gcopy), "active-config-touched",
		"loading files changed the active configuration: %s", configDiff(*configuration.Global, gcopy))
	w.Check(sameConfig(*configuration.Default(), defaultConfig()), "wrong-default", "loading files changed the defaults: %s",
		configDiff(*configuration.Default(), defaultConfig()))
	w.Check(w.FS.OpenCount == 0, "leaked-handle", "%d file handles stay open after loading", w.FS.OpenCount)
	w.NonTrivial = len(jobs) > 1 || ok > 0
}
