//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/index_value"
)

func init() {
	register("C01", propC01)
	register("C02", propC02)
	register("C03", propC03)
	register("C04", propC04)
}

var docDefaults = docOpts{maxRecs: 25, maxFeatures: 60, maxLabels: 30, wide: true, oddForms: true}

// genFormat draws the line endings of a document and renders it.
func genFormat(w *World, d *doc) []byte {
	switch w.Int(0, 3) {
	case 1:
		d.eol = "\r\n"
		w.Hit("crlf-line-ends")
	case 2:
		d.mixed = w.Rand()
		w.Hit("mixed-line-ends")
	}
	d.finalEol = !w.Chance(1, 3)
	if !d.finalEol {
		w.Hit("no-final-line-end")
	}
	return d.render()
}

func checkHeader(w *World, s *xcrepo.Scanner, d *doc) {
	w.Check(s.Err() == nil, "valid-rejected", "header %q of a valid file rejected: %v", d.header(), s.Err())
	w.Check(s.TotalPoints() == d.points && s.NumFeatures() == d.features && s.NumLabels() == d.labels,
		"wrong-header", "header %q read as points=%d features=%d labels=%d", d.header(), s.TotalPoints(), s.NumFeatures(), s.NumLabels())
	w.Check(s.LineNumber() == 1, "wrong-line-number", "after the header the line number is %d", s.LineNumber())
}

func abbreviate(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s... (%d bytes)", s[:200], len(s))
	}
	return s
}

// C01: the records of a dataset do not depend on how its bytes arrive.
func propC01(w *World) {
	environment(w, false)
	o := docDefaults
	o.long = true
	d := genDoc(w, o)
	genFormat(w, d)
	rd := newSimReader(w, d.text).deliver()
	w.Logf("document of %d bytes, %d records, eol %q, delivery policy %d", len(d.text), len(d.recs), d.eol, rd.policy)
	s := xcrepo.NewScanner(rd)
	checkHeader(w, s, d)
	for i, want := range d.recs {
		ok := s.Scan()
		w.Check(ok, "record-lost", "record %d of %d not delivered: err=%v; line %q", i+1, len(d.recs), s.Err(), abbreviate(d.lines[i]))
		got := s.Example()
		w.Check(sameExample(got, want), "record-differs", "record %d is %s, want %s; line %q", i+1, exString(got), exString(want), abbreviate(d.lines[i]))
		w.Check(sameExample(s.Example(), want), "record-differs", "asking for record %d again gives %s", i+1, exString(s.Example()))
		w.Check(s.Err() == nil, "spurious-error", "error after record %d: %v", i+1, s.Err())
		w.Check(s.LineNumber() == i+2, "wrong-line-number", "record %d is on line %d, reported line %d", i+1, i+2, s.LineNumber())
		w.Observe(got.Labels, len(got.Features))
	}
	for k := 0; k < 3; k++ {
		w.Check(!s.Scan(), "record-invented", "a record after the last one: %s", exString(s.Example()))
		w.Check(s.Err() == nil, "spurious-error", "error at the end of a valid file: %v", s.Err())
	}
	w.Check(s.TotalPoints() == d.points && s.NumFeatures() == d.features && s.NumLabels() == d.labels,
		"wrong-header", "dimensions changed while reading")
	w.NonTrivial = len(d.recs) > 0 && rd.reads > 2
}

// C02: a failing read never turns into data or into a clean end.
func propC02(w *World) {
	environment(w, false)
	o := docDefaults
	o.maxRecs = 40
	o.long = true
	d := genDoc(w, o)
	genFormat(w, d)
	rd := newSimReader(w, d.text).deliver()
	rd.fail()
	if w.Chance(1, 6) {
		rd.stall, rd.failWith, rd.resume = true, false, false
	}
	w.Logf("document of %d bytes, %d records; read fails at byte %d with %v (with data %v, resumes %v, stall %v)",
		len(d.text), len(d.recs), rd.failAt, rd.failErr, rd.failWith, rd.resume, rd.stall)
	s := xcrepo.NewScanner(rd)
	headerFailed := s.Err() != nil
	n := 0
	for n <= len(d.recs) && s.Scan() {
		w.Check(n < len(d.recs), "record-invented", "a record after the last one: %s", exString(s.Example()))
		w.Check(sameExample(s.Example(), d.recs[n]), "record-differs", "record %d is %s, want %s", n+1, exString(s.Example()), exString(d.recs[n]))
		w.Check(!headerFailed, "record-after-error", "a record was delivered although the header could not be read")
		w.Check(s.LineNumber() == n+2, "wrong-line-number", "record %d reported on line %d", n+1, s.LineNumber())
		n++
	}
	w.Observe(n)
	if !rd.fired {
		// the scanner stopped before it met the failure
		w.Fail("not-read-to-the-end", "reading stopped after %d of %d records without an error from the stream: err=%v", n, len(d.recs), s.Err())
	}
	err := s.Err()
	w.Check(err != nil, "failure-hidden", "the stream failed with %v at byte %d but reading ended cleanly after %d of %d records",
		rd.failErr, rd.failAt, n, len(d.recs))
	if !rd.stall {
		w.Check(errors.Is(err, rd.failErr), "wrong-error", "the stream failed with %v but the reported error is %v", rd.failErr, err)
	}
	// every record that was complete before the failing read is delivered
	whole := strings.Count(string(d.text[:rd.before]), "\n") - 1
	if whole > len(d.recs) {
		whole = len(d.recs)
	}
	w.Check(n >= whole, "record-lost", "%d records were completely received before the failing read, %d were delivered", whole, n)
	most := strings.Count(string(d.text[:rd.total]), "\n") - 1
	if rd.total == len(d.text) && !d.finalEol && most >= 0 {
		most++ // the open last line is complete in the file, though nothing says so
	}
	w.Check(n <= max(most, 0), "record-from-torn-line", "%d records delivered, only %d lines had been received whole", n, most)
	for k := 0; k < 3; k++ {
		w.Check(!s.Scan(), "record-after-error", "a record was delivered after the error: %s", exString(s.Example()))
		w.Check(s.Err() == err, "error-not-sticky", "the error changed from %v to %v", err, s.Err())
	}
	w.NonTrivial = rd.fired && rd.failAt > 0 && len(d.recs) > 0
}

// damage applies one random edit to the bytes.
func damage(w *World, b []byte, d *doc) []byte {
	r := w.Rand()
	b = append([]byte(nil), b...)
	kind := w.Int(0, 11)
	names := []string{"flipped-bit", "replaced-byte", "lost-byte", "inserted-byte", "torn-tail", "lost-line", "duplicated-line", "blank-line", "lost-range", "number-out-of-range", "value-replaced", "stray-carriage-return"}
	if len(b) == 0 {
		return b
	}
	alphabet := " ,:\n\r-+._0123456789eExaN\x00\xff\t;"
	at := r.Intn(len(b))
	if w.Chance(1, 4) {
		at = r.Intn(min(len(b), 12)) // the header
	}
	switch kind {
	case 0:
		b[at] ^= 1 << uint(r.Intn(8))
	case 1:
		b[at] = alphabet[r.Intn(len(alphabet))]
	case 2:
		b = append(b[:at], b[at+1:]...)
	case 3:
		b = append(b[:at], append([]byte{alphabet[r.Intn(len(alphabet))]}, b[at:]...)...)
	case 4:
		b = b[:at]
	case 5, 6, 7:
		ls := strings.SplitAfter(string(b), "\n")
		i := r.Intn(len(ls))
		switch kind {
		case 5:
			ls = append(ls[:i], ls[i+1:]...)
		case 6:
			ls = append(ls[:i+1], ls[i:]...)
		default:
			ls = append(ls[:i], append([]string{"\n"}, ls[i:]...)...)
		}
		b = []byte(strings.Join(ls, ""))
	case 8:
		end := min(len(b), at+1+r.Intn(40))
		b = append(b[:at], b[end:]...)
	case 9:
		// replace a run of digits
		i := at
		for i < len(b) && (b[i] < '0' || b[i] > '9') {
			i++
		}
		j := i
		for j < len(b) && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		sub := []string{strconv.Itoa(d.features), strconv.Itoa(d.labels), strconv.Itoa(d.features - 1), strconv.Itoa(d.labels - 1), "-1", "999999", "0", "30", "60", "99999999999999999999", "1e3", "-0", "00", "1.5", "18446744073709551616", "4294967296", "9223372036854775808", "007", "08", "0" + strconv.Itoa(d.features-1), "00" + strconv.Itoa(d.labels)}[r.Intn(21)]
		b = append(b[:i:i], append([]byte(sub), b[j:]...)...)
	case 10:
		// replace what stands between a colon and the next separator
		i := at
		for i < len(b) && b[i] != ':' {
			i++
		}
		j := i
		for j < len(b) && b[j] != ' ' && b[j] != '\n' && b[j] != '\r' {
			j++
		}
		if i < len(b) {
			i++
			sub := []string{"", "1e999", "-1e999", "1e-999", "-", ".", "e5", "1e", "1e5.5", "1.2.3", "--1", "1-", "0x", "1f", "1,5", "1e400", "179769313486231570000" + strings.Repeat("0", 300)}[r.Intn(17)]
			b = append(b[:i:i], append([]byte(sub), b[j:]...)...)
		}
	case 11:
		var ends []int
		for i, c := range b {
			if c == '\n' || i == len(b)-1 {
				ends = append(ends, i)
			}
		}
		i := ends[r.Intn(len(ends))]
		b = append(b[:i:i], append([]byte(strings.Repeat("\r", 1+r.Intn(2))), b[i:]...)...)
	}
	w.Fault("damage-" + names[kind])
	return b
}

// C03: damaged bytes are rejected where they are, or read as what they say.
func propC03(w *World) {
	environment(w, false)
	o := docDefaults
	o.long = w.Chance(1, 10)
	d := genDoc(w, o)
	b := genFormat(w, d)
	for k := w.Int(1, 3); k > 0; k-- {
		b = damage(w, b, d)
	}
	rd := newSimReader(w, b).deliver()
	w.Logf("damaged document:\n%s", abbreviate(fmt.Sprintf("%q", b)))
	ls := refLines(b)
	s := xcrepo.NewScanner(rd)
	if len(ls) == 0 {
		w.Check(s.Err() == xcrepo.ErrMalformedHeader, "bad-header-accepted", "an empty file gives error %v", s.Err())
		w.Check(!s.Scan(), "record-after-error", "a record from an empty file")
		return
	}
	dims, ok, amb := refHeader(ls[0])
	if !amb {
		if !ok {
			w.Check(s.Err() == xcrepo.ErrMalformedHeader, "bad-header-accepted", "header %q gives error %v", ls[0], s.Err())
		} else {
			w.Check(s.Err() == nil, "valid-rejected", "header %q gives error %v", ls[0], s.Err())
			w.Check(s.TotalPoints() == dims[0] && s.NumFeatures() == dims[1] && s.NumLabels() == dims[2], "wrong-header",
				"header %q read as %d %d %d", ls[0], s.TotalPoints(), s.NumFeatures(), s.NumLabels())
		}
	}
	if err := s.Err(); err != nil {
		for k := 0; k < 2; k++ {
			w.Check(!s.Scan(), "record-after-error", "a record was delivered after the header error")
			w.Check(s.Err() == err, "error-not-sticky", "the error changed from %v to %v", err, s.Err())
		}
		w.NonTrivial = true
		return
	}
	features, labels := s.NumFeatures(), s.NumLabels()
	for i, line := range ls[1:] {
		rl := refParse(line, features, labels)
		scanned := s.Scan()
		err := s.Err()
		w.Observe(scanned)
		w.Check(scanned == (err == nil), "record-and-error", "line %d %q: Scan is %v with error %v", i+2, abbreviate(line), scanned, err)
		w.Check(s.LineNumber() == i+2, "wrong-line-number", "line %d reported as line %d (error %v)", i+2, s.LineNumber(), err)
		if scanned {
			ex := s.Example()
			for _, l := range ex.Labels {
				w.Check(l >= 0 && l < labels, "out-of-bounds", "line %d %q: label %d of %d accepted", i+2, abbreviate(line), l, labels)
			}
			for _, p := range ex.Features {
				w.Check(p.Index >= 0 && p.Index < features, "out-of-bounds", "line %d %q: feature %d of %d accepted", i+2, abbreviate(line), p.Index, features)
			}
		}
		if len(rl.errs) > 0 {
			w.NonTrivial = true
			w.Hit("bad-line")
			if scanned && rl.ambiguous && len(rl.errs) == 0 {
				continue
			}
			w.Check(!scanned, "damage-accepted", "line %d %q accepted as %s", i+2, abbreviate(line), exString(s.Example()))
			kindOK := false
			for _, e := range xcErrors {
				if errors.Is(err, e) && (rl.errs[e] || rl.ambiguous) {
					kindOK = true
				}
			}
			w.Check(kindOK, "wrong-error", "line %d %q rejected with %v", i+2, abbreviate(line), err)
		} else if rl.ambiguous {
			w.Hit("ambiguous-number-syntax")
		} else {
			w.Check(scanned, "valid-rejected", "line %d %q rejected: %v", i+2, abbreviate(line), err)
			w.Check(sameExample(s.Example(), rl.ex), "record-differs", "line %d %q read as %s", i+2, abbreviate(line), exString(s.Example()))
		}
		if !scanned {
			for k := 0; k < 3; k++ {
				w.Check(!s.Scan(), "record-after-error", "a record was delivered after the error %v", err)
				w.Check(s.Err() == err, "error-not-sticky", "the error changed from %v to %v", err, s.Err())
				w.Check(s.LineNumber() == i+2, "wrong-line-number", "the line number moved after the error")
			}
			return
		}
	}
	w.Check(!s.Scan(), "record-invented", "a record after the last line: %s", exString(s.Example()))
	w.Check(s.Err() == nil, "spurious-error", "error at the end: %v", s.Err())
	w.NonTrivial = w.NonTrivial || len(ls) > 1
}

var xcErrors = []error{
	xcrepo.ErrMalformedHeader, xcrepo.ErrNotEnoughFields, xcrepo.ErrMalformedLabels, xcrepo.ErrMissingFeatures,
	xcrepo.ErrMalformedFeatures, xcrepo.ErrLabelOutOfBounds, xcrepo.ErrFeatureIndexOutOfBounds,
}

// C04: records already handed out are never altered.
func propC04(w *World) {
	environment(w, false)
	n := w.Int(1, 3)
	w.Schedule(true)
	type kept struct {
		ex, copy dataset.Example
		grown    dataset.Example // what its holder appended to it
		grownTo  dataset.Example
		dirty    bool
		scanner  int
		rec      int
	}
	var all []kept
	join := newGroup(w)
	for t := 0; t < n; t++ {
		t := t
		o := docDefaults
		o.maxRecs = 12
		d := genDoc(w, o)
		genFormat(w, d)
		rd := newSimReader(w, d.text).deliver()
		scribble := w.Int(0, 4)
		r := rand.New(rand.NewSource(w.Seed()))
		join.Go(fmt.Sprintf("scanner-%d", t), func() {
			var mine []int
			s := xcrepo.NewScanner(rd)
			checkHeader(w, s, d)
			for i := 0; s.Scan(); i++ {
				ex := s.Example()
				w.Check(i < len(d.recs) && sameExample(ex, d.recs[i]), "record-differs", "scanner %d: record %d is %s", t, i+1, exString(ex))
				all = append(all, kept{ex: ex, copy: cloneExample(ex), scanner: t, rec: i + 1})
				mine = append(mine, len(all)-1)
				if scribble == 0 || r.Intn(3) > 0 {
					continue
				}
				k := &all[mine[len(mine)-1]]
				if r.Intn(2) == 0 { // one of the records kept for longer
					k = &all[mine[r.Intn(len(mine))]]
				}
				ex = k.ex
				switch scribble {
				case 1: // overwrite
					for j := range ex.Labels {
						ex.Labels[j] = -77
					}
					for j := range ex.Features {
						ex.Features[j] = index_value.Pair{Index: -7, Value: -7}
					}
					k.dirty = true
				case 2: // grow
					_ = append(ex.Labels, -5, -5, -5)
					_ = append(ex.Features, index_value.Pair{Index: -9}, index_value.Pair{Index: -9})
				case 3: // grow and overwrite
					l := append(ex.Labels, -5)
					f := append(ex.Features, index_value.Pair{Index: -9})
					for j := range l {
						l[j] = -1
					}
					for j := range f {
						f[j].Index = -1
					}
					k.dirty = true
				case 4: // grow and keep
					k.grown.Labels = append(ex.Labels, r.Intn(1000))
					k.grown.Features = append(ex.Features, index_value.Pair{Index: r.Intn(1000), Value: 1})
					k.grownTo = cloneExample(k.grown)
				}
				w.Fault("caller-scribbles-on-record")
			}
			w.Check(s.Err() == nil, "spurious-error", "scanner %d: %v", t, s.Err())
			w.Check(s.LineNumber() == len(d.recs)+1, "record-lost", "scanner %d stopped at line %d of %d", t, s.LineNumber(), len(d.recs)+1)
		})
	}
	join.Wait()
	for _, k := range all {
		w.Check(sameExample(k.grown, k.grownTo), "record-altered", "what the holder of record %d of scanner %d made of it was %s and is %s later",
			k.rec, k.scanner, exString(k.grownTo), exString(k.grown))
		if !k.dirty {
			w.Check(sameExample(k.ex, k.copy), "record-altered", "record %d of scanner %d was %s when handed out and is %s later",
				k.rec, k.scanner, exString(k.copy), exString(k.ex))
		}
	}
	w.NonTrivial = len(all) > 1
}
