//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

// doc is a generated dataset: its bytes and what they mean.
type doc struct {
	points, features, labels int
	recs                     []dataset.Example
	lines                    []string
	eol                      string
	finalEol                 bool
	mixed                    *mrand.Rand
	odd                      bool // unusual ways of writing the numbers
	text                     []byte
}

type docOpts struct {
	maxRecs, maxFeatures, maxLabels int
	features, labels                int // fixed when > 0
	long                            bool
	wide                            bool // now and then dimensions of real data sets and beyond
	minLabels                       int
	maxPerRec                       int
	value                           func(r *mrand.Rand) float64
	plainValues                     bool
	distinctLabels                  bool
	maxLabelsPerRec                 int  // with distinctLabels
	fixedRecs                       int  // > 0 exactly, -1 none
	dupLabels                       bool // with distinctLabels: now and then one of them twice
	oddForms                        bool // now and then unusual number syntax and announced counts
}

func fmtFloat(r *mrand.Rand, v float64) string {
	switch r.Intn(4) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case 2:
		if v == math.Trunc(v) && math.Abs(v) < 1e6 {
			return strconv.Itoa(int(v))
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

// oddFloat writes a value in one of the less usual ways.
func oddFloat(r *mrand.Rand, v float64) string {
	t := strconv.FormatFloat(v, 'f', -1, 64)
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(strconv.FormatFloat(v, 'e', -1, 64))
	case 1:
		if !strings.Contains(t, ".") {
			return t + "."
		}
		return t + "000"
	case 2:
		if strings.HasPrefix(t, "0.") {
			return t[1:]
		}
		return strings.Replace(t, "-0.", "-.", 1)
	case 3:
		if v >= 0 && !math.Signbit(v) {
			return "00" + t
		}
	case 4: // digits beyond what a float64 holds
		return strconv.FormatFloat(v, 'e', 25, 64)
	}
	return strconv.FormatFloat(v, 'e', -1, 64)
}

func oddInt(r *mrand.Rand, v int) string {
	return "0000000"[:r.Intn(4)] + strconv.Itoa(v)
}

func genValue(r *mrand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return 1
	case 1:
		return float64(r.Intn(100))
	case 2:
		return -r.Float64()
	case 3:
		return r.NormFloat64() * math.Pow(10, float64(r.Intn(12)-6))
	}
	return float64(r.Intn(1_000_000)) / 1_000_000
}

// extremeValue draws values at the ends of the range of a float64.
func extremeValue(r *mrand.Rand) float64 {
	switch r.Intn(7) {
	case 0:
		return math.MaxFloat64
	case 1:
		return -math.SmallestNonzeroFloat64 * float64(1+r.Intn(9))
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return float64(1<<53 + r.Int63n(1<<40)*2)
	case 4:
		return math.Nextafter(1, 2)
	}
	for {
		v := math.Float64frombits(r.Uint64())
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			return v
		}
	}
}

func genDoc(w *World, o docOpts) *doc {
	d := &doc{eol: "\n", finalEol: true}
	d.features = o.features
	if d.features == 0 {
		d.features = w.Int(1, o.maxFeatures)
	}
	d.labels = o.labels
	if d.labels == 0 {
		d.labels = w.Int(1, o.maxLabels)
	}
	n := o.fixedRecs
	if n == 0 {
		n = w.Int(0, o.maxRecs)
	} else if n < 0 {
		n = 0
	}
	manyLabels, maxPer := 5, o.maxPerRec
	if maxPer == 0 {
		maxPer = 12
	}
	if w.Chance(1, 10) {
		manyLabels = 20
	}
	value := o.value
	if o.wide && w.Chance(1, 14) {
		switch w.Int(0, 5) {
		case 0:
			d.features = simrt.Pick(w, 135_909, 782_585, 1<<31-1, 1<<31, 1<<32+5, 1<<53+1, math.MaxInt64)
			w.Hit("huge-feature-space")
		case 1:
			d.labels = simrt.Pick(w, 670_091, 1<<16+1, 1<<31, 1<<32+5, 1<<53+1, math.MaxInt64)
			w.Hit("huge-label-space")
		case 2:
			d.labels = max(d.labels, 100)
			manyLabels = w.Int(20, 900)
			w.Hit("many-labels-per-record")
		case 3:
			value = extremeValue
			w.Hit("extreme-values")
		case 4:
			n = w.Int(200, 4000)
			maxPer, manyLabels = 3, 2
			w.Hit("many-records")
		case 5:
			d.features = max(d.features, 1000)
			maxPer = w.Int(50, 900)
			w.Hit("many-features-per-record")
			if w.Chance(1, 40) {
				n, maxPer, manyLabels = w.Int(65_600, 70_000), 1, 1
				w.Hit("more-than-65536-records")
			}
		}
	}
	d.points = n
	if n == 0 {
		d.points = 1
	}
	if o.oddForms {
		if w.Chance(1, 10) {
			d.odd = true
			w.Hit("unusual-number-syntax")
		}
		if w.Chance(1, 12) {
			d.points = max(1, simrt.Pick(w, n-1, n+1, n/2, 1, 2*n, 1_000_000_000, math.MaxInt64))
			w.Hit("announced-count-off")
		}
	}
	longAt := -1
	if o.long && n > 0 && w.Chance(1, 12) {
		longAt = w.Int(0, n-1)
		w.Hit("line-longer-than-64KiB")
	}
	r := w.Rand()
	if value == nil {
		value = genValue
	}
	for i := 0; i < n; i++ {
		ex := dataset.Example{}
		nl := o.minLabels
		if d.labels > nl {
			nl += r.Intn(min(manyLabels, d.labels-nl) + 1)
		}
		if o.distinctLabels {
			nl = min(nl, d.labels, o.maxLabelsPerRec)
			ex.Labels = append(ex.Labels, r.Perm(d.labels)[:nl]...)
			if o.dupLabels && nl > 0 && r.Intn(8) == 0 {
				ex.Labels = append(ex.Labels, ex.Labels[r.Intn(nl)])
			}
		} else {
			for j := 0; j < nl; j++ {
				ex.Labels = append(ex.Labels, r.Intn(d.labels))
			}
		}
		nf := 1 + r.Intn(min(maxPer, d.features))
		var idx []int
		if d.features <= 1000 {
			idx = r.Perm(d.features)[:nf]
		} else {
			for k := 0; k < nf; k++ {
				x := r.Intn(d.features)
				switch r.Intn(20) {
				case 0:
					x = d.features - 1
				case 1:
					x = min(x, r.Intn(300))
				}
				idx = append(idx, x)
			}
		}
		if !o.distinctLabels && len(idx) > 1 && r.Intn(8) == 0 {
			// nothing keeps a text from naming a feature twice
			idx[r.Intn(len(idx))] = idx[r.Intn(len(idx))]
		}
		if r.Intn(4) > 0 {
			sort.Ints(idx)
		}
		if i == longAt {
			// many features: the line exceeds 64 KiB
			idx = nil
			n := 9000 + r.Intn(9000)
			if r.Intn(8) == 0 {
				n = 100_000 + r.Intn(100_000)
			}
			for k := 0; k < n; k++ {
				idx = append(idx, r.Intn(d.features))
			}
		}
		for _, f := range idx {
			ex.Features = append(ex.Features, index_value.Pair{Index: f, Value: value(r)})
		}
		d.add(r, ex)
	}
	return d
}

func (d *doc) add(r *mrand.Rand, ex dataset.Example) {
	var b strings.Builder
	for j, l := range ex.Labels {
		if j > 0 {
			b.WriteByte(',')
		}
		if d.odd && r.Intn(3) == 0 {
			b.WriteString(oddInt(r, l))
		} else {
			b.WriteString(strconv.Itoa(l))
		}
	}
	for k := range ex.Features {
		p := &ex.Features[k]
		i, t := strconv.Itoa(p.Index), fmtFloat(r, p.Value)
		if d.odd && r.Intn(3) == 0 {
			t = oddFloat(r, p.Value)
		}
		if d.odd && r.Intn(3) == 0 {
			i = oddInt(r, p.Index)
		}
		p.Value, _ = strconv.ParseFloat(t, 64)
		b.WriteByte(' ')
		b.WriteString(i)
		b.WriteByte(':')
		b.WriteString(t)
	}
	d.recs = append(d.recs, ex)
	d.lines = append(d.lines, b.String())
}

func (d *doc) header() string { return fmt.Sprintf("%d %d %d", d.points, d.features, d.labels) }

// render makes the bytes of the document.
func (d *doc) render() []byte {
	var b strings.Builder
	b.WriteString(d.header())
	eol := func() string {
		if d.mixed != nil && d.mixed.Intn(2) == 0 {
			return "\r\n"
		}
		return d.eol
	}
	for _, l := range d.lines {
		b.WriteString(eol())
		b.WriteString(l)
	}
	if d.finalEol {
		b.WriteString(eol())
	}
	d.text = []byte(b.String())
	return d.text
}

func sameExample(a, b dataset.Example) bool {
	if len(a.Labels) != len(b.Labels) || len(a.Features) != len(b.Features) {
		return false
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return false
		}
	}
	for i := range a.Features {
		if a.Features[i].Index != b.Features[i].Index ||
			math.Float64bits(a.Features[i].Value) != math.Float64bits(b.Features[i].Value) {
			return false
		}
	}
	return true
}

func cloneExample(a dataset.Example) dataset.Example {
	return dataset.Example{
		Features: append([]index_value.Pair(nil), a.Features...),
		Labels:   append([]int(nil), a.Labels...),
	}
}

func exString(a dataset.Example) string {
	f := a.Features
	if len(f) > 12 {
		f = f[:12]
	}
	return fmt.Sprintf("labels=%v features(%d)=%v", a.Labels, len(a.Features), f)
}

// ---------------------------------------------------------------- readers

// simReader is a reader that does everything the io.Reader contract allows.
type simReader struct {
	w      *World
	data   []byte
	pos    int
	policy int
	r      *mrand.Rand
	point  bool // a scheduling point at every read

	eofWithData bool
	zeroReads   bool
	scribble    bool

	failAt   int // < 0: no failure
	failErr  error
	failWith bool // the failing read also returns bytes
	resume   bool // reads succeed again after the failure
	failed   bool
	stall    bool // instead of failing: empty reads for ever
	fired    bool

	before int // bytes delivered by reads before the failing one
	total  int // bytes delivered up to and including the failing read
	reads  int
	zeros  int
}

func newSimReader(w *World, data []byte) *simReader {
	return &simReader{w: w, data: data, failAt: -1, r: mrand.New(mrand.NewSource(1))}
}

// deliver draws how the bytes are delivered.
func (s *simReader) deliver() *simReader {
	w := s.w
	s.policy = w.Int(0, 5)
	s.eofWithData = w.Chance(1, 3)
	s.zeroReads = w.Chance(1, 3)
	s.scribble = w.Chance(1, 4)
	s.r = w.Rand()
	return s
}

func (s *simReader) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 5_000_000 {
		s.w.Fail("reader-spun", "the code under test read 5000000 times from a stream of %d bytes", len(s.data))
	}
	if s.point {
		s.w.Point()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.failed && !s.resume {
		return 0, s.failErr
	}
	limit := len(s.data)
	if s.failAt >= 0 && !s.failed {
		limit = s.failAt
	}
	atFail := s.failAt >= 0 && !s.failed && s.pos >= limit
	if atFail {
		if s.stall {
			if !s.fired {
				s.fired = true
				s.before, s.total = s.pos, s.pos
				s.w.Fault("stalled-reader")
			}
			return 0, nil
		}
		s.fired, s.failed = true, true
		s.before, s.total = s.pos, s.pos
		s.w.Fault("read-error")
		return 0, s.failErr
	}
	if s.pos >= len(s.data) {
		return 0, io.EOF
	}
	if s.zeroReads && s.zeros < 20 && s.r.Intn(3) == 0 {
		s.zeros++
		s.w.Fault("empty-read")
		return 0, nil
	}
	s.zeros = 0
	n := min(len(p), limit-s.pos)
	short := n
	switch s.policy {
	case 1:
		short = 1
	case 2:
		short = 1 + s.r.Intn(16)
	case 3:
		short = 1 + s.r.Intn(600)
	case 4:
		// stop right before or after a line end
		for i := 1; i < n; i++ {
			if s.data[s.pos+i-1] == '\n' || s.data[s.pos+i] == '\n' {
				short = i
				break
			}
		}
	case 5:
		short = 1 + s.r.Intn(n)
	}
	if len(s.data) > 1<<15 && s.policy >= 1 && s.policy <= 3 && s.r.Intn(64) > 0 {
		short = 1 + s.r.Intn(8192) // tiny reads all along would take hours
	}
	if short < n {
		n = short
		s.w.Faults["short-read"]++
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	if s.scribble {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = "9 1:7\n,x"[i%8]
		}
		s.w.Faults["scratch-space-scribbled"]++
	}
	start := s.pos
	s.pos += n
	if s.failAt >= 0 && !s.failed && s.pos >= limit && s.failWith && !s.stall {
		s.fired, s.failed = true, true
		s.before, s.total = start, s.pos
		s.w.Fault("read-error-with-data")
		return n, s.failErr
	}
	if s.failAt < 0 && s.eofWithData && s.pos >= len(s.data) {
		s.w.Fault("eof-with-data")
		return n, io.EOF
	}
	return n, nil
}

var readErrors = []error{
	errors.New("injected: device error"),
	syscall.EIO,
	syscall.EINTR,
	io.ErrUnexpectedEOF,
	fmt.Errorf("injected wrapper: %w", io.EOF),
	syscall.ESTALE,
}

// fail draws a failing read at an offset.
func (s *simReader) fail() *simReader {
	w := s.w
	s.failAt = w.Int(0, len(s.data))
	s.failErr = readErrors[w.Int(0, len(readErrors)-1)]
	s.failWith = w.Chance(1, 3)
	s.resume = w.Chance(1, 3)
	return s
}

// ---------------------------------------------------------------- reference parser

var plainInt = regexp.MustCompile(`^-?[0-9]{1,30}$`)
var plainFloat = regexp.MustCompile(`^-?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// refLine is what a line means, by the format's definition.
type refLine struct {
	ex        dataset.Example
	errs      map[error]bool // the rules it violates
	ambiguous bool           // number syntax the format does not pin down
}

// refInt: value, valid, ambiguous.
func refInt(s string) (int, bool, bool) {
	if plainInt.MatchString(s) {
		v, err := strconv.Atoi(s)
		return v, err == nil, false
	}
	_, err := strconv.Atoi(s)
	if err == nil {
		return 0, false, true
	}
	return 0, false, strings.ContainsAny(s, "_+xXoObB") && hasDigit(s)
}

func hasDigit(s string) bool { return strings.ContainsAny(s, "0123456789") }

func refFloat(s string) (float64, bool, bool) {
	if plainFloat.MatchString(s) {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return 0, false, false // no float64 is that large
		}
		return v, true, false
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return 0, false, true
	}
	return 0, false, strings.ContainsAny(s, "_xXpP+nNiI") && len(s) > 0
}

func refParse(line string, features, labels int) refLine {
	rl := refLine{errs: map[error]bool{}}
	parts := strings.Split(line, " ")
	if parts[0] != "" {
		for _, t := range strings.Split(parts[0], ",") {
			v, ok, amb := refInt(t)
			switch {
			case amb:
				rl.ambiguous = true
			case !ok:
				rl.errs[xcrepo.ErrMalformedLabels] = true
				if plainInt.MatchString(t) { // does not fit an int
					rl.errs[xcrepo.ErrLabelOutOfBounds] = true
				}
			case v < 0 || v >= labels:
				rl.errs[xcrepo.ErrLabelOutOfBounds] = true
			default:
				rl.ex.Labels = append(rl.ex.Labels, v)
			}
		}
	}
	if len(parts) == 1 {
		rl.errs[xcrepo.ErrMissingFeatures] = true
	}
	for _, t := range parts[1:] {
		iv := strings.Split(t, ":")
		if len(iv) != 2 {
			rl.errs[xcrepo.ErrMalformedFeatures] = true
			continue
		}
		i, ok, amb := refInt(iv[0])
		if amb {
			rl.ambiguous = true
		} else if !ok {
			rl.errs[xcrepo.ErrMalformedFeatures] = true
			if plainInt.MatchString(iv[0]) {
				rl.errs[xcrepo.ErrFeatureIndexOutOfBounds] = true
			}
		} else if i < 0 || i >= features {
			rl.errs[xcrepo.ErrFeatureIndexOutOfBounds] = true
		}
		v, ok, amb := refFloat(iv[1])
		if amb {
			rl.ambiguous = true
		} else if !ok {
			rl.errs[xcrepo.ErrMalformedFeatures] = true
		}
		rl.ex.Features = append(rl.ex.Features, index_value.Pair{Index: i, Value: v})
	}
	return rl
}

// refLines splits bytes into lines: LF or CRLF ended, the last one may be open.
func refLines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := string(b)
	ls := strings.Split(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\r")
	}
	return ls
}

// refHeader: dimensions, valid, ambiguous.
func refHeader(line string) (dims [3]int, ok, amb bool) {
	parts := strings.Split(line, " ")
	if len(parts) != 3 {
		return dims, false, false
	}
	ok = true
	for i, t := range parts {
		v, good, a := refInt(t)
		if a {
			amb = true
		} else if !good || v <= 0 {
			ok = false
		}
		dims[i] = v
	}
	return dims, ok, amb && ok
}
