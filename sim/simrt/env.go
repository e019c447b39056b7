//go:build go1.22

package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math"
	mrand "math/rand"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- clock

// Clock is the only clock the code under test sees.
type Clock struct {
	w       *World
	now     int64
	Mode    ClockMode
	rng     *mrand.Rand
	Covered int64 // simulated time that passed (forward movement only)
}

type ClockMode int

const (
	ClockSteady ClockMode = iota // small forward steps
	ClockFrozen                  // coarse clock: repeated readings are equal
	ClockJumpy                   // forward and backward jumps
	ClockManual                  // moves only when the harness moves it
)

const clockBase = int64(1_600_000_000_000_000_000)

func newClock(w *World) *Clock {
	return &Clock{w: w, now: clockBase, rng: mrand.New(mrand.NewSource(1))}
}

// Set configures the clock.
func (c *Clock) Set(mode ClockMode, seed int64) {
	c.Mode = mode
	c.rng = mrand.New(mrand.NewSource(seed))
	c.now = clockBase + c.rng.Int63n(1<<55)
}

func (c *Clock) read() int64 {
	switch c.Mode {
	case ClockSteady:
		c.advance(1 + c.rng.Int63n(5_000_000))
	case ClockFrozen:
		c.w.Faults["clock-frozen-reading"]++
	case ClockJumpy:
		switch c.rng.Intn(4) {
		case 0:
			c.now -= c.rng.Int63n(3_600_000_000_000)
			c.w.Faults["clock-backward-jump"]++
		case 1:
			c.advance(c.rng.Int63n(86_400_000_000_000))
			c.w.Faults["clock-forward-jump"]++
		default:
			c.advance(c.rng.Int63n(1000))
		}
	}
	return c.now
}

// Advance moves the clock: the time something simulated takes.
func (c *Clock) Advance(d time.Duration) { c.advance(int64(d)) }

// Shift starts the clock at another date.
func (c *Clock) Shift(d time.Duration) { c.now += int64(d) }

func (c *Clock) advance(d int64) { c.now += d; c.Covered += d }

func Now() time.Time {
	if W == nil {
		return time.Unix(0, clockBase)
	}
	return time.Unix(0, W.Clock.read())
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if W != nil {
		W.Clock.advance(int64(d))
		W.Point()
	}
}

// ---------------------------------------------------------------- math/rand

// Stream is one stream of the global math/rand generator.
type Stream struct {
	r    *mrand.Rand
	adv  *mrand.Rand // non-nil: legal but extreme draws are mixed in
	last int
	N    int

	Small int // positive: whole-range draws stay below it
}

func NewStream(seed int64) *Stream { return &Stream{r: mrand.New(mrand.NewSource(seed))} }

// Adversarial makes one draw in four extreme (lowest, highest or repeated).
func (s *Stream) Adversarial(seed int64) { s.adv = mrand.New(mrand.NewSource(seed)) }

// initStream serves draws made during package initialisation.
var initStream = NewStream(1)

func stream() *Stream {
	if W == nil {
		return initStream
	}
	if W.cur != nil && W.cur.Rng != nil {
		return W.cur.Rng
	}
	return W.Rng
}

// entropySource is the source of maphash seeds and crypto/rand: the task's own if it
// has one.
func (w *World) entropySource() *mrand.Rand {
	if w.cur != nil && w.cur.Entropy != nil {
		return w.cur.Entropy
	}
	return w.entropy
}

func (s *Stream) intn(n int) int {
	s.N++
	v := s.r.Intn(n)
	if s.adv != nil && s.adv.Intn(4) == 0 {
		W.Faults["extreme-random-draw"]++
		switch s.adv.Intn(3) {
		case 0:
			v = 0
		case 1:
			v = n - 1
		default:
			v = s.last % n
		}
	}
	s.last = v
	return v
}

// int63 serves draws from the whole range of bits-bit non-negative numbers.
func (s *Stream) int63(bits uint) int {
	s.N++
	v := int(s.r.Int63() >> (63 - bits))
	if s.Small > 0 {
		W.Faults["extreme-random-draw"]++
		return v % s.Small
	}
	if s.adv != nil && s.adv.Intn(8) == 0 {
		W.Faults["extreme-random-draw"]++
		switch s.adv.Intn(3) {
		case 0:
			return 0
		case 1:
			return 1<<bits - 1
		}
		return v & 7
	}
	return v
}

func RandSeed(seed int64) {
	s := stream()
	s.r = mrand.New(mrand.NewSource(seed))
	if W != nil {
		W.Hit("global-rng-reseeded")
	}
}
func RandInt() int                   { return stream().int63(63) }
func RandIntn(n int) int             { return stream().intn(n) }
func RandInt31() int32               { return int32(stream().int63(31)) }
func RandInt31n(n int32) int32       { return int32(stream().intn(int(n))) }
func RandInt63() int64               { return int64(stream().int63(63)) }
func RandInt63n(n int64) int64       { return int64(stream().intn(int(n))) }
func RandUint32() uint32             { stream().N++; return stream().r.Uint32() }
func RandUint64() uint64             { stream().N++; return stream().r.Uint64() }
func RandFloat64() float64           { stream().N++; return stream().r.Float64() }
func RandFloat32() float32           { stream().N++; return stream().r.Float32() }
func RandNormFloat64() float64       { stream().N++; return stream().r.NormFloat64() }
func RandExpFloat64() float64        { stream().N++; return stream().r.ExpFloat64() }
func RandPerm(n int) []int           { stream().N++; return stream().r.Perm(n) }
func RandRead(p []byte) (int, error) { stream().N++; return stream().r.Read(p) }
func RandIntN(n int) int             { return stream().intn(n) }
func RandInt64() int64               { return RandInt63() }
func RandInt64N(n int64) int64       { return RandInt63n(n) }
func RandInt32() int32               { return RandInt31() }
func RandInt32N(n int32) int32       { return RandInt31n(n) }

func RandShuffle(n int, swap func(i, j int)) {
	s := stream()
	s.N++
	if s.adv != nil && n > 1 && s.adv.Intn(8) == 0 {
		// a legal outcome of Shuffle: the identity, or the reversal
		W.Faults["extreme-random-shuffle"]++
		if s.adv.Intn(2) == 0 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
		}
		return
	}
	s.r.Shuffle(n, swap)
}

// CryptoReader replaces crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) { return CryptoRead(p) }
func CryptoRead(p []byte) (int, error) {
	if W == nil {
		return initStream.r.Read(p)
	}
	return W.entropySource().Read(p)
}

// ---------------------------------------------------------------- hash/maphash

type MapHashSeed struct{ s uint64 }

func MakeMapHashSeed() MapHashSeed {
	if W == nil {
		return MapHashSeed{1}
	}
	return MapHashSeed{W.entropySource().Uint64() | 1}
}

// MapHash replaces maphash.Hash: a seeded hash, fixed for a given seed.
type MapHash struct {
	seed MapHashSeed
	h    uint64
	init bool
}

func (h *MapHash) ensure() {
	if !h.init {
		if h.seed.s == 0 {
			h.seed = MakeMapHashSeed()
		}
		h.Reset()
	}
}
func (h *MapHash) SetSeed(s MapHashSeed) { h.seed = s; h.Reset() }
func (h *MapHash) Seed() MapHashSeed     { h.ensure(); return h.seed }
func (h *MapHash) Reset()                { h.init = true; h.h = h.seed.s ^ 0x9ae16a3b2f90404f }
func (h *MapHash) Write(b []byte) (int, error) {
	h.ensure()
	for _, c := range b {
		h.h = (h.h ^ uint64(c)) * 0x100000001b3
		h.h ^= h.h >> 31
	}
	return len(b), nil
}
func (h *MapHash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *MapHash) WriteByte(b byte) error            { h.Write([]byte{b}); return nil }
func (h *MapHash) Sum64() uint64 {
	h.ensure()
	g := splitmix64{h.h}
	return g.next()
}
func (h *MapHash) Sum(b []byte) []byte {
	v := h.Sum64()
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}
func (h *MapHash) Size() int      { return 8 }
func (h *MapHash) BlockSize() int { return 128 }
func MapHashBytes(s MapHashSeed, b []byte) uint64 {
	var h MapHash
	h.SetSeed(s)
	h.Write(b)
	return h.Sum64()
}
func MapHashString(s MapHashSeed, b string) uint64 { return MapHashBytes(s, []byte(b)) }

// ---------------------------------------------------------------- files

// FS is the simulated file system.
type FS struct {
	w     *World
	Files map[string][]byte
	// OnOpen decides the fate of an open: an error, and the reader the handle
	// reads from (nil: the plain content).
	OnOpen    func(name string, nth int) (io.Reader, error)
	OnCreate  func(name string) (writeLimit int, err error) // writeLimit<0: none
	opens     map[string]int
	OpenCount int // handles open now
	MaxOpen   int // 0: no limit
	PeakOpen  int

	ProfileErr error // what starting the CPU profiler fails with
}

func newFS(w *World) *FS {
	return &FS{w: w, Files: map[string][]byte{}, opens: map[string]int{}}
}

// File replaces os.File.
type File struct {
	name   string
	r      io.Reader
	data   []byte
	pos    int64
	write  bool
	limit  int
	std    *[]byte
	closed bool
	fs     *FS
}

func theFS() *FS {
	if W == nil {
		return &FS{Files: map[string][]byte{}, opens: map[string]int{}}
	}
	return W.FS
}

func (f *FS) take(op, name string) error {
	if f.MaxOpen > 0 && f.OpenCount >= f.MaxOpen {
		if f.w != nil {
			f.w.Fault("descriptor-table-full")
		}
		return &fs.PathError{Op: op, Path: name, Err: syscall.EMFILE}
	}
	f.OpenCount++
	if f.OpenCount > f.PeakOpen {
		f.PeakOpen = f.OpenCount
	}
	return nil
}

func Open(name string) (*File, error) {
	f := theFS()
	nth := f.opens[name]
	f.opens[name]++
	data, ok := f.Files[name]
	var r io.Reader
	if f.OnOpen != nil {
		rr, err := f.OnOpen(name, nth)
		if err != nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: err}
		}
		r = rr
	}
	if !ok && r == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if err := f.take("open", name); err != nil {
		return nil, err
	}
	return &File{name: name, r: r, data: data, fs: f}, nil
}

func Create(name string) (*File, error) {
	f := theFS()
	limit := -1
	if f.OnCreate != nil {
		l, err := f.OnCreate(name)
		if err != nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: err}
		}
		limit = l
	}
	if err := f.take("open", name); err != nil {
		return nil, err
	}
	f.Files[name] = nil
	return &File{name: name, write: true, limit: limit, fs: f}, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		return Create(name)
	}
	return Open(name)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	// the same growth pattern as os.ReadFile
	data := make([]byte, 0, 512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := Create(name)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func (f *File) check(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: fs.ErrClosed}
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.r != nil {
		n, err := f.r.Read(p)
		if err != nil && err != io.EOF {
			err = &fs.PathError{Op: "read", Path: f.name, Err: err}
		}
		return n, err
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != nil {
		*f.std = append(*f.std, p...)
		return len(p), nil
	}
	if !f.write {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	n := len(p)
	var err error
	if f.limit >= 0 && n > f.limit {
		n = f.limit
		err = &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
		if f.fs.w != nil {
			f.fs.w.Fault("disk-full")
		}
	}
	if f.limit >= 0 {
		f.limit -= n
	}
	f.fs.Files[f.name] = append(f.fs.Files[f.name], p[:n]...)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error                       { return f.check("sync") }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.data)) + off
	}
	if s, ok := f.r.(io.Seeker); ok {
		return s.Seek(off, whence)
	}
	return f.pos, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type fileInfo struct {
	name string
	size int64
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() fs.FileMode  { return 0644 }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, clockBase) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() any           { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return fileInfo{f.name, int64(len(f.data))}, nil
}

func Stat(name string) (fs.FileInfo, error) {
	f := theFS()
	d, ok := f.Files[name]
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return fileInfo{name, int64(len(d))}, nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std != nil {
		return nil
	}
	f.closed = true
	f.fs.OpenCount--
	return nil
}

// ---------------------------------------------------------------- streams, process

type stdWriter struct{ err bool }

func (s stdWriter) Write(p []byte) (int, error) {
	if W != nil {
		if s.err {
			W.StderrB = append(W.StderrB, p...)
		} else {
			W.StdoutB = append(W.StdoutB, p...)
		}
	}
	return len(p), nil
}

var sinkOut, sinkErr []byte

// Stdout, Stderr and Stdin replace those of package os.
var (
	Stdout = &File{name: "/dev/stdout", std: &sinkOut}
	Stderr = &File{name: "/dev/stderr", std: &sinkErr}
	Stdin  = &File{name: "/dev/stdin"}
)

// StderrText is what the code under test wrote to standard error.
func StderrText() string { return string(sinkErr) }

// StdoutText is what the code under test wrote to standard output.
func StdoutText() string { return string(sinkOut) }

func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(Stdout, format, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(Stdout, a...) }
func Print(a ...any) (int, error)                 { return fmt.Fprint(Stdout, a...) }

// Args replaces os.Args.
var Args = []string{"goslide"}

// Exit replaces os.Exit: the simulated process ends here, without running
// deferred calls; its tasks never run again.
func Exit(code int) {
	w := W
	if w == nil || w.cur == nil {
		panic(fmt.Sprintf("exit(%d) outside a simulated process", code))
	}
	w.Exited, w.ExitCode = true, code
	w.Logf("process exit, status %d", code)
	w.cur.done = true
	w.settle()
	w.back <- struct{}{}
	select {}
}

// Logger replaces log.Logger.
type Logger struct{ *log.Logger }

func LogNew(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{log.New(out, prefix, flag)}
}
func (l *Logger) Fatal(v ...any)                 { l.Output(2, fmt.Sprint(v...)); Exit(1) }
func (l *Logger) Fatalf(format string, v ...any) { l.Output(2, fmt.Sprintf(format, v...)); Exit(1) }
func (l *Logger) Fatalln(v ...any)               { l.Output(2, fmt.Sprintln(v...)); Exit(1) }

var stdLogger = &Logger{log.New(Stderr, "", 0)}

func LogDefault() *Logger               { return stdLogger }
func LogFatal(v ...any)                 { stdLogger.Fatal(v...) }
func LogFatalf(format string, v ...any) { stdLogger.Fatalf(format, v...) }
func LogFatalln(v ...any)               { stdLogger.Fatalln(v...) }
func LogPrint(v ...any)                 { stdLogger.Print(v...) }
func LogPrintf(format string, v ...any) { stdLogger.Printf(format, v...) }
func LogPrintln(v ...any)               { stdLogger.Println(v...) }
func LogPanic(v ...any)                 { stdLogger.Panic(v...) }
func LogPanicf(format string, v ...any) { stdLogger.Panicf(format, v...) }
func LogSetFlags(int)                   {}
func LogSetPrefix(string)               {}
func LogSetOutput(io.Writer)            {}

// pprof stand-ins: write a fixed payload, no background profiler.
var cpuProfile io.Writer

func StartCPUProfile(w io.Writer) error {
	if cpuProfile != nil {
		return errors.New("cpu profiling already in use")
	}
	if W != nil && W.FS.ProfileErr != nil {
		return W.FS.ProfileErr
	}
	cpuProfile = w
	return nil
}
func StopCPUProfile() {
	if cpuProfile != nil {
		cpuProfile.Write([]byte("simulated cpu profile"))
		cpuProfile = nil
	}
}
func WriteHeapProfile(w io.Writer) error {
	_, err := w.Write([]byte("simulated heap profile"))
	return err
}

func NumCPU() int          { return 4 }
func GOMAXPROCS(n int) int { return 4 }
func Gosched() {
	if W != nil {
		W.Point()
	}
}

// ---------------------------------------------------------------- sync

// Mutex, RWMutex, WaitGroup, Once and Pool replace those of package sync: they
// block through the simulator's scheduler.
type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	if W != nil && W.cur != nil {
		W.Wait(func() bool { return !m.held })
	}
	m.held = true
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if W != nil && W.cur != nil {
		W.Wait(func() bool { return !m.w && m.r == 0 })
	}
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	if W != nil && W.cur != nil {
		W.Wait(func() bool { return !m.w })
	}
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if W != nil && W.cur != nil {
		W.Wait(func() bool { return g.n == 0 })
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() { defer g.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool hands the most recently returned object to the next caller, whichever
// task that is: the reuse a real pool is allowed to make.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

// Go replaces the go statement.
func Go(f func()) {
	if W == nil {
		go f()
		return
	}
	W.Go(fmt.Sprintf("goroutine-%d", W.spawned), f)
}

// Chan operations of the code under test, made cooperative. A channel that is
// unbuffered in the code has been given a buffer of one by the instrumenter.
func Send[T any](c chan<- T, v T) {
	if W == nil || W.cur == nil {
		c <- v
		return
	}
	W.Wait(func() bool { return len(c) < cap(c) })
	c <- v
}

func Recv[T any](c <-chan T) T { v, _ := Recv2(c); return v }

func Recv2[T any](c <-chan T) (T, bool) {
	if W == nil || W.cur == nil {
		v, ok := <-c
		return v, ok
	}
	var got T
	var ok, have bool
	W.Wait(func() bool {
		if have {
			return true
		}
		select {
		case got, ok = <-c:
			have = true
			return true
		default:
			return false
		}
	})
	return got, ok
}

var _ = math.MaxInt64
