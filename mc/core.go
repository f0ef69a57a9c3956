// Package mc is a small stateless model checker for Go code.
//
// The code under test is rewritten (see ../instr) so that every goroutine,
// channel operation, select, lock, atomic, timer and map iteration goes through
// this package. Exactly one thread runs at a time; before each visible operation
// the running thread calls the scheduler, which picks the next thread among the
// enabled ones. Every nondeterministic decision (which thread, which ready select
// case, which environment answer) is one entry in a choice sequence, and the
// explorer (explore.go) enumerates choice sequences exhaustively within a
// deviation (preemption) bound.
package mc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
	"weak"
)

// Thread is one virtual goroutine.
type Thread struct {
	id     int
	name   string
	lib    bool // started by the code under test
	wake   chan struct{}
	exit   chan struct{}
	en     func() bool          // pending operation enabled? nil: yes
	dl     func() (int64, bool) // virtual deadline of the pending operation
	what   string
	pend   *pend
	low    bool // only runs when nothing else can (quiescence waiter)
	done   bool
	killed bool
	steps  int
}

type point struct {
	n    int    // number of options
	cur  bool   // sched point where option 0 is "stay on the running thread"
	clk  bool   // last option is "advance the clock early"
	kind byte   // 's' schedule, 'c' free choice, 'd' deviating choice
	cost int    // cost accumulated before this point
	pick uint16 // option taken
}

// costOf is the deviation cost of option k: every scheduling decision that
// differs from the default (stay on the running thread, else round robin) and
// every deviating environment answer costs one.
func (p *point) costOf(k int) int {
	if k == 0 || p.kind == 'c' {
		return 0
	}
	return 1
}

// Failure is a property violation found in one execution.
type Failure struct {
	Kind string // "assert", "deadlock", "panic", "steps", "race"
	Msg  string
}

// Config of one execution.
type Config struct {
	Horizon  int64 // virtual nanoseconds after which time no longer advances
	TimeDev  bool  // early clock advances are explored as deviations
	MaxSteps int
	Trace    bool
	Weak     bool // the checker keeps no object of the program alive
}

type wreg struct {
	id int
	w  weak.Pointer[byte]
}

// Exec is one execution.
type Exec struct {
	cfg      Config
	threads  []*Thread
	cur      *Thread
	now      int64
	timers   []*vtimer
	tseq     int
	prefix   []uint16
	points   []point
	cost     int
	steps    int
	fail     *Failure
	diverged string
	over     bool
	killing  bool
	ended    chan struct{}
	regs     map[unsafe.Pointer]int
	wregs    map[uintptr]wreg // with Config.Weak, in place of regs
	nreg     int
	pools    []*Pool          // with Config.Weak
	regl     []unsafe.Pointer // with the race detector
	opts     []*Thread
	trace    []string
	epoch    int
	fairAt   int // the step at which fair scheduling last let time pass
	obs      []string
	outcome  strings.Builder
	natives  []native
	live     int
}

var (
	e          *Exec
	epochCount int
)

// Active reports whether code runs under the checker.
func Active() bool { return e != nil }

// dead: the execution is over; operations of leftover threads must not act.
func dead() bool { return e.killing || e.over }

// Failf records a violation and ends the execution.
func Failf(format string, args ...any) {
	fail("assert", fmt.Sprintf(format, args...))
}

func fail(kind, msg string) {
	if e == nil {
		panic(msg)
	}
	if dead() {
		runtime.Goexit()
	}
	if e.fail == nil {
		e.fail = &Failure{kind, msg}
	}
	finish()
	runtime.Goexit()
}

func finish() {
	if !e.over {
		e.over = true
		close(e.ended)
	}
}

// Tracef adds a line to the trace of the execution (only when tracing).
func Tracef(format string, args ...any) {
	if e != nil && e.cfg.Trace && !e.killing {
		name := "?"
		if e.cur != nil {
			name = fmt.Sprintf("T%d(%s)", e.cur.id, e.cur.name)
		}
		e.trace = append(e.trace, fmt.Sprintf("%6.3fs %-22s %s", float64(e.now)/1e9, name, fmt.Sprintf(format, args...)))
	}
}

// Outcome appends to the observation string of the execution (used to count
// distinct observed outcomes).
func Outcome(format string, args ...any) {
	if e != nil && !e.killing {
		fmt.Fprintf(&e.outcome, format, args...)
		e.outcome.WriteByte(';')
	}
}

func newThread(name string, lib bool, fn func()) *Thread {
	ex := e
	t := &Thread{id: len(ex.threads), name: name, lib: lib, wake: make(chan struct{}, 1), exit: make(chan struct{}), what: "start"}
	ex.threads = append(ex.threads, t)
	go func() {
		defer close(t.exit)
		raceDisable()
		<-t.wake
		raceEnable()
		if t.killed {
			return
		}
		normal := false
		defer func() {
			if ex.killing || t.killed || ex.over {
				if r := recover(); r != nil && !normal {
					_ = r
				}
				return
			}
			if !normal {
				if r := recover(); r != nil {
					msg := fmt.Sprintf("panic in %s: %v", t.name, r)
					if ex.cfg.Trace {
						msg += "\n" + string(debug.Stack())
					}
					if ex.fail == nil {
						ex.fail = &Failure{"panic", msg}
					}
					finish()
					return
				}
				// runtime.Goexit in the code under test: treat as thread end
			}
			raceReleaseMerge(unsafe.Pointer(t))
			t.done = true
			t.en, t.dl, t.pend = nil, nil, nil
			if t.id == 0 {
				finish()
				return
			}
			raceDisable()
			n := pick(nil)
			if n != nil {
				e.cur = n
				n.wake <- struct{}{}
			}
			raceEnable()
		}()
		fn()
		normal = true
	}()
	return t
}

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	if e == nil {
		go fn()
		return
	}
	if dead() {
		return
	}
	name := "lib"
	if pc, _, _, ok := runtime.Caller(1); ok {
		name = runtime.FuncForPC(pc).Name()
		if i := strings.LastIndexByte(name, '/'); i >= 0 {
			name = name[i+1:]
		}
	}
	newThread(name, true, fn)
}

// Handle of a harness thread.
type Handle struct{ t *Thread }

// Spawn starts a harness thread.
func Spawn(name string, fn func()) *Handle {
	return &Handle{newThread(name, false, fn)}
}

// Done reports whether the thread has finished.
func (h *Handle) Done() bool { return h.t.done }

// Join waits for harness threads.
func Join(hs ...*Handle) {
	for _, h := range hs {
		h := h
		Block("join "+h.t.name, func() bool { return h.t.done })
		// thread termination happens before Join returns (as with a WaitGroup)
		raceAcquire(unsafe.Pointer(h.t))
	}
}

// Point is a scheduling point with an always enabled operation.
func Point(what string) {
	if e == nil {
		return
	}
	yield(what, nil, nil)
}

// Block waits until en() holds.
func Block(what string, en func() bool) {
	if e == nil {
		if !en() {
			panic("mc: block outside an execution: " + what)
		}
		return
	}
	yield(what, en, nil)
}

// BlockDeadline waits until en() holds; the clock may advance to dl().
// en must itself become true when Now() >= dl.
func BlockDeadline(what string, en func() bool, dl func() (int64, bool)) {
	yield(what, en, dl)
}

// Quiesce blocks until no other thread can run without time advancing.
func Quiesce() {
	if dead() {
		runtime.Goexit()
	}
	t := e.cur
	t.low = true
	yield("quiesce", nil, nil)
	t.low = false
}

// Sleep lets virtual time advance by d nanoseconds (everything else runs).
func SleepNs(d int64) {
	until := e.now + d
	yield("sleep", func() bool { return e.now >= until }, func() (int64, bool) { return until, true })
}

// NowNs is the virtual time.
func NowNs() int64 {
	if e == nil {
		return 0
	}
	return e.now
}

// SetHorizon changes the time horizon (absolute virtual ns).
func SetHorizon(ns int64) { e.cfg.Horizon = ns }

// LiveLib lists library threads that have not terminated.
func LiveLib() []string {
	var out []string
	for _, t := range e.threads {
		if t.lib && !t.done {
			out = append(out, fmt.Sprintf("%s[%s]", t.name, t.what))
		}
	}
	return out
}

// yield is the scheduling point: the current thread announces its next
// operation and resumes when the scheduler selects it.
func yield(what string, en func() bool, dl func() (int64, bool)) {
	if dead() {
		runtime.Goexit()
	}
	t := e.cur
	t.what, t.en, t.dl = what, en, dl
	e.steps++
	t.steps++
	if e.steps > e.cfg.MaxSteps {
		// the second half of the steps was scheduled fairly
		fail("steps", fmt.Sprintf("livelock: thread %s keeps running (%s) after %d steps", t.name, what, e.steps))
	}
	raceDisable()
	n := pick(t)
	if n == nil {
		// execution is over; wait to be killed
		<-t.wake
		raceEnable()
		runtime.Goexit()
	}
	if n != t {
		e.cur = n
		n.wake <- struct{}{}
		<-t.wake
		raceEnable()
		if t.killed {
			runtime.Goexit()
		}
	} else {
		raceEnable()
	}
	t.en, t.dl = nil, nil
	if e.cfg.Trace {
		Tracef("%s", what)
	}
}

// pick chooses the thread to run next; nil means the execution is over.
func pick(t *Thread) *Thread {
	for {
		opts := e.opts[:0]
		curEn := t != nil && !t.low && (t.en == nil || t.en())
		if curEn {
			opts = append(opts, t)
		}
		// round robin from the current thread keeps default schedules natural
		n := len(e.threads)
		start := 0
		if e.cur != nil {
			start = e.cur.id + 1
		}
		for i := 0; i < n; i++ {
			u := e.threads[(start+i)%n]
			if u == t && curEn || u.done || u.low {
				continue
			}
			if u.en == nil || u.en() {
				opts = append(opts, u)
			}
		}
		e.opts = opts
		if len(opts) == 0 {
			for _, u := range e.threads {
				if u.low && !u.done {
					return u
				}
			}
			if !advance() {
				var b strings.Builder
				for _, u := range e.threads {
					if !u.done {
						fmt.Fprintf(&b, " %s blocked in %s;", u.name, u.what)
					}
				}
				if e.fail == nil {
					e.fail = &Failure{"deadlock", "deadlock: some call never returns:" + b.String()}
				}
				finish()
				return nil
			}
			continue
		}
		if e.steps > e.cfg.MaxSteps/2 {
			// far longer than any execution should take: everybody gets their turn
			// and time passes, so what waits for something gets it
			if e.steps%256 == 0 && e.fairAt != e.steps {
				e.fairAt = e.steps
				if advance() {
					continue
				}
			}
			if e.steps%16 == 0 {
				return opts[len(opts)-1-(e.steps/16)%len(opts)]
			}
			return opts[0]
		}
		k := len(opts)
		clk := false
		if e.cfg.TimeDev {
			if _, ok := nextEvent(); ok {
				clk = true
				k++
			}
		}
		if k == 1 {
			return opts[0]
		}
		c := choose(point{n: k, cur: curEn, clk: clk, kind: 's'})
		if e.over {
			return nil
		}
		if clk && c == k-1 {
			advance()
			continue
		}
		return opts[c]
	}
}

func choose(p point) int {
	p.cost = e.cost
	i := len(e.points)
	var k int
	if i < len(e.prefix) {
		k = int(e.prefix[i])
		if k >= p.n {
			e.diverged = fmt.Sprintf("choice %d: option %d of %d (%c)", i, k, p.n, p.kind)
			finish()
			k = 0
		}
	}
	p.pick = uint16(k)
	e.points = append(e.points, p)
	e.cost += p.costOf(k)
	return k
}

// Choose enumerates n environment answers freely (all combinations).
func Choose(n int) int { return envChoose(n, 'c') }

// Deviate enumerates n environment answers; any answer but 0 costs one deviation.
func Deviate(n int) int { return envChoose(n, 'd') }

func envChoose(n int, kind byte) int {
	if dead() {
		runtime.Goexit()
	}
	if n <= 1 {
		return 0
	}
	k := choose(point{n: n, kind: kind})
	if e.over {
		runtime.Goexit()
	}
	return k
}

// nextEvent is the earliest timer or blocked deadline.
func nextEvent() (int64, bool) {
	best, ok := int64(0), false
	for _, tm := range e.timers {
		if !ok || tm.when < best {
			best, ok = tm.when, true
		}
	}
	for _, u := range e.threads {
		if !u.done && u.dl != nil {
			if w, has := u.dl(); has && w > e.now && (!ok || w < best) {
				best, ok = w, true
			}
		}
	}
	if ok && e.cfg.Horizon > 0 && best > e.cfg.Horizon {
		return 0, false
	}
	return best, ok
}

func advance() bool {
	w, ok := nextEvent()
	if !ok {
		return false
	}
	if w > e.now {
		e.now = w
	}
	for {
		// fire due timers in order
		var d *vtimer
		for _, tm := range e.timers {
			if tm.when <= e.now && (d == nil || tm.when < d.when || tm.when == d.when && tm.seq < d.seq) {
				d = tm
			}
		}
		if d == nil {
			break
		}
		d.fire()
	}
	return true
}

// ---- object ids, deterministic map order ----

// Reg gives a pointer used as a map key a deterministic identity.
//
//go:norace
func Reg[T any](p *T) *T {
	if e != nil {
		regPtr(unsafe.Pointer(p))
	}
	return p
}

func regPtr(p unsafe.Pointer) {
	if RaceEnabled {
		// maps and growing slices report their accesses
		if len(e.regl) < cap(e.regl) && ptrID(p) == 1<<30 {
			e.regl = append(e.regl, p)
		}
		return
	}
	if e.cfg.Weak {
		if r, ok := e.wregs[uintptr(p)]; !ok || r.w.Value() == nil {
			e.wregs[uintptr(p)] = wreg{e.nreg, weak.Make((*byte)(p))}
			e.nreg++
		}
		return
	}
	if _, ok := e.regs[p]; !ok {
		e.regs[p] = len(e.regs)
	}
}

func ptrID(p unsafe.Pointer) int {
	if e == nil {
		return 0
	}
	for i, q := range e.regl {
		if q == p {
			return i
		}
	}
	if !RaceEnabled {
		if e.cfg.Weak {
			if r, ok := e.wregs[uintptr(p)]; ok && r.w.Value() != nil {
				return r.id
			}
			return 1 << 30
		}
		if id, ok := e.regs[p]; ok {
			return id
		}
	}
	return 1 << 30
}

// ---- running one execution ----

// Result of one execution.
type Result struct {
	Fail     *Failure
	Diverged string
	Steps    int
	Points   []point
	Choices  []uint16
	Trace    []string
	Outcome  string
	Threads  int
}

// RunOnce executes body under the given choice prefix.
func RunOnce(body func(), prefix []uint16, cfg Config) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = int64(600e9)
	}
	epochCount++
	ex := &Exec{cfg: cfg, prefix: prefix, ended: make(chan struct{}), regs: map[unsafe.Pointer]int{}, epoch: epochCount}
	if cfg.Weak {
		ex.wregs = map[uintptr]wreg{}
	}
	if RaceEnabled {
		ex.regl = make([]unsafe.Pointer, 0, 4096)
		ex.timers = make([]*vtimer, 0, 256)
		ex.threads = make([]*Thread, 0, 256)
	}
	e = ex
	races0 := raceErrors()
	main := newThread("main", false, body)
	ex.cur = main
	raceDisable()
	main.wake <- struct{}{}
	<-ex.ended
	races := raceErrors() > races0 // what killed threads do while unwinding does not count
	// kill leftovers
	ex.killing = true
	for i := 0; i < len(ex.threads); i++ {
		t := ex.threads[i]
		t.killed = true
		select {
		case <-t.exit:
			continue
		default:
		}
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exit
	}
	raceEnable()
	r := &Result{Fail: ex.fail, Diverged: ex.diverged, Steps: ex.steps, Points: ex.points, Trace: ex.trace, Outcome: ex.outcome.String(), Threads: len(ex.threads)}
	if r.Fail == nil && r.Diverged == "" && len(ex.points) < len(prefix) {
		r.Diverged = fmt.Sprintf("execution used %d of %d choices", len(ex.points), len(prefix))
	}
	if raceErrors() > races0 {
		if rep := raceReports(); races && rep != "" && r.Fail == nil {
			r.Fail = &Failure{"race", rep}
		}
	}
	r.Choices = make([]uint16, len(ex.points))
	for i, p := range ex.points {
		r.Choices[i] = p.pick
	}
	e = nil
	return r
}

func sortInts(x []int) { sort.Ints(x) }

var stderr = os.Stderr

// GC empties the pools of a Weak execution, as the garbage collector may at any
// time, and collects garbage.
func GC() {
	for _, p := range e.pools {
		p.items = nil
	}
	runtime.GC()
	runtime.GC()
}

// Self is the name of the running thread.
func Self() string {
	if e == nil || e.cur == nil {
		return ""
	}
	return e.cur.name
}
