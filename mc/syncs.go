package mc

import (
	"context"
	"iter"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	held  bool
	epoch int
	hb    byte
}

func (m *Mutex) fresh() {
	if m.epoch != curEpoch() {
		m.held, m.epoch = false, curEpoch()
	}
}

func (m *Mutex) Lock() {
	if e == nil {
		m.held = true
		return
	}
	m.fresh()
	yield("Mutex.Lock", func() bool { return !m.held }, nil)
	m.held = true
	raceAcquire(unsafe.Pointer(&m.hb))
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	Point("Mutex.TryLock")
	if m.held {
		return false
	}
	m.held = true
	raceAcquire(unsafe.Pointer(&m.hb))
	return true
}

func (m *Mutex) Unlock() {
	if e != nil && dead() {
		return
	}
	if !m.held {
		fail("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(&m.hb))
	m.held = false
}

// RWMutex replaces sync.RWMutex. A waiting writer does not block new readers
// in the model except for a reader that already holds the lock (see RLock).
type RWMutex struct {
	w       bool
	r       int
	waiting int
	epoch   int
	hb      [2]byte
}

func (m *RWMutex) fresh() {
	if m.epoch != curEpoch() {
		m.w, m.r, m.waiting, m.epoch = false, 0, 0, curEpoch()
	}
}

func (m *RWMutex) Lock() {
	if e == nil {
		m.w = true
		return
	}
	m.fresh()
	Point("RWMutex.Lock(enter)")
	// a writer that has announced itself blocks later readers, as in package sync
	m.waiting++
	yield("RWMutex.Lock", func() bool { return !m.w && m.r == 0 }, nil)
	m.waiting--
	m.w = true
	raceAcquire(unsafe.Pointer(&m.hb[0]))
	raceAcquire(unsafe.Pointer(&m.hb[1]))
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	Point("RWMutex.TryLock")
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.hb[0]))
	raceAcquire(unsafe.Pointer(&m.hb[1]))
	return true
}

func (m *RWMutex) Unlock() {
	if e != nil && dead() {
		return
	}
	if !m.w {
		fail("panic", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.hb[0]))
	m.w = false
}

func (m *RWMutex) RLock() {
	if e == nil {
		m.r++
		return
	}
	m.fresh()
	yield("RWMutex.RLock", func() bool { return !m.w && m.waiting == 0 }, nil)
	m.r++
	raceAcquire(unsafe.Pointer(&m.hb[0]))
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	Point("RWMutex.TryRLock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.hb[0]))
	return true
}

func (m *RWMutex) RUnlock() {
	if e != nil && dead() {
		return
	}
	if m.r <= 0 {
		fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceReleaseMerge(unsafe.Pointer(&m.hb[1]))
	m.r--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// Once replaces sync.Once.
type Once struct {
	state int // 0 new, 1 running, 2 done
	epoch int
	hb    byte
}

func (o *Once) Do(f func()) {
	if e == nil {
		if o.state == 0 {
			o.state = 2
			f()
		}
		return
	}
	if o.epoch != curEpoch() {
		o.state, o.epoch = 0, curEpoch()
	}
	yield("Once.Do", func() bool { return o.state != 1 }, nil)
	if o.state == 2 {
		raceAcquire(unsafe.Pointer(&o.hb))
		return
	}
	o.state = 1
	defer func() {
		raceRelease(unsafe.Pointer(&o.hb))
		o.state = 2
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

//go:norace
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

//go:norace
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n     int
	epoch int
	hb    byte
}

func (w *WaitGroup) Add(d int) {
	if e != nil && dead() {
		return
	}
	if w.epoch != curEpoch() {
		w.n, w.epoch = 0, curEpoch()
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if e == nil {
		return
	}
	if w.epoch != curEpoch() {
		w.n, w.epoch = 0, curEpoch()
	}
	yield("WaitGroup.Wait", func() bool { return w.n == 0 }, nil)
	raceAcquire(unsafe.Pointer(&w.hb))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L       sync.Locker
	waiters []*bool
	hb      byte
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if e == nil {
		panic("mc: Cond.Wait outside an execution")
	}
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	yield("Cond.Wait", func() bool { return *woken }, nil)
	raceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

func (c *Cond) Signal() {
	Point("Cond.Signal")
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	Point("Cond.Broadcast")
	raceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool replaces sync.Pool: last in, first out, which makes reuse immediate.
type Pool struct {
	New   func() any
	items []poolItem
	epoch int
}

type poolItem struct {
	x  any
	hb *byte
}

func (p *Pool) Get() any {
	if e != nil {
		Point("Pool.Get")
	}
	if p.epoch != curEpoch() {
		p.items, p.epoch = nil, curEpoch()
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		raceAcquire(unsafe.Pointer(x.hb))
		return x.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if e != nil {
		Point("Pool.Put")
	}
	if p.epoch != curEpoch() {
		p.items, p.epoch = nil, curEpoch()
	}
	if e != nil && e.cfg.Weak && len(p.items) == 0 {
		e.pools = append(e.pools, p)
	}
	it := poolItem{x, new(byte)}
	raceReleaseMerge(unsafe.Pointer(it.hb))
	p.items = append(p.items, it)
}

// Map replaces sync.Map (insertion ordered; a list, because the race detector
// would report the runtime's accesses to a map).
type Map struct {
	ents  []mapEntry
	epoch int
	hb    byte
}

type mapEntry struct{ k, v any }

func (m *Map) op(what string) {
	if e != nil {
		Point("sync.Map." + what)
	}
	raceAcquire(unsafe.Pointer(&m.hb))
	if what != "Load" && what != "Range" {
		raceReleaseMerge(unsafe.Pointer(&m.hb))
	}
	if cap(m.ents) == 0 {
		m.ents = make([]mapEntry, 0, 16)
	}
}

func (m *Map) find(k any) int {
	for i := range m.ents {
		if m.ents[i].k == k {
			return i
		}
	}
	return -1
}

func (m *Map) get(k any) (any, bool) {
	if i := m.find(k); i >= 0 {
		return m.ents[i].v, true
	}
	return nil, false
}

func (m *Map) set(k, v any) {
	if i := m.find(k); i >= 0 {
		m.ents[i].v = v
	} else {
		m.ents = append(m.ents, mapEntry{k, v})
	}
}

func (m *Map) del(k any) {
	if i := m.find(k); i >= 0 {
		for ; i+1 < len(m.ents); i++ {
			m.ents[i] = m.ents[i+1]
		}
		m.ents[len(m.ents)-1] = mapEntry{}
		m.ents = m.ents[:len(m.ents)-1]
	}
}

func (m *Map) Load(k any) (any, bool) { m.op("Load"); return m.get(k) }
func (m *Map) Store(k, v any)         { m.op("Store"); m.set(k, v) }
func (m *Map) Delete(k any)           { m.op("Delete"); m.del(k) }
func (m *Map) Clear()                 { m.op("Clear"); m.ents = nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op("LoadOrStore")
	if x, ok := m.get(k); ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op("LoadAndDelete")
	v, ok := m.get(k)
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.op("Swap")
	x, ok := m.get(k)
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op("CompareAndSwap")
	if x, ok := m.get(k); ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op("CompareAndDelete")
	if x, ok := m.get(k); ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op("Range")
	keys := make([]any, len(m.ents))
	for i := range m.ents {
		keys[i] = m.ents[i].k
	}
	for _, k := range keys {
		v, ok := m.get(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// ---- atomics ----

func aop(p unsafe.Pointer, what string) {
	if e != nil {
		Point(what)
	}
	raceAcquire(p)
	if what != "atomic.Load" { // nobody observes a load
		raceReleaseMerge(p)
	}
}

type Bool struct {
	v  bool
	hb byte
}

func (x *Bool) Load() bool   { aop(unsafe.Pointer(&x.hb), "atomic.Load"); return x.v }
func (x *Bool) Store(v bool) { aop(unsafe.Pointer(&x.hb), "atomic.Store"); x.v = v }
func (x *Bool) Swap(v bool) bool {
	aop(unsafe.Pointer(&x.hb), "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	aop(unsafe.Pointer(&x.hb), "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[T integer] struct {
	v  T
	hb byte
}

//go:norace
func (x *num[T]) Load() T { aop(unsafe.Pointer(&x.hb), "atomic.Load"); return x.v }

//go:norace
func (x *num[T]) Store(v T) { aop(unsafe.Pointer(&x.hb), "atomic.Store"); x.v = v }

//go:norace
func (x *num[T]) Add(d T) T { aop(unsafe.Pointer(&x.hb), "atomic.Add"); x.v += d; return x.v }

//go:norace
func (x *num[T]) And(d T) T { aop(unsafe.Pointer(&x.hb), "atomic.And"); o := x.v; x.v &= d; return o }

//go:norace
func (x *num[T]) Or(d T) T { aop(unsafe.Pointer(&x.hb), "atomic.Or"); o := x.v; x.v |= d; return o }

//go:norace
func (x *num[T]) Swap(v T) T {
	aop(unsafe.Pointer(&x.hb), "atomic.Swap")
	o := x.v
	x.v = v
	return o
}

//go:norace
func (x *num[T]) CompareAndSwap(o, n T) bool {
	aop(unsafe.Pointer(&x.hb), "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type (
	Int32   = num[int32]
	Int64   = num[int64]
	Uint32  = num[uint32]
	Uint64  = num[uint64]
	Uintptr = num[uintptr]
)

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct {
	v  *T
	hb byte
}

//go:norace
func (x *Pointer[T]) Load() *T { aop(unsafe.Pointer(&x.hb), "atomic.Load"); return x.v }

//go:norace
func (x *Pointer[T]) Store(v *T) { aop(unsafe.Pointer(&x.hb), "atomic.Store"); x.v = v }

//go:norace
func (x *Pointer[T]) Swap(v *T) *T {
	aop(unsafe.Pointer(&x.hb), "atomic.Swap")
	o := x.v
	x.v = v
	return o
}

//go:norace
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	aop(unsafe.Pointer(&x.hb), "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value replaces atomic.Value.
type Value struct {
	v  any
	hb byte
}

func (x *Value) Load() any   { aop(unsafe.Pointer(&x.hb), "atomic.Load"); return x.v }
func (x *Value) Store(v any) { aop(unsafe.Pointer(&x.hb), "atomic.Store"); x.v = v }
func (x *Value) Swap(v any) any {
	aop(unsafe.Pointer(&x.hb), "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	aop(unsafe.Pointer(&x.hb), "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// function forms
func AddInt32(p *int32, d int32) int32     { Point("atomic.Add"); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { Point("atomic.Add"); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { Point("atomic.Add"); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { Point("atomic.Add"); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32             { Point("atomic.Load"); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { Point("atomic.Load"); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { Point("atomic.Load"); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { Point("atomic.Load"); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { Point("atomic.Store"); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { Point("atomic.Store"); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { Point("atomic.Store"); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { Point("atomic.Store"); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32    { Point("atomic.Swap"); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64    { Point("atomic.Swap"); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	Point("atomic.Swap")
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	Point("atomic.CAS")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	Point("atomic.CAS")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	Point("atomic.CAS")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	Point("atomic.CAS")
	return atomic.CompareAndSwapUint64(p, o, n)
}

// ---- time ----

var baseTime = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

type vtimer struct {
	when   int64
	period int64
	seq    int
	c      *Chan[time.Time]
	f      func()
	active bool
	hb     byte
}

func (v *vtimer) start(d time.Duration) {
	if e == nil {
		return
	}
	v.stop()
	if d < 0 {
		d = 0
	}
	v.when = e.now + int64(d)
	e.tseq++
	v.seq = e.tseq
	v.active = true
	e.timers = append(e.timers, v)
	raceReleaseMerge(unsafe.Pointer(&v.hb))
}

func (v *vtimer) stop() bool {
	was := v.active
	v.active = false
	if e != nil {
		v.drop()
	}
	if v.c != nil {
		// Go 1.23 timers: no stale value after Stop/Reset
		v.c.c.buf = nil
	}
	return was
}

// drop takes the timer off the list, keeping the order.
func (v *vtimer) drop() {
	ts := e.timers
	for i := range ts {
		if ts[i] == v {
			for j := i + 1; j < len(ts); j++ {
				ts[j-1] = ts[j]
			}
			ts[len(ts)-1] = nil
			e.timers = ts[:len(ts)-1]
			return
		}
	}
}

func (v *vtimer) fire() {
	if v.period > 0 {
		v.when += v.period
		if v.when <= e.now {
			v.when = e.now + v.period
		}
	} else {
		v.drop()
		v.active = false
	}
	if v.f != nil {
		f := v.f
		newThread("timer", true, func() {
			raceAcquire(unsafe.Pointer(&v.hb))
			f()
		})
		return
	}
	if len(v.c.c.buf) < v.c.c.cap {
		v.c.c.tail++
		v.c.c.buf = append(v.c.c.buf, baseTime.Add(time.Duration(e.now)))
	}
}

// Timer replaces time.Timer.
type Timer struct {
	C *Chan[time.Time]
	v *vtimer
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C *Chan[time.Time]
	v *vtimer
}

func NewTimer(d time.Duration) *Timer {
	c := MakeChan[time.Time](1)
	t := &Timer{C: c, v: &vtimer{c: c}}
	c.c.tm = t.v
	t.v.start(d)
	return t
}

func (t *Timer) Stop() bool {
	if e != nil && dead() {
		return false
	}
	return t.v.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if e != nil && dead() {
		return false
	}
	was := t.v.active
	t.v.start(d)
	return was
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := MakeChan[time.Time](1)
	t := &Ticker{C: c, v: &vtimer{c: c, period: int64(d)}}
	c.c.tm = t.v
	t.v.start(d)
	return t
}

func (t *Ticker) Stop() {
	if e != nil && dead() {
		return
	}
	t.v.stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.v.period = int64(d)
	t.v.start(d)
}

func After(d time.Duration) *Chan[time.Time] { return NewTimer(d).C }
func Tick(d time.Duration) *Chan[time.Time]  { return NewTicker(d).C }
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{v: &vtimer{f: f}}
	t.v.start(d)
	return t
}
func Now() time.Time                  { return baseTime.Add(time.Duration(NowNs())) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if e == nil {
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	SleepNs(int64(d))
}

// Gosched gives every other runnable thread a chance first.
func Gosched() {
	if e == nil {
		return
	}
	Point("Gosched")
}

// ToNs converts a virtual time to nanoseconds since the start.
func ToNs(t time.Time) int64 { return int64(t.Sub(baseTime)) }

// ---- context ----

type timerCtx struct {
	context.Context
	dl    time.Time
	mu    sync.Mutex
	timed bool
}

func (c *timerCtx) Deadline() (time.Time, bool) { return c.dl, true }
func (c *timerCtx) Err() error {
	if err := c.Context.Err(); err != nil {
		if c.timed {
			return context.DeadlineExceeded
		}
		return err
	}
	return nil
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	inner, cancel := context.WithCancel(parent)
	tc := &timerCtx{Context: inner, dl: d}
	v := &vtimer{}
	v.f = func() {
		if inner.Err() == nil {
			tc.timed = true
			cancel()
		}
	}
	v.start(Until(d))
	return tc, func() {
		Point("cancel")
		v.stop()
		cancel()
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, _ error) (context.Context, context.CancelFunc) {
	return WithTimeout(parent, d)
}

func WithDeadlineCause(parent context.Context, d time.Time, _ error) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, d)
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c, cancel := context.WithCancel(parent)
	return c, func() { Point("cancel"); cancel() }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c, cancel := context.WithCancelCause(parent)
	return c, func(err error) { Point("cancel"); cancel(err) }
}

// CtxAfterFunc replaces context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	stopped, started := false, false
	done := FromNative(ctx.Done())
	stop := MakeChan[struct{}](1)
	Go(func() {
		s := NewSelect(false)
		done.SelRecv(s)
		stop.SelRecv(s)
		if s.Do() == 0 && !stopped {
			started = true
			f()
		}
	})
	return func() bool {
		Point("AfterFunc stop")
		if stopped || started {
			return false
		}
		stopped = true
		stop.Send(struct{}{})
		return true
	}
}

// ---- deterministic map iteration ----

//go:norace
func sortedKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sort.SliceStable(keys, func(i, j int) bool {
		return lessKey(reflect.ValueOf(&keys[i]).Elem(), reflect.ValueOf(&keys[j]).Elem())
	})
	// iteration order is unspecified: the reverse order is explored as a deviation
	if e != nil && !dead() && Deviate(2) == 1 {
		slices.Reverse(keys)
	}
	return keys
}

func lessKey(a, b reflect.Value) bool { return cmpKey(a, b) < 0 }

func cmpKey(a, b reflect.Value) int {
	switch a.Kind() {
	case reflect.String:
		return strings.Compare(a.String(), b.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return sign(a.Int() < b.Int(), a.Int() > b.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return sign(a.Uint() < b.Uint(), a.Uint() > b.Uint())
	case reflect.Float32, reflect.Float64:
		return sign(a.Float() < b.Float(), a.Float() > b.Float())
	case reflect.Bool:
		return sign(!a.Bool() && b.Bool(), a.Bool() && !b.Bool())
	case reflect.Pointer, reflect.UnsafePointer:
		x, y := ptrID(a.UnsafePointer()), ptrID(b.UnsafePointer())
		return sign(x < y, x > y)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return sign(a.IsNil() && !b.IsNil(), !a.IsNil() && b.IsNil())
		}
		if a.Elem().Type() != b.Elem().Type() {
			return strings.Compare(a.Elem().Type().String(), b.Elem().Type().String())
		}
		return cmpKey(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if c := cmpKey(a.Field(i), b.Field(i)); c != 0 {
				return c
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if c := cmpKey(a.Index(i), b.Index(i)); c != 0 {
				return c
			}
		}
	}
	return 0
}

func sign(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

// RangeMap replaces "for k, v := range m" over a map.
//
//go:norace
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sortedKeys(m) {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

//go:norace
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range sortedKeys(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

//go:norace
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range sortedKeys(m) {
			if v, ok := m[k]; ok && !yield(v) {
				return
			}
		}
	}
}

// ---- silenced output ----

func Println(...any) (int, error)        { return 0, nil }
func Printf(string, ...any) (int, error) { return 0, nil }
func Print(...any) (int, error)          { return 0, nil }
func LogPrintln(...any)                  {}
func LogPrintf(string, ...any)           {}
func LogPrint(...any)                    {}
