package mc

import (
	"iter"
	"reflect"
	"unsafe"
)

// chanCore is the untyped channel.
type chanCore struct {
	cap    int
	buf    []any
	closed bool
	epoch  int
	native func() (v any, ok, ready bool) // polled stdlib channel
	slots  []byte                         // addresses for happens-before edges
	tm     *vtimer                        // the timer that sends on it
	head   int
	tail   int
}

// Chan replaces chan T.
type Chan[T any] struct{ c *chanCore }

func curEpoch() int {
	if e == nil {
		return 0
	}
	return e.epoch
}

// MakeChan replaces make(chan T, n).
//
//go:norace
func MakeChan[T any](n ...int) *Chan[T] {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	return &Chan[T]{newCore(k)}
}

func newCore(k int) *chanCore {
	if k < 0 {
		panic("makechan: size out of range")
	}
	return &chanCore{cap: k, epoch: curEpoch(), slots: make([]byte, k+3)}
}

// fresh resets channels that outlive an execution (package-level variables).
func (c *chanCore) fresh() {
	if c.epoch != curEpoch() {
		c.epoch = curEpoch()
		c.buf, c.closed, c.head, c.tail = nil, false, 0, 0
	}
}

type native struct {
	ch any
	c  *chanCore
}

// FromNative wraps a channel obtained from the standard library (ctx.Done()).
//
//go:norace
func FromNative[T any](ch <-chan T) *Chan[T] {
	if ch == nil {
		return nil
	}
	var stash []T
	c := newCore(0)
	if e != nil && !dead() {
		// one core per native channel and execution so that polled values are shared
		for i := range e.natives {
			if e.natives[i].ch == any(ch) {
				return &Chan[T]{e.natives[i].c}
			}
		}
		if e.natives == nil {
			e.natives = make([]native, 0, 64)
		}
		e.natives = append(e.natives, native{any(ch), c})
	}
	c.native = func() (any, bool, bool) {
		if len(stash) > 0 {
			return stash[0], true, true
		}
		select {
		case v, ok := <-ch:
			if !ok {
				var z T
				return z, false, true
			}
			stash = append(stash, v)
			return v, true, true
		default:
			var z T
			return z, false, false
		}
	}
	return &Chan[T]{c}
}

//go:norace
func (c *Chan[T]) core() *chanCore {
	if c == nil {
		return nil
	}
	c.c.fresh()
	return c.c
}

// selCase is one case of a select.
type selCase struct {
	c    *chanCore // nil: never ready
	send bool
	val  any
}

// pend is the pending channel operation of a parked thread.
type pend struct {
	t     *Thread
	cases []selCase
	def   bool
	done  bool // completed by a rendezvous partner
	idx   int
	val   any
	ok    bool
	hb    [2]byte
}

func partner(c *chanCore, wantSend bool, me *pend) (*pend, int) {
	for _, t := range e.threads {
		p := t.pend
		if t.done || p == nil || p.done || p == me {
			continue
		}
		for i, k := range p.cases {
			if k.c == c && k.send == wantSend {
				return p, i
			}
		}
	}
	return nil, 0
}

func (p *pend) ready(i int) (ready, viaPartner bool) {
	k := p.cases[i]
	if k.c == nil {
		return false, false
	}
	c := k.c
	if c.native != nil {
		_, _, r := c.native()
		return r, false
	}
	if k.send {
		if c.closed {
			return true, false
		}
		if c.cap > 0 {
			return len(c.buf) < c.cap, false
		}
		q, _ := partner(c, false, p)
		return q != nil, q != nil
	}
	if len(c.buf) > 0 || c.closed {
		return true, false
	}
	if c.cap == 0 {
		q, _ := partner(c, true, p)
		return q != nil, q != nil
	}
	return false, false
}

func (p *pend) enabled() bool {
	if p.done || p.def {
		return true
	}
	for i := range p.cases {
		if r, _ := p.ready(i); r {
			return true
		}
	}
	return false
}

// perform executes a channel operation (a select with one or more cases).
// It returns the chosen case (-1: default) and the received value.
func perform(what string, cases []selCase, def bool) (int, any, bool) {
	if e == nil {
		return performIdle(cases, def)
	}
	p := &pend{t: e.cur, cases: cases, def: def}
	t := e.cur
	t.pend = p
	raceReleaseMerge(unsafe.Pointer(&p.hb[0]))
	yield(what, p.enabled, nil)
	t.pend = nil
	if p.done {
		raceAcquire(unsafe.Pointer(&p.hb[1]))
		return p.idx, p.val, p.ok
	}
	var ready []int
	allVia := true
	for i := range cases {
		if r, via := p.ready(i); r {
			ready = append(ready, i)
			allVia = allVia && via
		}
	}
	if len(ready) == 0 {
		return -1, nil, false
	}
	if def && allVia {
		// the partner may not have reached its operation yet
		if Deviate(2) == 1 {
			return -1, nil, false
		}
	}
	i := ready[0]
	if len(ready) > 1 {
		i = ready[Choose(len(ready))]
	}
	return p.fire(i)
}

func (c *chanCore) slot(i int) unsafe.Pointer { return unsafe.Pointer(&c.slots[i]) }

func hbSwap(p unsafe.Pointer) {
	raceAcquire(p)
	raceRelease(p)
}

func (p *pend) fire(i int) (int, any, bool) {
	k := p.cases[i]
	c := k.c
	if c.native != nil {
		v, ok, _ := c.native()
		return i, v, ok
	}
	if k.send {
		if c.closed {
			panic("send on closed channel")
		}
		if c.cap > 0 {
			hbSwap(c.slot(c.tail % c.cap))
			c.tail++
			c.buf = append(c.buf, k.val)
			return i, nil, false
		}
		q, j := partner(c, false, p)
		q.done, q.idx, q.val, q.ok = true, j, k.val, true
		p.swap(q)
		return i, nil, false
	}
	if len(c.buf) > 0 {
		hbSwap(c.slot(c.head % c.cap))
		if c.tm != nil {
			raceAcquire(unsafe.Pointer(&c.tm.hb))
		}
		c.head++
		v := c.buf[0]
		c.buf = c.buf[1:]
		return i, v, true
	}
	if c.cap == 0 {
		if q, j := partner(c, true, p); q != nil {
			q.done, q.idx = true, j
			p.swap(q)
			return i, q.cases[j].val, true
		}
	}
	// closed
	raceAcquire(c.slot(len(c.slots) - 1))
	return i, nil, false
}

func (p *pend) swap(q *pend) {
	raceAcquire(unsafe.Pointer(&q.hb[0]))
	raceReleaseMerge(unsafe.Pointer(&q.hb[1]))
}

func performIdle(cases []selCase, def bool) (int, any, bool) {
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		if k.send && len(k.c.buf) < k.c.cap {
			k.c.buf = append(k.c.buf, k.val)
			return i, nil, false
		}
		if !k.send && len(k.c.buf) > 0 {
			v := k.c.buf[0]
			k.c.buf = k.c.buf[1:]
			return i, v, true
		}
		if !k.send && k.c.closed {
			return i, nil, false
		}
	}
	if def {
		return -1, nil, false
	}
	panic("mc: blocking channel operation outside an execution")
}

//go:norace
func cast[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// box keeps nil interface values distinguishable from "no value".
//
//go:norace
func (c *Chan[T]) Send(v T) {
	perform("chan send", []selCase{{c.core(), true, v}}, false)
}

//go:norace
func (c *Chan[T]) Recv() T {
	_, v, _ := perform("chan receive", []selCase{{c: c.core()}}, false)
	return cast[T](v)
}

//go:norace
func (c *Chan[T]) Recv2() (T, bool) {
	_, v, ok := perform("chan receive", []selCase{{c: c.core()}}, false)
	return cast[T](v), ok
}

// Close replaces close(ch).
//
//go:norace
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	k := c.core()
	if e != nil {
		yield("chan close", nil, nil)
	}
	if k.closed {
		panic("close of closed channel")
	}
	raceRelease(k.slot(len(k.slots) - 1))
	k.closed = true
}

//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	k := c.core()
	if e != nil {
		yield("chan len", nil, nil)
	}
	return len(k.buf)
}

//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// Seq replaces "for v := range ch".
//
//go:norace
func (c *Chan[T]) Seq() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Selector builds a select statement.
type Selector struct {
	cases []selCase
	def   bool
	val   any
	ok    bool
}

func NewSelect(def bool) *Selector { return &Selector{def: def} }

// RecvCase is a receive case of type T.
type RecvCase[T any] struct{ s *Selector }

//go:norace
func (c *Chan[T]) SelRecv(s *Selector) RecvCase[T] {
	s.cases = append(s.cases, selCase{c: c.core()})
	return RecvCase[T]{s}
}

//go:norace
func (c *Chan[T]) SelSend(s *Selector, v T) {
	s.cases = append(s.cases, selCase{c.core(), true, v})
}

// Do performs the select and returns the index of the case taken, -1 for default.
func (s *Selector) Do() int {
	i, v, ok := perform("select", s.cases, s.def)
	s.val, s.ok = v, ok
	return i
}

//go:norace
func (r RecvCase[T]) Get() T { return cast[T](r.s.val) }

//go:norace
func (r RecvCase[T]) Get2() (T, bool) { return cast[T](r.s.val), r.s.ok }

// BlockForever replaces select {}.
func BlockForever() {
	yield("select {}", func() bool { return false }, nil)
}

var _ = reflect.TypeOf
