package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// C25: what the kind of an error says about the connection.

type kx struct {
	*peer
	w       *snapws.ConnWriter // the latest writer
	wopen   bool
	wctx    context.Context
	cancel  func()
	rd      io.Reader // the latest message reader
	batched bool
	limited bool
	leaves  int
	closed  bool // known to be closed before the operation
	breaks  bool // the transport fails from now on
	log     []string
}

// what an operation must return on an open connection
const (
	kOK    = 1 << iota // no error
	kSoft              // a non-fatal error
	kFatal             // a fatal error
	kSkip              // not applicable
	kAny   = kOK | kSoft | kFatal
)

type kop struct {
	name string
	// do performs the operation and says which outcomes are right on an open connection.
	do func(x *kx) (error, int)
	// harmless operations may succeed on a closed connection (they reach nothing).
	harmless bool
}

func ctxMs(ms int) (context.Context, func()) {
	c, f := mc.WithTimeout(bg, time.Duration(ms)*time.Millisecond)
	return c, f
}

// sends is the outcome of an operation that needs the data stream and the wire.
func (x *kx) sends() int {
	switch {
	case x.wopen:
		return kSoft // the context expires
	case x.breaks:
		return kFatal
	}
	return kOK
}

// reads feeds a frame and performs a read.
func (x *kx) reads(f []byte, r func() error) error {
	if !x.fc.closed {
		x.fc.feed(f)
	}
	return r()
}

func (x *kx) limit(k int) int {
	if x.limited && k&kFatal == 0 {
		return k | kSoft // the message may be over the limit
	}
	return k
}

var errHook = errors.New("hook says no")

var kops = []kop{
	{name: "SendBytes", do: func(x *kx) (error, int) {
		c, f := ctxMs(20)
		defer f()
		return x.conn.SendBytes(c, []byte("0123456789")), x.sends()
	}},
	{name: "SendString large", do: func(x *kx) (error, int) {
		c, f := ctxMs(20)
		defer f()
		return x.conn.SendString(c, tpat(3, 300)), x.sends()
	}},
	{name: "SendMessage bad opcode", do: func(x *kx) (error, int) {
		return x.conn.SendMessage(bg, opPing, []byte("p")), kSoft
	}},
	{name: "SendJSON bad value", do: func(x *kx) (error, int) {
		c, f := ctxMs(20)
		defer f()
		return x.conn.SendJSON(c, make(chan int)), kSoft
	}},
	{name: "SendJSON", do: func(x *kx) (error, int) {
		c, f := ctxMs(20)
		defer f()
		return x.conn.SendJSON(c, []int{1, 2}), x.sends()
	}},
	{name: "SendBytes cancelled", do: func(x *kx) (error, int) {
		c, f := mc.WithCancel(bg)
		f()
		k := kOK | kSoft
		if x.wopen {
			k = kSoft
		} else if x.breaks {
			k = kSoft | kFatal
		}
		return x.conn.SendBytes(c, []byte("late")), k
	}},
	{name: "SendBytes cancelled large", do: func(x *kx) (error, int) {
		c, f := mc.WithCancel(bg)
		f()
		// a part may be sent before the context is noticed
		k := kAny
		if x.wopen {
			k = kSoft
		}
		return x.conn.SendBytes(c, pat(4, 150)), k
	}},
	{name: "NextWriter", do: func(x *kx) (error, int) {
		c, f := ctxMs(20)
		if x.wopen {
			defer f()
		}
		k := kOK
		if x.wopen {
			k = kSoft
		}
		w, err := x.conn.NextWriter(c, opText)
		if err == nil {
			x.w, x.wopen, x.cancel = w, true, f
		}
		return err, k
	}},
	{name: "NextWriter bad opcode", do: func(x *kx) (error, int) {
		_, err := x.conn.NextWriter(bg, opCont)
		return err, kSoft
	}},
	{name: "expire", do: func(x *kx) (error, int) {
		if !x.wopen {
			return nil, kSkip
		}
		mc.SleepNs(25e6)
		return nil, kSkip
	}},
	{name: "Write", harmless: true, do: func(x *kx) (error, int) {
		if x.w == nil {
			return nil, kSkip
		}
		_, err := x.w.Write([]byte("abc"))
		if !x.wopen {
			return err, kSoft
		}
		return err, kAny // the buffer may be full
	}},
	{name: "Write large", do: func(x *kx) (error, int) {
		if x.w == nil {
			return nil, kSkip
		}
		_, err := x.w.Write(tpat(1, 300))
		if !x.wopen {
			return err, kSoft
		}
		return err, kAny
	}},
	{name: "Flush", do: func(x *kx) (error, int) {
		if x.w == nil {
			return nil, kSkip
		}
		err := x.w.Flush()
		if !x.wopen {
			return err, kSoft
		}
		return err, kAny
	}},
	{name: "writer Close", do: func(x *kx) (error, int) {
		if x.w == nil {
			return nil, kSkip
		}
		err := x.w.Close()
		k := kAny
		if !x.wopen {
			k = kOK | kSoft
		}
		x.wopen = false
		return err, k
	}},
	{name: "Ping", do: func(x *kx) (error, int) {
		if x.breaks {
			return x.conn.Ping(), kSoft | kFatal
		}
		return x.conn.Ping(), kOK | kSoft
	}},
	{name: "Batch", do: func(x *kx) (error, int) {
		if !x.batched {
			return x.conn.Batch([]byte("b")), kSoft
		}
		return x.conn.Batch([]byte("b")), kOK
	}},
	{name: "BatchJSON bad value", do: func(x *kx) (error, int) {
		return x.conn.BatchJSON(make(chan int)), kSoft
	}},
	{name: "ReadBinary text", do: func(x *kx) (error, int) {
		return x.reads(text("hello"), func() error { _, err := x.conn.ReadBinary(); return err }), kSoft
	}},
	{name: "ReadString binary", do: func(x *kx) (error, int) {
		return x.reads(bin([]byte{0xff, 1}), func() error { _, err := x.conn.ReadString(); return err }), kSoft
	}},
	{name: "ReadJSON binary", do: func(x *kx) (error, int) {
		return x.reads(bin([]byte("{}")), func() error { var v any; return x.conn.ReadJSON(&v) }), kSoft
	}},
	{name: "ReadJSON cut", do: func(x *kx) (error, int) {
		return x.reads(text(`{"a":`), func() error { var v any; return x.conn.ReadJSON(&v) }), kSoft
	}},
	{name: "ReadJSON garbage, fragmented", do: func(x *kx) (error, int) {
		return x.reads(cat(frame(false, opText, []byte("[nope")), ping(nil), frame(true, opCont, []byte("]"))), func() error { var v any; return x.conn.ReadJSON(&v) }), kSoft | x.pongs()
	}},
	{name: "ReadJSON wrong target", do: func(x *kx) (error, int) {
		return x.reads(text(`"str"`), func() error { var v int; return x.conn.ReadJSON(&v) }), kSoft
	}},
	{name: "ReadString", do: func(x *kx) (error, int) {
		return x.reads(text("hello"), func() error { _, err := x.conn.ReadString(); return err }), x.limit(kOK)
	}},
	{name: "ReadMessage after pong", do: func(x *kx) (error, int) {
		return x.reads(cat(pong(nil), bin([]byte("x"))), func() error { _, _, err := x.conn.ReadMessage(); return err }), x.limit(kOK)
	}},
	{name: "NextReader, part", do: func(x *kx) (error, int) {
		err := x.reads(cat(frame(false, opBin, pat(1, 20)), frame(true, opCont, pat(2, 5))), func() error {
			r, _, err := x.conn.NextReader()
			if err != nil {
				return err
			}
			x.rd = r
			_, err = r.Read(make([]byte, 7))
			return err
		})
		return err, x.limit(kOK)
	}},
	{name: "read on", harmless: true, do: func(x *kx) (error, int) {
		if x.rd == nil {
			return nil, kSkip
		}
		r := x.rd
		x.rd = nil
		_, err := io.ReadAll(r)
		return err, kOK
	}},
	// fatal outcomes
	{name: "ReadMessage bad utf8", do: func(x *kx) (error, int) {
		return x.reads(text("a\xff"), func() error { _, _, err := x.conn.ReadMessage(); return err }), x.limitFatal()
	}},
	{name: "ReadString too many fragments", do: func(x *kx) (error, int) {
		return x.reads(cat(frame(false, opText, []byte("a")), frame(false, opCont, []byte("b")), frame(false, opCont, []byte("c")), frame(true, opCont, []byte("d"))), func() error { _, err := x.conn.ReadString(); return err }), x.limitFatal()
	}},
	{name: "ReadBinary too large", do: func(x *kx) (error, int) {
		return x.reads(bin(pat(1, 600)), func() error { _, err := x.conn.ReadBinary(); return err }), kFatal
	}},
	{name: "ReadJSON too large in parts", do: func(x *kx) (error, int) {
		return x.reads(cat(frame(false, opText, []byte(`"`+string(tpat(1, 400)))), frame(true, opCont, tpat(2, 200))), func() error { var v any; return x.conn.ReadJSON(&v) }), x.limitFatal()
	}},
	{name: "ReadMessage reserved bits", do: func(x *kx) (error, int) {
		f := text("hi")
		f[0] |= 0x20
		return x.reads(f, func() error { _, _, err := x.conn.ReadMessage(); return err }), kFatal
	}},
	{name: "ReadMessage client close", do: func(x *kx) (error, int) {
		return x.reads(closeFrame(1000, ""), func() error { _, _, err := x.conn.ReadMessage(); return err }), kFatal
	}},
	{name: "ReadJSON, close inside the message", do: func(x *kx) (error, int) {
		return x.reads(cat(frame(false, opText, []byte(`{"a":`)), closeFrame(1001, "")), func() error { var v any; return x.conn.ReadJSON(&v) }), x.limitFatal()
	}},
	{name: "ReadString end of stream", do: func(x *kx) (error, int) {
		if !x.fc.closed {
			x.fc.feedEOF()
		}
		_, err := x.conn.ReadString()
		return err, kFatal
	}},
	{name: "ReadJSON end inside the message", do: func(x *kx) (error, int) {
		if !x.fc.closed {
			f := text(`{"a":1}`)
			x.fc.feed(f[:len(f)-3])
			x.fc.feedEOF()
		}
		var v any
		return x.conn.ReadJSON(&v), kFatal
	}},
	{name: "ReadMessage times out", do: func(x *kx) (error, int) {
		_, _, err := x.conn.ReadMessage()
		return err, kFatal
	}},
	{name: "Close", harmless: true, do: func(x *kx) (error, int) {
		x.conn.Close()
		x.closed = true
		return nil, kSkip
	}},
	{name: "CloseWithCode", harmless: true, do: func(x *kx) (error, int) {
		x.conn.CloseWithCode(snapws.CloseGoingAway, "bye")
		x.closed = true
		return nil, kSkip
	}},
	{name: "writes fail", harmless: true, do: func(x *kx) (error, int) {
		x.breaks = true
		x.fc.fault = func(op string) string {
			if op == "write" {
				return "part"
			}
			return ""
		}
		return nil, kSkip
	}},
	{name: "writes stall", harmless: true, do: func(x *kx) (error, int) {
		x.breaks = true
		x.fc.stall = true
		return nil, kSkip
	}},
	{name: "write deadlines fail", harmless: true, do: func(x *kx) (error, int) {
		x.breaks = true
		x.fc.fault = func(op string) string {
			if op == "setw" {
				return "err"
			}
			return ""
		}
		return nil, kSkip
	}},
	{name: "read deadlines fail", do: func(x *kx) (error, int) {
		if x.fc.closed {
			return nil, kSkip
		}
		x.fc.fault = func(op string) string {
			if op == "setr" {
				return "err"
			}
			return ""
		}
		_, _, err := x.conn.ReadMessage()
		return err, kFatal
	}},
}

// pongs: answering a ping needs the wire.
func (x *kx) pongs() int {
	if x.breaks {
		return kFatal
	}
	return 0
}

// limitFatal: a message over the rate limit is skipped instead.
func (x *kx) limitFatal() int {
	if x.limited {
		return kFatal | kSoft
	}
	return kFatal
}

func (x *kx) run(o kop) {
	was := x.fc.closed
	before := len(x.fc.out)
	leaves := x.leaves
	err, want := o.do(x)
	x.log = append(x.log, fmt.Sprintf("%s: %v", o.name, err))
	fail := func(f string, a ...any) {
		mc.Failf("%s (after %q)", fmt.Sprintf(f, a...), x.log)
	}
	if was {
		if err == nil && want != kSkip && !o.harmless && !(want&kOK != 0 && o.name == "writer Close") {
			fail("%s succeeds on a closed connection", o.name)
		}
		if len(x.fc.out) != before {
			fail("%s writes to a closed connection", o.name)
		}
		if x.leaves != leaves {
			fail("%s on a closed connection runs the close hook again", o.name)
		}
		if o.name == "Ping" && !isFatal(err) && err != snapws.ErrPingAlreadySent {
			fail("Ping on a closed connection returns %v, which is not fatal", err)
		}
		late := strings.HasPrefix(o.name, "SendBytes cancelled") // the context is over, but so is the connection
		if err != nil && o.name != "Batch" && want != kSkip && (want&kSoft == 0 || late) && !isFatal(err) {
			fail("%s on a closed connection returns %v, which is not fatal: the caller would try again", o.name, err)
		}
		return
	}
	if x.closed {
		if !x.fc.closed {
			fail("the transport is open after %s", o.name)
		}
		return
	}
	if want == kSkip {
		return
	}
	got := kOK
	if isFatal(err) {
		got = kFatal
	} else if err != nil {
		got = kSoft
	}
	if got == kFatal && !x.fc.closed {
		fail("%s returns the fatal error %v but the connection is open", o.name, err)
	}
	if got != kFatal && x.fc.closed {
		fail("%s returns %v, which is not fatal, but the connection is closed", o.name, err)
	}
	if x.breaks { // a pong may be due
		want |= kFatal
	}
	if want&got == 0 {
		fail("%s returns %v (fatal: %v)", o.name, err, got == kFatal)
	}
	if got == kSoft && o.name == "Ping" && err != snapws.ErrPingAlreadySent {
		fail("Ping returns %v", err)
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C25",
		Rule: "all sequences of up to three (thorough: four) of 44 operations and events (sends, writers, pings, batches and reads, valid and invalid; client violations, close, end of stream; Close; failing or stalled writes; failing deadlines) on a connection with batching, without, and with a rate limiter. After each: fatal error iff the connection has been closed; the outcome expected of the operation; on a closed connection an error and no effect. After each sequence an open connection must carry a message both ways, and a closed one must refuse the whole API. Plus: streams ended after every byte, by every reading function.",
		Scenarios: func(tier string) []mc.Scenario {
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			var out []mc.Scenario
			for _, v := range []string{"batching", "plain", "limiter"} {
				for i := range kops {
					i := i
					out = append(out, mc.Scenario{Name: v + ", first " + kops[i].name, Bound: 0, Body: func() {
						x := &kx{batched: v == "batching", limited: v == "limiter"}
						u := snapws.NewUpgrader(&snapws.Options{
							PingEvery: 10 * time.Hour, ReadWait: 30 * time.Second, WriteWait: time.Second, WriteBufferSize: 128,
							MaxMessageSize: 500, ReaderMaxFragments: 3, DisableWriteBuffersPooling: v == "plain",
						})
						if x.batched {
							ctx, stop := mc.WithCancel(bg)
							defer stop()
							u.EnableJSONBatching(ctx, time.Hour)
						}
						if x.limited {
							u.Limiter = snapws.NewRateLimiter(1, 1)
						}
						m := snapws.NewManager[int](u)
						m.OnUnregister = func(*snapws.ManagedConn[int]) { x.leaves++ }
						x.peer = newPeer("client")
						k, err := m.Connect(1, response(x.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						x.conn = k.Conn
						x.shaken()
						x.run(kops[i])
						for d := 1; d < depth; d++ {
							c := mc.Choose(len(kops) + 1)
							if c == 0 {
								break
							}
							x.run(kops[c-1])
						}
						mc.Outcome(fmt.Sprint(x.log, x.fc.closed))
						// a writer that is left is finished first
						if x.wopen && !x.fc.closed {
							x.run(kops[indexOp("writer Close")])
						}
						if x.fc.closed {
							if x.leaves != 1 {
								mc.Failf("the close hook ran %d times (after %q)", x.leaves, x.log)
							}
							for _, o := range kops {
								x.run(o)
							}
							mc.SleepNs(2e9)
							if x.leaves != 1 {
								mc.Failf("the close hook ran %d times (after %q)", x.leaves, x.log)
							}
							return
						}
						if x.breaks {
							return
						}
						if x.rd != nil {
							x.run(kops[indexOp("read on")])
						}
						mc.SleepNs(5e9) // tokens for the limiter
						x.works(fmt.Sprintf("after %q", x.log))
					}})
				}
			}
			return append(out, cuts(tier == "thorough")...)
		},
	})
}

func indexOp(n string) int {
	for i, o := range kops {
		if o.name == n {
			return i
		}
	}
	panic(n)
}
