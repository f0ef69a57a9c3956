package harness

import (
	"fmt"
	"time"

	"vh/mc"
	"vh/snapws"
)

// plan injects one transport failure: any one call (read, write, deadline) made
// after arming fails in any of the ways such a call can fail; then possibly every
// later call fails too.
type plan struct {
	n     int
	at    int
	kind  string
	again bool
	hit   string // kind of call that was hit
	by    string // thread that made it
	hitAt int64
	max   int
}

func (f *plan) call(op string) string {
	i := f.n
	f.n++
	if f.hit != "" {
		if f.again && (op == "read" || op == "write") {
			return "err"
		}
		return ""
	}
	if i >= f.max {
		return ""
	}
	kinds := []string{"", "err"}
	switch op {
	case "read":
		kinds = append(kinds, "timeout")
	case "write":
		kinds = append(kinds, "part", "stall", "stallpart")
	}
	k := pick(kinds)
	if k != "" {
		f.hit, f.by, f.hitAt, f.kind, f.at = op, mc.Self(), mc.NowNs(), k, i
		f.again = mc.Choose(2) == 1
	}
	return k
}

func init() {
	Reg(&mc.Property{
		ID:   "C10",
		Rule: "every transport call (read, write, deadline) of every operation kind failed in turn in every way (error, partial write, stall until the deadline, partial write then stall, timeout), alone and with every later call failing too, alone and concurrent with every other operation kind, under all schedules up to the deviation bound; client streams covering the frame format ended by EOF, error or silence after every byte under every reading function; a second connection of the same upgrader is checked for independence.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			const ww = sec / 5
			run := func(as []string, maxAt int) func() {
				return func() {
					f := &plan{max: maxAt}
					o := snapws.Options{WriteWait: 200 * time.Millisecond, BroadcastChannelsSize: 4}
					if has(as, "keepalive") {
						o.PingEvery, o.ReadWait = time.Second, 3*time.Second
					}
					x := newMix(mixOpts{batch: has(as, "batch"), o: o})
					q := newPeer("other")
					qc, err := x.m.Connect("other", response(q.fc, 4096, 4096, nil), request())
					mustOK("Connect", err)
					q.conn = qc.Conn
					q.shaken()
					qhooks := x.hooks
					x.p.fc.fault = func(op string) string {
						h := f.hit
						k := f.call(op)
						if h == "" && f.hit != "" {
							for _, s := range x.sent {
								if s.actor == f.by && !s.done {
									s.hit = true
								}
							}
						}
						return k
					}
					var hs []*mc.Handle
					reads := 0
					if has(as, "clientPing") {
						x.p.fc.feed(ping(pat(1, 5)), ping(nil))
					}
					if has(as, "read") {
						x.p.fc.feed(frame(false, opText, []byte("abcdef"))[:9], frame(false, opText, []byte("abcdef"))[9:], ping(nil), frame(true, opCont, []byte("gh")), bin(nil))
						reads = 2
					}
					rd := mc.Spawn("reader", func() {
						if !has(as, "no reader") {
							x.readLoop(100)
						}
					})
					for i, a := range as {
						switch a {
						case "clientPing", "read", "no reader":
						case "keepalive":
							hs = append(hs, mc.Spawn("client", func() {
								// answers two pings
								for n := 0; n < 2; {
									mc.SleepNs(sec / 2)
									if len(x.p.fc.out) < x.p.ws || x.p.fc.closed {
										return
									}
									if w, err := parseWire(x.p.fc.out[x.p.ws:]); err == nil && len(w.pings) > n {
										n++
										x.p.fc.feed(pong(nil))
									} else if f.hit != "" {
										return
									}
								}
							}))
						case "Close":
							hs = append(hs, mc.Spawn("Close", func() { x.p.conn.Close() }))
						default:
							hs = append(hs, mc.Spawn(fmt.Sprintf("%s%d", a, i), func() { x.act(a, i) }))
						}
					}
					mc.Join(hs...)
					mc.Quiesce()
					if has(as, "batch") {
						settle(3)
					}
					why := fmt.Sprintf("%v with %s at transport call %d (again %v)", as, f.kind, f.at, f.again)
					if f.hit == "" {
						// no such call: nothing failed
						x.p.fc.fault = nil
						if has(as, "Close") {
							mc.Join(rd)
							return
						}
						for _, s := range x.sent {
							if s.err != nil || !s.done {
								mc.Failf("%s: without a failure, %s ended with %v", why, s.actor, s.err)
							}
						}
						x.judge(x.p.expectOpen(why))
						x.p.conn.Close()
						mc.Join(rd)
						return
					}
					why += " in " + f.hit + " by " + f.by
					// the reader is released, the connection is closed
					mc.SleepNs(2 * ww)
					mc.Quiesce()
					if has(as, "no reader") {
						x.ended(why)
						_, _, err := x.p.conn.ReadMessage()
						x.readDone, x.readE = true, err
					}
					if !x.readDone {
						mc.Failf("%s: the pending read has not returned", why)
					}
					if !isFatal(x.readE) {
						mc.Failf("%s: the pending read returned %v", why, x.readE)
					}
					if len(x.inOK) > reads {
						mc.Failf("%s: reader got %q", why, x.inOK)
					}
					for i, want := range []string{"abcdefgh", ""} {
						if i < len(x.inOK) && x.inOK[i] != want {
							mc.Failf("%s: reader got %q", why, x.inOK)
						}
					}
					x.ended(why)
					if !x.p.fc.closed || x.p.fc.closeAt > f.hitAt+2*ww {
						mc.Failf("%s: transport closed after %dms", why, (x.p.fc.closeAt-f.hitAt)/1e6)
					}
					for _, s := range x.sent {
						if !s.done {
							mc.Failf("%s: %s never returned", why, s.actor)
						}
						if s.actor == f.by && s.err == nil && !s.batch && !s.bcast && s.hit {
							mc.Failf("%s: the send that failed returned no error", why)
						}
						if s.err != nil && !s.batch && !s.bcast && !isFatal(s.err) {
							mc.Failf("%s: %s returned the non-fatal error %v", why, s.actor, s.err)
						}
					}
					if late := x.p.fc.late(); len(late) > 0 {
						lw, err := parseWire(late)
						if err != nil || f.kind == "part" || f.kind == "stallpart" || len(lw.msgs) > 0 || lw.open != nil || len(lw.closes) != 1 {
							mc.Failf("%s: % x written after the failed write", why, clip(late))
						}
					}
					w, err := parseWire(x.p.fc.out[x.p.ws:])
					if err != nil {
						mc.Failf("%s: client receives %v", why, err)
					}
					// what did arrive is what was sent
					for i := range w.msgs {
						ok := w.msgs[i].op == opBin && len(w.msgs[i].data) > 3 && w.msgs[i].data[0] == 0
						for _, s := range x.sent {
							ok = ok || s.data == string(w.msgs[i].data) && s.op == w.msgs[i].op
						}
						if !ok {
							mc.Failf("%s: client receives the message %q", why, w.msgs[i].data)
						}
					}
					x.p.fc.fault = nil
					x.dead(why)
					// nobody else is affected
					if x.hooks != 1+qhooks {
						mc.Failf("%s: disconnect hook ran for another connection", why)
					}
					w0 := len(q.wire().msgs)
					want := 0
					for _, s := range x.sent {
						if s.bcast {
							want++
						}
					}
					if w0 != want {
						mc.Failf("%s: the other connection has %d messages, want %d", why, w0, want)
					}
					q.works(why + ": other connection")
					mc.Outcome("%s %s %v", f.hit, f.by, w.order)
				}
			}
			ops := []string{"bytes", "stream", "json", "ping", "bcast", "batch", "Close", "clientPing", "read"}
			for _, a := range ops {
				b := 1
				if th {
					b = 2
				}
				if a != "batch" {
					b++
				}
				out = append(out, mc.Scenario{Name: a, Bound: b, Body: run([]string{a}, 16)})
			}
			// an application that only sends: the failed operation itself ends the connection
			for _, a := range []string{"bytes", "stream", "json", "ping", "bcast", "batch", "Close"} {
				out = append(out, mc.Scenario{Name: a + ", no reader", Bound: 1 + b2i(th), Body: run([]string{a, "no reader"}, 16)})
			}
			for _, as := range pairs(ops) {
				if hasDup(as, "ping") || hasDup(as, "Close") || hasDup(as, "clientPing") || hasDup(as, "read") {
					continue
				}
				b := 1
				if th {
					b = 2
				}
				out = append(out, mc.Scenario{Name: fmt.Sprint(as), Bound: b, Body: run(as, 20)})
			}
			out = append(out, cuts(th)...)
			out = append(out, mc.Scenario{Name: "keepalive", Bound: 1, Body: run([]string{"keepalive"}, 16)})
			out = append(out, mc.Scenario{Name: "keepalive and send", Bound: 1, Body: run([]string{"keepalive", "bytes"}, 20)})
			return out
		},
	})
}

// cuts ends the client's stream, in every way, after every byte of streams that
// exercise every part of the frame format and every way of reading.
func cuts(th bool) []mc.Scenario {
	type item struct {
		b   []byte
		msg *cmsg // complete once the item has arrived
	}
	data := func(op byte, n int) item {
		m := payload(op, n, n)
		return item{frame(true, op, m), &cmsg{op, m}}
	}
	ctl := func(op byte, n int) item { return item{b: frame(true, op, pat(n, n))} }
	frag := func(last bool, b []byte) item {
		if last {
			return item{b, &cmsg{opText, []byte("abcdef")}}
		}
		return item{b: b}
	}
	long := 600
	if th {
		long = 66000
	}
	streams := []struct {
		name  string
		items []item
	}{
		{"short", []item{data(opText, 5), data(opBin, 0), data(opText, 1)}},
		{"16 bit", []item{data(opBin, 300), data(opText, 130)}},
		{"64 bit", []item{{append(append([]byte{0x82, 0xff, 0, 0, 0, 0, 0, 0, 0, 0}, maskKey[:]...), text("")...), nil}, {cat([]byte{0x82, 0xff, 0, 0, 0, 0, 0, 1, 0, 0}, maskKey[:], make([]byte, long)), nil}}},
		{"pings", []item{data(opText, 2), ctl(opPing, 0), ctl(opPing, 3), ctl(opPing, 125), data(opText, 2)}},
		{"pongs", []item{data(opText, 2), ctl(opPong, 0), ctl(opPong, 3), data(opText, 2), ctl(opPong, 0), ctl(opPong, 125), data(opText, 2)}},
		{"fragments", []item{frag(false, frame(false, opText, []byte("abc"))), ctl(opPing, 2), frag(false, frame(false, opCont, nil)), ctl(opPong, 1), frag(true, frame(true, opCont, []byte("def"))), data(opText, 3)}},
		{"close", []item{data(opText, 2), {b: closeFrame(1000, "bye")}}},
		{"close without a code", []item{data(opText, 2), {b: frame(true, opClose, nil)}}},
	}
	// the first message of the 64-bit stream is empty
	streams[2].items[0] = item{append([]byte{0x82, 0xff, 0, 0, 0, 0, 0, 0, 0, 0}, maskKey[:]...), &cmsg{opBin, nil}}
	var out []mc.Scenario
	for _, st := range streams {
		out = append(out, mc.Scenario{Name: "stream ends: " + st.name, Bound: 0, Body: func() {
			var all []byte
			var ends []int
			for _, it := range st.items {
				all = append(all, it.b...)
				ends = append(ends, len(all))
			}
			var cut int
			if len(all) > 1000 {
				cut = pick([]int{0, 1, 2, 3, 5, 9, 10, 13, 14, 15, 16, 17, 23, 24, 27, 28, 29, 100, 528, 600, len(all) - 1})
			} else {
				cut = mc.Choose(len(all) + 1)
			}
			kind := pick([]string{"EOF", "error", "silence"})
			mode := pick([]string{"message", "typed", "next", "abandon", "part", "limited", "json"})
			step := 0
			if len(all) < 1000 {
				step = pick([]int{0, 1})
			}
			why := fmt.Sprintf("%s ends by %s after byte %d, %s", st.name, kind, cut, mode)
			n := 0
			var closedConn *snapws.Conn
			o := quiet(&snapws.Options{ReadWait: time.Minute, ReadBufferSize: pick([]int{0, 150}), OnDisconnect: func(c *snapws.Conn) { n++; closedConn = c }})
			u := snapws.NewUpgrader(o)
			if mode == "limited" {
				u.Limiter = snapws.NewRateLimiter(0, 1)
			}
			p := newPeer("c").upgrade(u)
			if mc.Choose(2) == 1 {
				mustOK("Ping", p.conn.Ping())
			}
			p.fc.feed(chunks(all[:cut], step)...)
			switch kind {
			case "EOF":
				p.fc.feedEOF()
			case "error":
				p.fc.feedErr(errIO)
			}
			var last error
			reads := 0
			for i := 0; last == nil && i < 20; i++ {
				var err error
				var op byte
				var data []byte
				switch mode {
				case "message", "limited":
					op, data, err = p.conn.ReadMessage()
				case "next":
					op, data, err = rapi{"next", 2}.read(p.conn, 0)
				case "typed":
					data, err = p.conn.ReadBinary()
				case "json":
					var v any
					err = p.conn.ReadJSON(&v)
				case "abandon":
					_, _, err = p.conn.NextReader()
				case "part":
					r, _, e := p.conn.NextReader()
					if err = e; e == nil {
						_, err = r.Read(make([]byte, 1))
						if err != nil && !isFatal(err) {
							err = nil // end of message
						}
					}
				}
				if mode == "message" || mode == "next" {
					if err == nil {
						k, j := 0, 0
						for ; j < len(st.items); j++ {
							if st.items[j].msg != nil {
								if k == reads {
									break
								}
								k++
							}
						}
						if j == len(st.items) || ends[j] > cut {
							mc.Failf("%s: read delivers %q", why, clip(data))
						}
						if m := st.items[j].msg; m.op != op || string(m.data) != string(data) {
							mc.Failf("%s: message %d is %q, want %q", why, reads, clip(data), clip(m.data))
						}
						reads++
					}
				}
				if isFatal(err) {
					last = err
				} else if p.fc.closed {
					mc.Failf("%s: the connection is closed and the read returned %v", why, err)
				}
			}
			if last == nil {
				mc.Failf("%s: reads go on", why)
			}
			if mode == "message" || mode == "next" {
				for j, it := range st.items {
					if it.msg != nil && ends[j] <= cut {
						reads--
					}
				}
				if reads != 0 {
					mc.Failf("%s: %d whole messages not delivered (%v)", why, -reads, last)
				}
			}
			if !p.fc.closed || n != 1 || closedConn != p.conn {
				mc.Failf("%s: the read returned %v; transport closed %v, disconnect hook ran %d times", why, last, p.fc.closed, n)
			}
			_, _, err := p.conn.ReadMessage()
			mustFatal(why+": another read", err)
			mustFatal(why+": a send", p.conn.SendBytes(bg, []byte("x")))
			mc.Outcome("%s %v", kind, last)
		}})
	}
	return out
}
