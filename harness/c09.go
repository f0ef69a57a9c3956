package harness

import (
	"fmt"
	"io"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// closeBy closes the connection of x in one of the ways a connection can end.
// Those that need the reader feed the client's side.
func (x *mix) closeBy(kind string) {
	c := x.p.conn
	switch kind {
	case "Close":
		c.Close()
	case "CloseWithCode":
		c.CloseWithCode(3000, "bye")
	case "managedClose":
		if k := x.m.Get("k"); k != nil {
			k.Close()
		} else {
			c.Close()
		}
	case "clientClose":
		x.p.fc.feed(closeFrame(3333, "client"))
	case "clientEOF":
		x.p.fc.feedEOF()
	case "clientReset":
		x.p.fc.feedErr(errIO)
	case "violation":
		x.p.fc.feed([]byte{0xF1, 0x80, 0, 0, 0, 0})
	case "tooBig":
		x.p.fc.feed(bin(pat(1, 300)))
	case "shutdown":
		x.m.Shutdown()
	case "replace":
		q := newPeer("c2")
		if _, err := x.m.Connect("k", response(q.fc, 4096, 4096, nil), request()); err != nil {
			mc.Failf("Connect: %v", err)
		}
	default:
		panic("closer " + kind)
	}
}

func needsReader(kind string) bool {
	return strings.HasPrefix(kind, "client") || kind == "violation" || kind == "tooBig" || kind == "replace"
}

// ended checks the state every closed connection must reach.
func (x *mix) ended(why string, codes ...int) *wire {
	w := x.p.wire()
	if len(w.closes) > 1 {
		mc.Failf("%s: %d close frames", why, len(w.closes))
	}
	if !x.p.fc.closed {
		mc.Failf("%s: transport not closed", why)
	}
	if x.hooks != 1 {
		mc.Failf("%s: the disconnect hook ran %d times", why, x.hooks)
	}
	return w
}

// dead checks that operations on the closed connection fail and have no effect.
func (x *mix) dead(why string) {
	c := x.p.conn
	n := len(x.p.fc.out)
	chk := func(what string, err error) {
		if err == nil {
			mc.Failf("%s: %s succeeds on a closed connection", why, what)
		}
	}
	chk("SendBytes", c.SendBytes(bg, []byte("dead")))
	chk("SendString", c.SendString(bg, nil))
	chk("SendJSON", c.SendJSON(bg, 1))
	_, err := c.NextWriter(bg, opText)
	chk("NextWriter", err)
	chk("Ping", c.Ping())
	_, _, err = c.ReadMessage()
	chk("ReadMessage", err)
	if !isFatal(err) {
		mc.Failf("%s: reading a closed connection: %v, want a fatal error", why, err)
	}
	_, _, err = c.NextReader()
	chk("NextReader", err)
	if err := c.Batch([]byte("x")); err == nil {
		mc.Failf("%s: Batch succeeds on a closed connection", why)
	}
	c.Close()
	c.CloseWithCode(1008, "again")
	mc.Quiesce()
	if len(x.p.fc.out) != n {
		mc.Failf("%s: %d bytes written after the connection was closed", why, len(x.p.fc.out)-n)
	}
	if x.hooks != 1 {
		mc.Failf("%s: the disconnect hook ran %d times", why, x.hooks)
	}
}

func regC09() {
	Reg(&mc.Property{
		ID:   "C09",
		Rule: "every way of closing (application, manager, shutdown, client close frame, EOF, reset, protocol violation, limit) paired with every concurrent activity (send, JSON, streaming, unfinished streaming writer, broadcast, batch, ping, reader, second closer), every pair of closers with an activity, hooks that close again, stalled clients; all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			closers := []string{"Close", "CloseWithCode", "clientClose", "clientEOF", "clientReset", "violation", "tooBig", "shutdown", "replace"}
			acts := []string{"bytes", "stream", "open", "bcast", "batch", "ping", "json"}
			run := func(cs, as []string, rehook bool) func() {
				return func() {
					mo := mixOpts{batch: has(as, "batch"), split: true, o: snapws.Options{MaxMessageSize: 100, BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureStrategy(2 * b2i(has(as, "bcast")))}}
					if rehook {
						mo.onClose = func(x *mix) {
							x.p.conn.Close()
							x.p.conn.SendBytes(bg, []byte("from the hook"))
							x.m.GetAllConns()
						}
					}
					x := newMix(mo)
					var hs []*mc.Handle
					hs = append(hs, mc.Spawn("reader", func() { x.readLoop(100) }))
					for i, a := range as {
						hs = append(hs, mc.Spawn(a, func() { x.act(a, i) }))
					}
					for _, c := range cs {
						hs = append(hs, mc.Spawn(c, func() { x.closeBy(c) }))
					}
					mc.Join(hs...)
					mc.Quiesce()
					why := fmt.Sprintf("%v while %v", cs, as)
					w := x.ended(why)
					net := false
					codes := map[int]bool{}
					for _, c := range cs {
						switch c {
						case "Close", "shutdown":
							codes[1000] = true
						case "CloseWithCode":
							codes[3000] = true
						case "clientClose":
							codes[3333] = true
						case "clientEOF", "clientReset", "replace":
							net = true
						case "violation":
							codes[1002] = true
						case "tooBig":
							codes[1009] = true
						}
					}
					if !net {
						if len(w.closes) != 1 {
							mc.Failf("%s: %d close frames, want 1", why, len(w.closes))
						}
						if !codes[closeCode(w.closes[0])] {
							mc.Failf("%s: close status %d", why, closeCode(w.closes[0]))
						}
					}
					if len(w.tail) > 0 && (!net || len(w.closes) > 0) {
						mc.Failf("%s: incomplete frame % x on the wire", why, clip(w.tail))
					}
					x.judge(w)
					if x.readE == nil || !isFatal(x.readE) {
						mc.Failf("%s: reader ended with %v", why, x.readE)
					}
					if len(x.inOK) > 0 {
						mc.Failf("%s: reader got %q", why, x.inOK)
					}
					for k := range x.open {
						for _, m := range w.msgs {
							if strings.HasPrefix(string(m.data), k) {
								mc.Failf("%s: a message the application had not finished was completed: %q", why, m.data)
							}
						}
					}
					if !has(as, "batch") {
						x.dead(why)
					}
					mc.Outcome("%v %d", w.order, len(x.sent))
				}
			}
			for _, c := range closers {
				b := 2
				if th {
					b = 3
				}
				out = append(out, mc.Scenario{Name: c + " alone", Bound: b, Body: run([]string{c}, nil, false)})
				out = append(out, mc.Scenario{Name: c + " hook closes", Bound: b, Body: run([]string{c}, []string{"bytes"}, true)})
				for _, a := range acts {
					b := b
					if a == "batch" {
						b--
					}
					out = append(out, mc.Scenario{Name: c + " / " + a, Bound: b, Body: run([]string{c}, []string{a}, false)})
				}
			}
			for _, cs := range pairs([]string{"Close", "CloseWithCode", "clientClose", "clientReset", "violation", "shutdown"}) {
				for _, a := range acts {
					if hasDup(cs, "clientClose") || hasDup(cs, "clientReset") || hasDup(cs, "violation") {
						continue
					}
					b := 1
					if th {
						b = 2
					}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%v / %s", cs, a), Bound: b, Body: run(cs, []string{a}, false)})
				}
			}
			for _, c := range []string{"Close", "clientClose", "violation"} {
				for _, as := range pairs(acts) {
					if hasDup(as, "ping") {
						continue
					}
					b := 1
					if th {
						b = 2
					}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s / %v", c, as), Bound: b, Body: run([]string{c}, as, false)})
				}
			}

			// closing a connection whose writer is held by the application: nothing
			// the application wrote is finished for it, its later calls fail
			wr := func(n string, buf, at int) func() {
				return func() {
					x := newMix(mixOpts{split: true, o: snapws.Options{WriteBufferSize: buf, DisableWriteBuffersPooling: mc.Choose(2) == 1}})
					c := x.p.conn
					w, err := c.NextWriter(bg, opText)
					mustOK("NextWriter", err)
					var hs []*mc.Handle
					hs = append(hs, mc.Spawn("closer", func() { c.CloseWithCode(1008, "x") }))
					var fin error
					finished := false
					hs = append(hs, mc.Spawn("streamer", func() {
						for i := 0; i < at; i++ {
							w.Write([]byte("abcdef"))
							if i%2 == 1 {
								w.Flush()
							}
						}
						if n == "finish" {
							fin = w.Close()
							finished = true
						}
					}))
					mc.Join(hs...)
					mc.Quiesce()
					wi := x.p.expectClosed("close with a held writer", 1008)
					if x.hooks != 1 {
						mc.Failf("hook ran %d times", x.hooks)
					}
					if finished && fin == nil {
						if len(wi.msgs) != 1 {
							mc.Failf("finished message not on the wire")
						}
					} else if len(wi.msgs) != 0 {
						mc.Failf("message %q completed on the application's behalf", wi.msgs[0].data)
					}
					if len(wi.msgs) == 1 && string(wi.msgs[0].data) != strings.Repeat("abcdef", at) {
						mc.Failf("message %q", wi.msgs[0].data)
					}
					nb := len(x.p.fc.out)
					if !finished {
						w.Write([]byte("late"))
						if err := w.Flush(); err == nil {
							mc.Failf("Flush on a closed connection succeeds")
						}
						if err := w.Close(); err == nil {
							mc.Failf("writer Close on a closed connection succeeds")
						}
					}
					if len(x.p.fc.out) != nb {
						mc.Failf("bytes written after the close")
					}
					mc.Outcome("%v", wi.order)
				}
			}
			for _, n := range []string{"finish", "hold"} {
				for _, buf := range []int{18, 100} {
					for at := 1; at <= 3; at++ {
						b := 3
						if th {
							b = 4
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("held writer %s %d %d", n, buf, at), Bound: b, Body: wr(n, buf, at)})
					}
				}
			}

			// a client that has stopped draining, or stops in the middle of a ping's
			// payload: everything still returns within the write timeout
			stalled := func(a string, half bool) func() {
				return func() {
					ww := 5 * sec
					x := newMix(mixOpts{split: half, o: snapws.Options{WriteWait: 5 * time.Second, BroadcastChannelsSize: 1}})
					x.p.fc.stall = true
					r := mc.Spawn("reader", func() { x.readLoop(10) })
					s := mc.Spawn("act", func() { x.act(a, 0) })
					k := mc.Spawn("closer", func() {
						t0 := mc.NowNs()
						x.p.conn.Close()
						if d := mc.NowNs() - t0; d > 2*ww {
							mc.Failf("Close of a stalled connection took %ds", d/sec)
						}
					})
					mc.Join(r, s, k)
					mc.Quiesce()
					if mc.NowNs() > 3*ww {
						mc.Failf("operations on a stalled connection returned after %ds", mc.NowNs()/sec)
					}
					w := x.ended("stalled client")
					if len(w.msgs) > 0 {
						mc.Failf("message on a stalled transport")
					}
				}
			}
			for _, a := range []string{"bytes", "stream", "open", "bcast", "ping"} {
				for _, half := range []bool{false, true} {
					b := 2
					if th {
						b = 3
					}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("stalled %s half=%v", a, half), Bound: b, Body: stalled(a, half)})
				}
			}
			slow := func() {
				// the client sends only a part of a ping (close, pong): closing and
				// sending go on
				x := newMix(mixOpts{})
				f := pick([][]byte{ping(pat(1, 50)), pong(pat(1, 50)), closeFrame(1000, "a reason that is long"), bin(pat(1, 50)), text("hello")})
				cut := mc.Choose(len(f)-1) + 1
				x.p.fc.feed(f[:cut])
				r := mc.Spawn("reader", func() { x.readLoop(10) })
				mc.Quiesce()
				s := mc.Spawn("sender", func() { x.p.conn.SendBytes(bg, []byte("out")) })
				g := mc.Spawn("pinger", func() { x.p.conn.Ping() })
				mc.Join(s, g)
				k := mc.Spawn("closer", func() { x.p.conn.Close() })
				mc.Join(k)
				mc.Join(r)
				if mc.NowNs() != 0 {
					mc.Failf("with a client that stops after %d bytes of a frame, send, ping and close return after %dms", cut, mc.NowNs()/1e6)
				}
				mc.Quiesce()
				w := x.p.expectClosed("slow client", 1000)
				if len(w.msgs) != 1 || len(w.pings) != 1 {
					mc.Failf("slow client: message or ping missing: %v", w.order)
				}
				if x.hooks != 1 {
					mc.Failf("slow client: hook ran %d times", x.hooks)
				}
			}
			sb := 1
			if th {
				sb = 2
			}
			out = append(out, mc.Scenario{Name: "client stops in the middle of a frame", Bound: sb, Body: slow})
			bp := func() {
				// backpressure close races with the application's own close
				x := newMix(mixOpts{split: true, o: snapws.Options{BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureClose}})
				r := mc.Spawn("reader", func() { x.readLoop(10) })
				b := mc.Spawn("broadcaster", func() {
					for i := 0; i < 4; i++ {
						x.m.BroadcastString(bg, []byte{byte('a' + i)})
					}
				})
				k := mc.Spawn("closer", func() { x.p.conn.CloseWithCode(3000, "") })
				mc.Join(r, b, k)
				mc.Quiesce()
				w := x.p.expectClosed("backpressure", 3000, 1008)
				if x.hooks != 1 {
					mc.Failf("hook ran %d times", x.hooks)
				}
				prev := byte(0)
				for _, m := range w.msgs {
					if len(m.data) != 1 || m.data[0] <= prev {
						mc.Failf("broadcasts %q", w.msgs)
					}
					prev = m.data[0]
				}
				x.dead("backpressure")
				mc.Outcome("%v", w.order)
			}
			out = append(out, mc.Scenario{Name: "backpressure close", Bound: sb + 1, Body: bp})
			return out
		},
	})
	_ = io.EOF
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
