package harness

import (
	"fmt"
	"io"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// early is a client that talks before it has seen the handshake response.
type early struct {
	msgs  []cmsg
	pings [][]byte
	data  []byte
}

func earlyStream(seed int) *early {
	e := &early{}
	add := func(op byte, d []byte, fs ...[]byte) {
		e.msgs = append(e.msgs, cmsg{op, d})
		e.data = append(e.data, cat(fs...)...)
	}
	a, b, c := tpat(seed, 11), pat(seed+1, 140), tpat(seed+2, 33)
	add(opText, a, text(string(a)))
	pg := pat(seed, 20)
	e.pings = append(e.pings, pg, pat(seed+5, 125))
	add(opText, c, ping(pg), frame(false, opText, c[:5]), ping(e.pings[1]), frame(false, opCont, c[5:5]), pong(nil), frame(true, opCont, c[5:]))
	add(opBin, b, bin(b))
	add(opBin, nil, bin(nil))
	return e
}

// serve reads what the client sends and echoes it.
func (e *early) serve(p *peer, a rapi, why string) {
	for i, m := range e.msgs {
		p.expectMsg(a, m, fmt.Sprintf("%s, message %d", why, i))
		if m.op == opText {
			mustOK("SendString", p.conn.SendString(bg, m.data))
		} else {
			mustOK("SendBytes", p.conn.SendBytes(bg, m.data))
		}
	}
	e.judge(p, why)
}

func (e *early) judge(p *peer, why string) {
	w := p.expectOpen(why)
	if len(w.msgs) != len(e.msgs) || len(w.pongs) != len(e.pings) {
		mc.Failf("%s: %d messages echoed as %d, %d pings answered by %d pongs", why, len(e.msgs), len(w.msgs), len(e.pings), len(w.pongs))
	}
	for i, m := range e.msgs {
		if w.msgs[i].op != m.op || string(w.msgs[i].data) != string(m.data) {
			mc.Failf("%s: message %d %q reaches the client as %q", why, i, clip(m.data), clip(w.msgs[i].data))
		}
	}
	for i, m := range e.pings {
		if string(w.pongs[i]) != string(m) {
			mc.Failf("%s: ping %q answered by %q", why, clip(m), clip(w.pongs[i]))
		}
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C23",
		Rule: "every number of early bytes from none to the whole stream (or as many as fit the HTTP server's buffer), over HTTP buffer sizes, configured read- and write-buffer sizes, segmentations of the rest, read calls, pooling and entry points; two connections of one upgrader; early streams that end, break or violate the protocol; data arriving at every moment of the handshake, hooks that read and send, under all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			brs := []int{16, 17, 64, 124, 125, 126, 200, 4096}
			for _, br := range brs {
				for _, rb := range []int{0, 1, 16, 100, 125, 126, 200, 4096, 9000} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("HTTP buffer %d read buffer %d", br, rb), Bound: 0, Body: func() {
						e := earlyStream(3)
						n := mc.Choose(min(br, len(e.data)) + 1)
						seg := []int{0, 1, 7}[mc.Choose(3)]
						a := []rapi{{"message", 0}, {"next", 4}, {"typed", 0}}[mc.Choose(2+b2i(th))]
						u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
						p := newPeer("client")
						rw := response(p.fc, br, 4096, e.data[:n])
						if n < len(e.data) {
							p.fc.feed(chunks(e.data[n:], seg)...)
						}
						c, err := u.Upgrade(rw, request())
						mustOK("Upgrade", err)
						p.conn = c
						p.shaken()
						if len(p.fc.out) != p.ws {
							mc.Failf("something follows the response at once")
						}
						e.serve(p, a, fmt.Sprintf("%d early bytes", n))
						p.works("early data")
					}})
				}
			}
			// the write buffer comes from the HTTP server, from a pool or is new
			for _, bw := range []int{16, 30, 64, 200, 4096} {
				for _, wb := range []int{0, 15, 20, 30, 64, 200, 4082, 4096} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("HTTP write buffer %d write buffer %d", bw, wb), Bound: 0, Body: func() {
						o := &snapws.Options{WriteBufferSize: wb, ReadBufferSize: []int{0, 20}[mc.Choose(2)], DisableWriteBuffersPooling: mc.Choose(2) == 1}
						proto := ""
						if mc.Choose(2) == 1 {
							proto = strings.Repeat("p", []int{1, 40, 5000}[mc.Choose(3)])
							o.SubProtocols = []string{proto}
						}
						u := snapws.NewUpgrader(quiet(o))
						via := mc.Choose(3)
						m := snapws.NewManager[int](u)
						rm := snapws.NewRoomManager[int](u)
						es := []*early{earlyStream(3), earlyStream(60), earlyStream(90)}
						ps := []*peer{newPeer("0"), newPeer("1"), newPeer("2")}
						open := func(i int) {
							p, e := ps[i], es[i]
							n := []int{0, 9, 60, 64}[mc.Choose(4)]
							rw := response(p.fc, 64, bw, e.data[:n])
							p.fc.feed(e.data[n:])
							req := request()
							if proto != "" {
								req.Header.Set("Sec-WebSocket-Protocol", proto)
							}
							switch via {
							case 0:
								c, err := u.Upgrade(rw, req)
								mustOK("Upgrade", err)
								p.conn = c
							case 1:
								k, err := m.Connect(i, rw, req)
								mustOK("Connect", err)
								p.conn = k.Conn
							case 2:
								c, _, err := rm.Connect(rw, req, 5)
								mustOK("Connect", err)
								p.conn = c
							}
							p.shaken()
							if len(p.fc.out) != p.ws || strings.Contains(string(p.fc.out), "Protocol: "+proto) != (proto != "") {
								mc.Failf("response is %q", clip(p.fc.out))
							}
						}
						open(0)
						// a message that is being written while the others are opened and served
						w0, err := ps[0].conn.NextWriter(bg, opText)
						mustOK("NextWriter", err)
						long := tpat(8, 150)
						w0.Write(long[:70])
						open(1)
						es[1].serve(ps[1], rapi{"message", 0}, "second connection")
						ps[1].conn.Close()
						open(2)
						w0.Write(long[70:])
						mustOK("Close", w0.Close())
						es[2].serve(ps[2], rapi{"message", 0}, "third connection")
						e := es[0]
						for i, m := range e.msgs {
							ps[0].expectMsg(rapi{"next", 9}, m, fmt.Sprintf("first connection, message %d", i))
						}
						w := ps[0].expectOpen("first connection")
						if len(w.msgs) != 1 || string(w.msgs[0].data) != string(long) || len(w.pongs) != len(e.pings) {
							mc.Failf("first connection receives %d messages, %d pongs", len(w.msgs), len(w.pongs))
						}
						ps[1].expectClosed("second", 1000)
					}})
				}
			}
			// early streams that do not go on
			for _, end := range []string{"eof", "error", "close", "violation", "unmasked", "half"} {
				out = append(out, mc.Scenario{Name: "early " + end, Bound: 0, Body: func() {
					e := earlyStream(7)
					var tail []byte
					switch end {
					case "close":
						tail = closeFrame(1001, "bye")
					case "violation":
						tail = frame(true, opCont, []byte("x"))
					case "unmasked":
						tail = []byte{0x81, 1, 'x'}
					case "half":
						tail = text("cut off here")[:9]
					}
					all := append(append([]byte{}, e.data...), tail...)
					br := []int{64, 500, 4096}[mc.Choose(3)]
					n := mc.Choose(min(br, len(all)) + 1)
					u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: []int{0, 20, 4096}[mc.Choose(3)]}))
					p := newPeer("client")
					rw := response(p.fc, br, 4096, all[:n])
					if n < len(all) {
						p.fc.feed(all[n:])
					}
					switch end {
					case "eof", "half":
						p.fc.feedEOF()
					case "error":
						p.fc.feedErr(io.ErrClosedPipe)
					}
					c, err := u.Upgrade(rw, request())
					mustOK("Upgrade", err)
					p.conn = c
					p.shaken()
					for i, m := range e.msgs {
						p.expectMsg(rapi{"message", 0}, m, fmt.Sprintf("early message %d", i))
					}
					_, d, err := p.conn.ReadMessage()
					if !isFatal(err) {
						mc.Failf("after early data ending with %s a read gives %q, %v", end, d, err)
					}
					if !p.fc.closed {
						mc.Failf("connection stays open")
					}
					switch end {
					case "close":
						p.expectClosed(end, 1001)
					case "violation", "unmasked":
						p.expectClosed(end, 1002)
					}
				}})
			}
			// data arriving during the handshake
			for _, what := range []string{"nothing", "hook reads", "hook sends", "hook spawns", "manager", "batching", "pinging"} {
				for _, rb := range []int{0, 20, 4096} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("arriving, %s, read buffer %d", what, rb), Bound: 2 + b2i(th), Body: func() {
						e := earlyStream(3)
						p := newPeer("client")
						n := []int{0, 30}[mc.Choose(2)]
						o := &snapws.Options{ReadBufferSize: rb, WriteWait: time.Hour}
						first := 0
						greet := 0
						var h *mc.Handle
						o.OnConnect = func(c *snapws.Conn) {
							p.conn = c
							p.shaken()
							switch what {
							case "hook reads":
								p.expectMsg(rapi{"message", 0}, e.msgs[0], "in the connect hook")
								first = 1
							case "hook sends":
								greet = 1
								mustOK("SendString", c.SendString(bg, []byte("hi")))
							case "hook spawns":
								greet = 1
								h = mc.Spawn("greeter", func() { mustOK("SendString", c.SendString(bg, []byte("hi"))) })
							}
						}
						u := snapws.NewUpgrader(quiet(o))
						if what == "batching" {
							u.EnablePrefixBatching(bg, flushEvery)
						}
						m := snapws.NewManager[int](u)
						f := mc.Spawn("client", func() {
							for _, c := range chunks(e.data[n:], 100) {
								mc.Point("client sends")
								p.fc.feed(c)
							}
						})
						rw := response(p.fc, 64, 4096, e.data[:n])
						if what == "manager" {
							k, err := m.Connect(1, rw, request())
							mustOK("Connect", err)
							p.conn = k.Conn
							greet = 1
							h = mc.Spawn("broadcaster", func() {
								if n, err := m.BroadcastString(bg, []byte("hi")); n != 1 || err != nil {
									mc.Failf("broadcast: %d, %v", n, err)
								}
							})
						} else {
							c, err := u.Upgrade(rw, request())
							mustOK("Upgrade", err)
							p.conn = c
						}
						if what == "pinging" {
							h = mc.Spawn("pinger", func() { mustOK("Ping", p.conn.Ping()) })
						}
						if what == "batching" {
							mustOK("Batch", p.conn.Batch([]byte("b")))
						}
						for i, m := range e.msgs[first:] {
							p.expectMsg(rapi{"message", 0}, m, fmt.Sprintf("message %d", i+first))
						}
						mc.Join(f)
						if h != nil {
							mc.Join(h)
						}
						if what == "batching" {
							settle(2)
							greet = 1
						}
						mc.Quiesce()
						w := p.expectOpen("arriving")
						if len(w.msgs) != greet || len(w.pongs) != 2 || len(w.pings) != b2i(what == "pinging") {
							mc.Failf("client receives %d messages, %d pongs, %d pings", len(w.msgs), len(w.pongs), len(w.pings))
						}
					}})
				}
			}
			return out
		},
	})
}
