package harness

import (
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// stalls: a client that stops reading (or stops sending in the middle of a frame)
// and everybody else.
func init() {
	Reg(&mc.Property{
		ID:   "C26",
		Rule: "one or two operations of every kind on a connection whose client has stopped reading (before or in the middle of a frame), or has stopped sending after every part of a frame, concurrent with every kind of operation on other connections, managers and rooms, begun at the moment of the stall or while it lasts, under all schedules up to the deviation bound; durations measured in virtual time, which only passes when nothing can run. Clients that resume before the write wait are checked to lose nothing.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			const ww = sec / 5
			add := func(name string, b int, body func()) {
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: name, Bound: b, Body: body})
			}
			type world struct {
				*mix
				q     *peer // another client
				rm    *snapws.RoomManager[string]
				room  *snapws.Room[string]
				qwant []string // what the other client must have received
			}
			build := func(bp snapws.BackpressureStrategy, pre func(w *world)) *world {
				w := &world{}
				w.mix = newMix(mixOpts{batch: true, o: snapws.Options{WriteWait: time.Duration(ww), BroadcastChannelsSize: 2, BroadcastBackpressure: bp}})
				w.q = newPeer("other")
				qc, err := w.m.Connect("other", response(w.q.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				w.q.conn = qc.Conn
				w.q.shaken()
				w.rm = snapws.NewRoomManager[string](w.u)
				w.room = w.rm.Add("r")
				w.room.Add(w.p.conn)
				w.room.Add(w.q.conn)
				return w
			}
			// instant runs an operation that must not wait for anybody's network.
			instant := func(what string, f func()) {
				t := mc.NowNs()
				f()
				if d := mc.NowNs() - t; d > 0 {
					mc.Failf("%s took %dms while a client is stalled", what, d/1e6)
				}
			}
			bystand := func(w *world, kind string, bp snapws.BackpressureStrategy) {
				got := func(d string) { w.qwant = append(w.qwant, d) }
				switch kind {
				case "send":
					instant("a send to another client", func() { mustOK("SendString", w.q.conn.SendString(bg, []byte("hello other"))) })
					got("hello other")
				case "stream":
					instant("a stream to another client", func() {
						wr, err := w.q.conn.NextWriter(bg, opText)
						mustOK("NextWriter", err)
						for _, s := range []string{"one, ", "two and ", "three"} {
							_, err = wr.Write([]byte(s))
							mustOK("Write", err)
							mustOK("Flush", wr.Flush())
						}
						mustOK("Close", wr.Close())
					})
					got("one, two and three")
				case "broadcast":
					for i := range 4 {
						// the queue of the stalled one fills up, the other's is read in between
						d := fmt.Sprintf("bcast%d", i)
						instant("a broadcast", func() {
							n, err := w.m.BroadcastString(bg, []byte(d))
							mustOK("BroadcastString", err)
							if n < 1 {
								mc.Failf("broadcast reached %d connections", n)
							}
						})
						got(d)
						mc.Quiesce()
					}
				case "room broadcast":
					instant("a room broadcast", func() {
						_, err := w.room.BroadcastString(bg, []byte("room bcast"))
						mustOK("BroadcastString", err)
					})
					got("room bcast")
				case "batch":
					instant("a batch call", func() { mustOK("Batch", w.q.conn.Batch([]byte("batched"))) })
					got("batched")
				case "batch broadcast":
					instant("a batch broadcast", func() {
						_, err := w.m.BatchBroadcast(bg, []byte("batch bcast"))
						mustOK("BatchBroadcast", err)
					})
					got("batch bcast")
				case "batch to it":
					instant("a batch call", func() { w.p.conn.Batch([]byte("b1")) })
				case "ping":
					instant("a ping of another client", func() { mustOK("Ping", w.q.conn.Ping()) })
				case "lookups":
					instant("a lookup", func() {
						w.m.Get("k")
						w.m.GetAllConns("other")
						w.m.GetAllConnsAsConn()
						w.room.GetAllConns()
						w.rm.Get("r")
						w.rm.GetRoomKeys()
						w.p.conn.NetConn()
						w.p.conn.MetaData.Store(1, 2)
					})
				case "rooms":
					instant("room operations", func() {
						r := w.rm.Add("r2")
						r.Add(w.p.conn)
						w.room.Move(w.p.conn, "r2")
						r.Remove(w.p.conn)
						r.Add(w.p.conn)
						r.RemoveAll()
						r.Close()
						w.room.Close()
					})
				case "connect":
					instant("another upgrade", func() {
						n := newPeer("new")
						c, err := w.m.Connect("new", response(n.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						n.conn = c.Conn
						n.shaken()
						n.works("a new client")
						c.Close()
					})
				case "replace":
					instant("replacing the stalled connection", func() {
						n := newPeer("new")
						c, err := w.m.Connect("k", response(n.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						n.conn = c.Conn
						n.shaken()
						if w.m.Get("k") != c {
							mc.Failf("the new connection is not registered")
						}
						n.works("a new client")
					})
				case "close other":
					instant("closing another connection", func() { w.q.conn.Close() })
				case "shutdown":
					t := mc.NowNs()
					w.m.Shutdown()
					if d := mc.NowNs() - t; d > ww {
						mc.Failf("Shutdown with one stalled client took %dms", d/1e6)
					}
				case "room shutdown":
					t := mc.NowNs()
					w.rm.Shutdown()
					if d := mc.NowNs() - t; d > ww {
						mc.Failf("Shutdown with one stalled client took %dms", d/1e6)
					}
				case "flusher close":
					instant("closing the flusher", func() { w.u.Flusher.Close() })
				case "enable batching":
					instant("enabling batching", func() { w.u.EnableJSONBatching(bg, flushEvery) })
				default:
					panic(kind)
				}
			}
			ends := func(by string) bool { return by == "close other" || by == "shutdown" || by == "room shutdown" }
			stalled := func(as []string, by string, resume bool) func() {
				return func() {
					bp := snapws.BackpressureStrategy(snapws.BackpressureDrop)
					if by == "broadcast" && mc.Choose(2) == 1 {
						bp = snapws.BackpressureClose
					}
					if has(as, "bcastwait") {
						bp = snapws.BackpressureWait
					}
					late := mc.Choose(2) == 1                 // the bystander comes during the stall
					mid := mc.Choose(2) == 1                  // the stall begins inside a frame
					later := len(as) > 1 && mc.Choose(2) == 1 // the second operation comes later
					w := build(bp, nil)
					base := w.hooks
					if by == "" && mc.Choose(2) == 1 {
						// it was fine until just now
						mustOK("SendBytes", w.p.conn.SendBytes(bg, []byte("before")))
						mustOK("Ping", w.q.conn.Ping())
						mc.SleepNs(ww * 3 / 4)
					}
					if has(as, "clientTalks") {
						mustOK("Ping", w.p.conn.Ping())
					}
					why := fmt.Sprintf("%v and %s", as, by)
					first := int64(-1)
					if mid {
						n := 0
						w.p.fc.fault = func(op string) string {
							if op == "write" {
								n++
								if n == 1 {
									return "stallpart"
								}
							}
							return ""
						}
					} else {
						w.p.fc.stall = true
					}
					w.p.fc.onWrite = func(b []byte) {
						if first < 0 {
							first = mc.NowNs()
							if resume {
								mc.Spawn("client", func() {
									mc.SleepNs(pick([]int64{ww / 2, ww - 1}))
									w.p.fc.stall = false
								})
							}
						}
					}
					rd := mc.Spawn("reader", func() { w.readLoop(100) })
					type span struct {
						name string
						d    int64
						done bool
					}
					var spans []*span
					var hs []*mc.Handle
					for i, a := range as {
						if a == "clientPing" {
							w.p.fc.feed(ping([]byte("x")), text("after the ping"))
							continue
						}
						if a == "clientTalks" {
							// it doesn't read, but it goes on sending
							hs = append(hs, mc.Spawn("client talks", func() {
								for range 3 {
									mc.SleepNs(ww / 4)
									w.p.fc.feed(text("talk"), pong(nil))
								}
							}))
							continue
						}
						s := &span{name: a}
						spans = append(spans, s)
						hs = append(hs, mc.Spawn(fmt.Sprintf("%s%d", a, i), func() {
							if i == 1 && later {
								mc.SleepNs(ww / 3)
							}
							switch a {
							case "Close":
								t := mc.NowNs()
								w.p.conn.CloseWithCode(snapws.CloseNormalClosure, "bye")
								s.d = mc.NowNs() - t
							case "bytes":
								// one call
								d := string(tpat(i, 25))
								t := mc.NowNs()
								w.rec("bytes", opBin, d, func() error { return w.p.conn.SendBytes(bg, []byte(d)) })
								s.d = mc.NowNs() - t
							case "bcastwait":
								room := mc.Choose(2) == 1
								t := mc.NowNs()
								for range 5 {
									if !room {
										w.m.BroadcastString(bg, []byte("wait"))
									} else {
										w.room.BroadcastString(bg, []byte("wait"))
									}
								}
								s.d = mc.NowNs() - t
							case "bcast":
								t := mc.NowNs()
								w.act(a, i)
								if s.d = mc.NowNs() - t; s.d > 0 {
									mc.Failf("%s: a broadcast took %dms", why, s.d/1e6)
								}
							default:
								t := mc.NowNs()
								w.act(a, i)
								s.d = mc.NowNs() - t
							}
							s.done = true
						}))
					}
					var bh *mc.Handle
					if by != "" {
						bh = mc.Spawn("bystander", func() {
							if late {
								mc.SleepNs(ww / 4)
							}
							bystand(w, by, bp)
						})
						mc.Join(bh)
						mc.Quiesce()
						if by == "batch" || by == "batch broadcast" {
							mc.SleepNs(flushEvery.Nanoseconds())
							mc.Quiesce()
						}
						if by != "shutdown" && by != "room shutdown" {
							if mc.NowNs() > ww && !resume {
								mc.Failf("%s: %dms have passed", why, mc.NowNs()/1e6)
							}
							qw := w.q.wire()
							n := 0
							for _, d := range w.qwant {
								for _, m := range qw.msgs {
									if string(m.data) == d || (by == "batch" || by == "batch broadcast") && len(m.data) > 4 && string(m.data[4:]) == d {
										n++
										break
									}
								}
							}
							if n != len(w.qwant) {
								mc.Failf("%s: the other client has received %q, want %q by now", why, qw.msgs, w.qwant)
							}
						}
					}
					mc.Join(hs...)
					mc.Quiesce()
					for _, s := range spans {
						if s.d > ww {
							mc.Failf("%s: %s on the stalled connection took %dms, the write wait is %dms", why, s.name, s.d/1e6, ww/1e6)
						}
					}
					mc.SleepNs(2 * ww)
					mc.Quiesce()
					switch {
					case resume && !has(as, "Close") && !ends(by) && by != "replace" && bp != snapws.BackpressureClose:
						for _, s := range w.sent {
							if s.err != nil && !(s.bcast && s.err.Error() == "not queued") {
								mc.Failf("%s: client resumed in time and %s failed with %v", why, s.actor, s.err)
							}
						}
						wi := w.p.expectOpen(why)
						if has(as, "clientPing") && (len(wi.pongs) != 1 || string(wi.pongs[0]) != "x" || len(w.inOK) != 1) {
							mc.Failf("%s: client resumed in time and got pongs %q, the reader %q", why, wi.pongs, w.inOK)
						}
						w.p.conn.Close()
						w.p.expectClosed(why)
						mc.Join(rd)
					case resume:
						w.p.conn.Close()
						w.p.wire()
						mc.Join(rd)
					case first >= 0:
						if !w.p.fc.closed || w.p.fc.closeAt > first+ww {
							mc.Failf("%s: a write blocked at %dms, transport closed %v at %dms", why, first/1e6, w.p.fc.closed, w.p.fc.closeAt/1e6)
						}
						mc.Join(rd)
						if w.readE == nil || !isFatal(w.readE) {
							mc.Failf("%s: the reader ended with %v", why, w.readE)
						}
						want := base + 1
						switch by {
						case "close other", "shutdown", "room shutdown", "connect":
							want++
						}
						if w.hooks != want {
							mc.Failf("%s: disconnect hook ran %d times, want %d", why, w.hooks, want)
						}
					default:
						w.p.fc.stall = false
						w.p.conn.Close()
						mc.Join(rd)
					}
					if !ends(by) {
						w.q.works(why)
					}
					mc.Outcome("%v %v", first >= 0, w.p.fc.closed)
				}
			}
			ops := []string{"bytes", "stream", "json", "ping", "bcast", "batch", "Close", "clientPing", "open", "bcastwait"}
			bys := []string{"send", "stream", "broadcast", "room broadcast", "batch", "batch broadcast", "batch to it", "ping", "lookups", "rooms", "connect", "replace", "close other", "shutdown", "room shutdown", "flusher close", "enable batching"}
			for _, a := range ops {
				for _, by := range bys {
					if strings.HasPrefix(a, "bcast") && strings.HasSuffix(by, "broadcast") {
						continue // might find the other's queue full
					}
					add(fmt.Sprintf("%s, meanwhile %s", a, by), 1, stalled([]string{a}, by, false))
				}
			}
			for _, a := range ops {
				if a != "ping" && a != "clientPing" {
					add(fmt.Sprintf("%s, client talks", a), 1, stalled([]string{a, "clientTalks"}, "", false))
					if a != "open" && a != "bcastwait" {
						add(fmt.Sprintf("%s, client talks and resumes", a), 1, stalled([]string{a, "clientTalks"}, "", true))
					}
				}
			}
			for _, as := range pairs(ops) {
				if hasDup(as, "ping") || hasDup(as, "clientPing") || hasDup(as, "open") || has(as, "bcast") && has(as, "bcastwait") {
					continue
				}
				add(fmt.Sprintf("%v", as), 1, stalled(as, "", false))
				if th {
					for _, by := range []string{"send", "broadcast", "batch broadcast", "rooms", "replace", "shutdown"} {
						if (has(as, "bcast") || has(as, "bcastwait")) && strings.HasSuffix(by, "broadcast") {
							continue
						}
						add(fmt.Sprintf("%v, meanwhile %s", as, by), 0, stalled(as, by, false))
					}
				}
			}
			for _, as := range pairs([]string{"bytes", "stream", "json", "ping", "bcast", "batch", "Close", "clientPing"}) {
				if hasDup(as, "ping") || hasDup(as, "clientPing") {
					continue
				}
				add(fmt.Sprintf("%v, client resumes", as), 1, stalled(as, "", true))
			}
			// a client that stops sending anywhere in a frame
			half := func(b []byte, n int) []byte { return b[:n] }
			partial := []struct {
				name string
				b    []byte
			}{
				{"a data frame", bin(pat(1, 200))},
				{"a ping", ping(pat(2, 9))},
				{"a pong", pong(pat(3, 9))},
				{"a close", closeFrame(1000, "bye")},
				{"a fragmented message", cat(frame(false, opText, []byte("abc")), ping([]byte("p")), frame(true, opCont, []byte("defgh")))},
			}
			for _, pt := range partial {
				for _, a := range []string{"bytes", "stream", "json", "ping", "bcast", "Close", "CloseTwice"} {
					add("client stops inside "+pt.name+", "+a, 1, func() {
						cut := mc.Choose(min(len(pt.b), 30))
						w := build(snapws.BackpressureDrop, nil)
						if mc.Choose(2) == 1 {
							mustOK("Ping", w.p.conn.Ping())
							if a == "ping" {
								w.p.fc.feed(pong(nil))
							}
						}
						w.p.fc.feed(half(pt.b, cut))
						rd := mc.Spawn("reader", func() { w.readLoop(100) })
						if mc.Choose(2) == 1 {
							mc.Quiesce()
						}
						why := fmt.Sprintf("%s with %d bytes of %s received", a, cut, pt.name)
						hs := []*mc.Handle{}
						closing := a == "Close" || a == "CloseTwice"
						hs = append(hs, mc.Spawn(a, func() {
							t := mc.NowNs()
							switch a {
							case "Close", "CloseTwice":
								w.p.conn.CloseWithCode(4000, "bye")
							case "ping":
								if err := w.p.conn.Ping(); err != nil && err != snapws.ErrPingAlreadySent {
									mc.Failf("%s: %v", why, err)
								}
							default:
								w.act(a, 0)
							}
							if d := mc.NowNs() - t; d > 0 {
								mc.Failf("%s: took %dms", why, d/1e6)
							}
						}))
						if a == "CloseTwice" {
							hs = append(hs, mc.Spawn("bytes", func() {
								t := mc.NowNs()
								w.act("short", 1)
								if d := mc.NowNs() - t; d > 0 {
									mc.Failf("%s: a concurrent send took %dms", why, d/1e6)
								}
							}))
						}
						mc.Join(hs...)
						mc.Quiesce()
						if mc.NowNs() > 0 {
							mc.Failf("%s: time has passed", why)
						}
						if closing {
							w.p.expectClosed(why, 4000)
							mc.Join(rd)
							if mc.NowNs() > 0 || !isFatal(w.readE) {
								mc.Failf("%s: the reader ended with %v after %dms", why, w.readE, mc.NowNs()/1e6)
							}
							return
						}
						if a != "ping" && a != "Close" {
							w.judge(w.p.expectOpen(why))
							for _, s := range w.sent {
								mustOK(why, s.err)
							}
						}
						// the rest arrives
						w.p.fc.feed(pt.b[cut:])
						w.p.fc.feed(text("last"))
						mc.Quiesce()
						if pt.name == "a close" {
							w.p.expectClosed(why, 1000)
						} else if n := len(w.inOK); n == 0 || w.inOK[n-1] != "last" {
							mc.Failf("%s: the reader got %d messages, the last is not the last", why, n)
						}
						w.p.conn.Close()
						mc.Join(rd)
					})
				}
			}
			return out
		},
	})
}
