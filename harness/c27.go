package harness

import (
	"runtime"
	"sort"
	"strings"
	"time"
	"weak"

	"vh/mc"
	"vh/snapws"
)

// retention: what a closed connection leaves behind in the objects that outlive it.
func init() {
	Reg(&mc.Property{
		ID:   "C27",
		Rule: "one or two connections of an upgrader with a manager, two rooms, a rate limiter, batching and every hook, taken through every way of using and ending them, sequentially and with the end concurrent with the operations that make the library remember a connection (upgrade, register, join, move, broadcast, batch, flush tick, read under the limiter, enabling batching anew); then the application's own references are dropped, the garbage collector runs and weak pointers tell whether the connection is still reachable from what is left (upgrader, manager, rooms, limiter, flusher, another open connection). All schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, b int, body func()) {
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: name, Bound: b, Body: body, Cfg: mc.Config{Weak: true, TimeDev: strings.HasSuffix(name, "keepalive")}})
			}
			type world struct {
				u    *snapws.Upgrader
				m    *snapws.Manager[string]
				rm   *snapws.RoomManager[string]
				a, b *snapws.Room[string]
				stay *peer
			}
			build := func(o snapws.Options, stayBatch bool) *world {
				o.WriteBufferSize = 24
				o.WriteWait = time.Second
				o.BroadcastChannelsSize = 2
				o.OnConnect = func(c *snapws.Conn) {}
				o.OnDisconnect = func(c *snapws.Conn) {}
				w := &world{u: snapws.NewUpgrader(quiet(&o))}
				w.u.Limiter = snapws.NewRateLimiter(100, 100)
				w.u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { return nil }
				w.u.EnableJSONBatching(bg, flushEvery)
				w.m = snapws.NewManager[string](w.u)
				w.m.OnRegister = func(c *snapws.ManagedConn[string]) {}
				w.m.OnUnregister = func(c *snapws.ManagedConn[string]) {}
				w.rm = snapws.NewRoomManager[string](w.u)
				w.rm.DefaultOnJoin = func(r *snapws.Room[string], c *snapws.Conn, args ...any) {}
				w.rm.DefaultOnLeave = func(r *snapws.Room[string], c *snapws.Conn, args ...any) {}
				w.a, w.b = w.rm.Add("a"), w.rm.Add("b")
				w.stay = newPeer("stay")
				c, err := w.m.Connect("stay", response(w.stay.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				w.stay.conn = c.Conn
				w.stay.shaken()
				w.a.Add(c.Conn)
				return w
			}
			uses := map[string]func(w *world, p *peer){
				"nothing": func(w *world, p *peer) {},
				"messages": func(w *world, p *peer) {
					p.fc.feed(text("a"), bin([]byte("b")))
					p.conn.ReadMessage()
					p.conn.ReadMessage()
					p.conn.SendBytes(bg, tpat(1, 30))
				},
				"rooms": func(w *world, p *peer) {
					w.a.Add(p.conn, "x")
					w.a.Move(p.conn, "b")
					w.a.Add(p.conn)
				},
				"left rooms": func(w *world, p *peer) {
					w.a.Add(p.conn, "x")
					w.b.Add(p.conn)
					w.a.Remove(p.conn)
					w.b.RemoveAll()
				},
				"broadcasts": func(w *world, p *peer) {
					w.a.Add(p.conn)
					w.m.BroadcastString(bg, []byte("one"))
					w.a.BroadcastBytes(bg, []byte("two"))
					w.m.BroadcastString(bg, []byte("three"))
					w.m.BatchBroadcast(bg, []byte("4"))
				},
				"batch": func(w *world, p *peer) { p.conn.Batch([]byte("1")); p.conn.Batch([]byte("2")) },
				"sent batch": func(w *world, p *peer) {
					p.conn.Batch([]byte("1"))
					settle(1)
				},
				"new flusher": func(w *world, p *peer) {
					p.conn.Batch([]byte("1"))
					w.u.EnablePrefixBatching(bg, flushEvery)
					mc.Quiesce()
				},
				"flusher closed": func(w *world, p *peer) {
					p.conn.Batch([]byte("1"))
					w.u.Flusher.Close()
					mc.Quiesce()
				},
				"ping": func(w *world, p *peer) { p.conn.Ping() },
				"open writer": func(w *world, p *peer) {
					wr, err := p.conn.NextWriter(bg, opText)
					mustOK("NextWriter", err)
					wr.Write([]byte("abc"))
					wr.Flush()
				},
				"half read": func(w *world, p *peer) {
					p.fc.feed(frame(false, opText, []byte("abc")))
					r, _, err := p.conn.NextReader()
					mustOK("NextReader", err)
					r.Read(make([]byte, 2))
				},
				"registered twice": func(w *world, p *peer) {
					w.m.Register("k2", &snapws.ManagedConn[string]{Conn: p.conn, Key: "k2", Manager: w.m})
				},
			}
			ends := map[string]func(w *world, p *peer){
				"Close":        func(w *world, p *peer) { p.conn.Close() },
				"client close": func(w *world, p *peer) { p.fc.feed(closeFrame(1000, "")); p.conn.ReadMessage(); p.conn.ReadMessage() },
				"client EOF":   func(w *world, p *peer) { p.fc.feedEOF(); p.conn.ReadMessage() },
				"violation":    func(w *world, p *peer) { p.fc.feed([]byte{0xff, 0xff}); p.conn.ReadMessage() },
				"write failure": func(w *world, p *peer) {
					p.fc.fault = func(string) string { return "err" }
					p.conn.Ping()
					p.conn.Close()
				},
				"stalled": func(w *world, p *peer) { p.fc.stall = true; p.conn.Close() },
				"replaced": func(w *world, p *peer) {
					q := newPeer("new")
					c, err := w.m.Connect("k", response(q.fc, 4096, 4096, nil), request())
					mustOK("Connect", err)
					p.conn.ReadMessage()
					p.conn.ReadMessage()
					_ = c
				},
				"manager shutdown": func(w *world, p *peer) { w.m.Shutdown() },
				"room shutdown":    func(w *world, p *peer) { w.a.Add(p.conn); w.rm.Shutdown() },
				"room closed":      func(w *world, p *peer) { w.a.Close(); w.b.Close(); p.conn.Close() },
			}
			names := func(m map[string]func(w *world, p *peer)) []string {
				var l []string
				for k := range m {
					l = append(l, k)
				}
				sort.Strings(l)
				return l
			}
			check := func(w *world, why string, ws ...weak.Pointer[snapws.Conn]) {
				mc.Quiesce()
				mc.GC()
				for i, p := range ws {
					if p.Value() != nil {
						mc.Failf("%s: closed connection %d is still reachable from the library's objects", why, i)
					}
				}
				runtime.KeepAlive(w)
			}
			open := func(w *world, name, key string) *peer {
				p := newPeer(name)
				c, err := w.m.Connect(key, response(p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				p.conn = c.Conn
				p.shaken()
				return p
			}
			// run takes f off this thread's stack
			run := func(name string, f func() []weak.Pointer[snapws.Conn]) []weak.Pointer[snapws.Conn] {
				var ws []weak.Pointer[snapws.Conn]
				h := mc.Spawn(name, func() { ws = f() })
				mc.Join(h)
				return ws
			}
			for _, use := range names(uses) {
				for _, end := range names(ends) {
					add(use+" / "+end, 1, func() {
						two := mc.Choose(2) == 1
						w := build(snapws.Options{}, true)
						ws := run("app", func() []weak.Pointer[snapws.Conn] {
							p := open(w, "c", "k")
							r := []weak.Pointer[snapws.Conn]{weak.Make(p.conn)}
							uses[use](w, p)
							if two {
								q := open(w, "c2", "q")
								uses[use](w, q)
								r = append(r, weak.Make(q.conn))
								q.conn.Close()
							}
							ends[end](w, p)
							if !p.fc.closed {
								mc.Failf("%s/%s: not closed", use, end)
							}
							return r
						})
						check(w, use+"/"+end, ws...)
					})
				}
			}
			// the end races with what makes the library remember the connection
			races := map[string]func(w *world, c *snapws.ManagedConn[string], fc *fconn){
				"join":     func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.a.Add(c.Conn, 1) },
				"move":     func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.a.Move(c.Conn, "b") },
				"register": func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.m.Register("k", c) },
				"register anew": func(w *world, c *snapws.ManagedConn[string], fc *fconn) {
					w.m.Register("k3", &snapws.ManagedConn[string]{Conn: c.Conn, Key: "k3", Manager: w.m})
				},
				"read":            func(w *world, c *snapws.ManagedConn[string], fc *fconn) { fc.feed(text("x")); c.ReadMessage() },
				"broadcast":       func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.m.BroadcastString(bg, []byte("x")) },
				"batch":           func(w *world, c *snapws.ManagedConn[string], fc *fconn) { c.Batch([]byte("1")) },
				"batch, tick":     func(w *world, c *snapws.ManagedConn[string], fc *fconn) { c.Batch([]byte("1")); settle(1) },
				"batch broadcast": func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.m.BatchBroadcast(bg, []byte("1")) },
				"close flusher":   func(w *world, c *snapws.ManagedConn[string], fc *fconn) { c.Batch([]byte("1")); w.u.Flusher.Close() },
				"send":            func(w *world, c *snapws.ManagedConn[string], fc *fconn) { c.SendBytes(bg, tpat(1, 20)) },
				"shutdown":        func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.m.Shutdown() },
				"room close":      func(w *world, c *snapws.ManagedConn[string], fc *fconn) { w.a.Close() },
			}
			var rn []string
			for k := range races {
				rn = append(rn, k)
			}
			sort.Strings(rn)
			for _, rc := range rn {
				for _, end := range []string{"Close", "client close"} {
					add(rc+" while "+end, 2, func() {
						w := build(snapws.Options{}, true)
						ws := run("app", func() []weak.Pointer[snapws.Conn] {
							p := newPeer("c")
							c, err := w.m.Connect("k", response(p.fc, 4096, 4096, nil), request())
							mustOK("Connect", err)
							p.conn = c.Conn
							p.shaken()
							if rc == "move" || rc == "room close" {
								w.a.Add(c.Conn)
							}
							h := mc.Spawn("racer", func() { races[rc](w, c, p.fc) })
							h2 := mc.Spawn("ender", func() {
								if end == "Close" {
									c.Close()
								} else {
									p.fc.feed(closeFrame(1000, ""))
									if rc != "read" {
										for {
											if _, _, err := c.ReadMessage(); err != nil {
												break
											}
										}
									}
								}
							})
							mc.Join(h, h2)
							if rc == "read" {
								for {
									if _, _, err := c.ReadMessage(); err != nil {
										break
									}
								}
							}
							return []weak.Pointer[snapws.Conn]{weak.Make(c.Conn)}
						})
						check(w, rc+"/"+end, ws...)
					})
				}
			}
			// closed by its own connect or register hook, or by the keepalive at once
			for _, how := range []string{"OnConnect", "OnConnect, asynchronously", "OnRegister", "join hook", "keepalive"} {
				add("closed in "+how, 2, func() {
					o := snapws.Options{}
					if how == "keepalive" {
						o.PingEvery = time.Millisecond
					}
					w := build(o, true)
					ws := run("app", func() []weak.Pointer[snapws.Conn] {
						p := newPeer("c")
						var wp weak.Pointer[snapws.Conn]
						w.u.OnConnect = func(c *snapws.Conn) {
							wp = weak.Make(c)
							if how == "OnConnect" {
								c.Close()
							} else if how == "OnConnect, asynchronously" {
								mc.Spawn("closer", c.Close)
							}
						}
						w.m.OnRegister = func(c *snapws.ManagedConn[string]) {
							if how == "OnRegister" {
								c.Close()
							}
						}
						w.rm.DefaultOnJoin = func(r *snapws.Room[string], c *snapws.Conn, args ...any) {
							if how == "join hook" {
								c.Close()
							}
						}
						if how == "keepalive" {
							n := 0
							p.fc.fault = func(op string) string {
								if n++; op == "setw" {
									return "err"
								}
								return ""
							}
						}
						if how == "join hook" {
							r := w.rm.Add("new")
							c, err := w.u.Upgrade(response(p.fc, 4096, 4096, nil), request())
							mustOK("Upgrade", err)
							r.Add(c)
						} else {
							w.m.Connect("k", response(p.fc, 4096, 4096, nil), request())
						}
						if how == "keepalive" {
							mc.SleepNs(2e6)
						}
						mc.Quiesce()
						if !p.fc.closed {
							mc.Failf("%s: not closed", how)
						}
						w.u.OnConnect, w.m.OnRegister, w.rm.DefaultOnJoin = nil, nil, nil
						return []weak.Pointer[snapws.Conn]{wp}
					})
					if how == "join hook" {
						w.rm.Get("new").Close()
					}
					check(w, "closed in "+how, ws...)
				})
			}
			return out
		},
	})
}
