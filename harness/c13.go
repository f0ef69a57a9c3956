package harness

import (
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// nothingRuns checks that the library's goroutines are those that ran at the
// beginning, now, without time passing.
func nothingRuns(why string, base []string) {
	mc.Quiesce()
	if l := mc.LiveLib(); len(l) > len(base) {
		mc.Failf("%s: still running: %s (initially: %s)", why, strings.Join(l, ", "), strings.Join(base, ", "))
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C13",
		Rule: "every way of ending a connection (both sides, every error, keepalive failure, read timeout, backpressure, manager and room operations) from every state (idle, mid-message, streaming, broadcasting, batching with pending batches, full queue, outstanding ping, stalled client) and with concurrent registration, joining, broadcasting and batching; every way of ending a flusher. After the end, with the clock frozen, the set of live library goroutines is compared with the one before the upgrade. All schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, b int, body func()) {
				b++
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: name, Bound: b, Body: body})
			}
			const ww = 2 * sec
			states := []string{"idle", "half message", "streaming", "broadcasting", "room", "batching", "queue full", "ping outstanding", "stalled"}
			ends := []string{"Close", "clientClose", "clientEOF", "violation", "replace", "shutdown", "room shutdown", "write failure", "read timeout", "ping failure", "backpressure", "upgraded and closed in OnConnect"}
			for _, st := range states {
				for _, end := range ends {
					add(st+" / "+end, 1, func() {
						var fl *fconn
						var conn *snapws.Conn
						o := snapws.Options{WriteWait: 2 * time.Second, WriteBufferSize: 24, BroadcastChannelsSize: 2, MaxBatchSize: 20, PingEvery: 10 * time.Hour, ReadWait: 10 * time.Hour}
						switch end {
						case "read timeout":
							o.ReadWait = 3 * time.Second
						case "ping failure":
							o.PingEvery = 3 * time.Second
						case "backpressure":
							o.BroadcastBackpressure = snapws.BackpressureClose
						case "upgraded and closed in OnConnect":
							o.OnConnect = func(c *snapws.Conn) { c.Close() }
						}
						u := snapws.NewUpgrader(&o)
						if st == "batching" {
							u.EnableJSONBatching(bg, flushEvery)
							mc.Quiesce()
						}
						base := mc.LiveLib()
						// a context which can be cancelled, but is not
						live, cancel := mc.WithCancel(bg)
						defer cancel()
						p := newPeer("c")
						fl = p.fc
						m := snapws.NewManager[string](u)
						rm := snapws.NewRoomManager[string](u)
						x := &mix{u: u, m: m, p: p, open: map[string]bool{}}
						var room *snapws.Room[string]
						if end == "room shutdown" || st == "room" && end != "shutdown" && end != "replace" {
							c, r, err := rm.Connect(response(fl, 4096, 4096, nil), request(), "r")
							mustOK("Connect", err)
							conn, room = c, r
						} else {
							c, err := m.Connect("k", response(fl, 4096, 4096, nil), request())
							mustOK("Connect", err)
							conn = c.Conn
							if st == "room" {
								room = rm.Add("r")
								room.Add(conn)
							}
						}
						p.conn = conn
						p.shaken()
						bcast := func(s string) {
							if room != nil {
								room.BroadcastString(live, []byte(s))
							} else {
								m.BroadcastString(live, []byte(s))
							}
						}
						rd := mc.Spawn("reader", func() { x.readLoop(100) })
						var w *snapws.ConnWriter
						switch st {
						case "half message":
							p.fc.feed(frame(false, opText, []byte("ab")), frame(false, opCont, []byte("cdef"))[:7])
						case "streaming":
							if end == "upgraded and closed in OnConnect" {
								break
							}
							w, _ = conn.NextWriter(live, opText)
							w.Write([]byte("abc"))
							w.Flush()
						case "broadcasting", "room":
							bcast("one")
							bcast("two")
						case "batching":
							for i := 0; i < 5; i++ {
								conn.Batch(tpat(i, 9))
							}
						case "queue full":
							fl.stall = true
							for i := 0; i < 3; i++ {
								bcast("xyz")
							}
						case "ping outstanding":
							conn.Ping()
						case "stalled":
							fl.stall = true
							mc.Spawn("sender", func() { conn.SendBytes(live, tpat(1, 30)) })
						}
						mc.Quiesce()
						if end == "upgraded and closed in OnConnect" {
							mc.Join(rd)
							nothingRuns(st+" / "+end, base)
							return
						}
						frozen := true
						slack := int64(0)
						if fl.stall {
							// the writer blocked in the transport has its write timeout
							slack = 2*ww + 1
						}
						switch end {
						case "clientClose", "clientEOF", "violation":
							if st == "half message" && end != "clientEOF" {
								p.fc.feed(frame(false, opCont, []byte("cdef"))[7:])
							}
							x.closeBy(end)
						case "room shutdown":
							rm.Shutdown()
						case "write failure":
							fl.fault = func(op string) string { return map[string]string{"write": "part"}[op] }
							fl.stall = false
							if w != nil {
								w.Flush()
							} else {
								conn.SendBytes(live, []byte("fails"))
							}
						case "read timeout":
							slack += 3*sec + 1
						case "ping failure":
							if fl.stall {
								break
							}
							fl.fault = func(op string) string { return map[string]string{"write": "err"}[op] }
							if st == "ping outstanding" {
								p.fc.feed(pong(nil))
							}
							slack += 3*sec + 1
						case "backpressure":
							fl.stall = true
							slack = 2*ww + 1
							for i := 0; i < 5; i++ {
								bcast("more")
							}
						default:
							x.closeBy(end)
						}
						_ = frozen
						if slack > 0 {
							mc.SleepNs(slack)
						}
						mc.Quiesce()
						if !fl.closed {
							mc.Failf("%s / %s: connection not closed", st, end)
						}
						q := base
						if end == "replace" {
							// the replacement runs the same tasks (keepalive, broadcast)
							q = append(append([]string{}, base...), "replacement", "replacement")
						}
						nothingRuns(st+" / "+end, q)
						if !x.readDone {
							mc.Failf("%s / %s: reader not released", st, end)
						}
					})
				}
			}
			// closing races with whatever starts tasks
			for _, act := range []string{"join", "register", "broadcast", "batch", "flush", "ping", "send", "move"} {
				for _, end := range []string{"Close", "clientClose", "shutdown"} {
					add("race "+act+" / "+end, 2, func() {
						u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: 24, MaxBatchSize: 8}))
						if act == "batch" || act == "flush" {
							u.EnablePrefixBatching(bg, flushEvery)
							mc.Quiesce()
						}
						base := mc.LiveLib()
						live, cancel := mc.WithCancel(bg)
						defer cancel()
						m := snapws.NewManager[string](u)
						rm := snapws.NewRoomManager[string](u)
						p := newPeer("c").upgrade(u)
						mk := &snapws.ManagedConn[string]{Conn: p.conn, Key: "k", Manager: m}
						if act != "register" {
							m.Register("k", mk)
						}
						x := &mix{u: u, m: m, p: p}
						ra, rb := rm.Add("a"), rm.Add("b")
						if act == "move" {
							ra.Add(p.conn)
						}
						if act == "flush" {
							p.conn.Batch([]byte("pending"))
						}
						hs := []*mc.Handle{mc.Spawn("reader", func() { x.readLoop(10) })}
						hs = append(hs, mc.Spawn("act", func() {
							switch act {
							case "join":
								ra.Add(p.conn)
								ra.BroadcastString(live, []byte("x"))
							case "register":
								m.Register("k", mk)
								m.BroadcastString(live, []byte("x"))
							case "broadcast":
								m.BroadcastString(live, []byte("x"))
							case "batch":
								for i := 0; i < 3; i++ {
									p.conn.Batch(tpat(i, 6))
								}
							case "flush":
								mc.SleepNs(flushEvery.Nanoseconds())
							case "ping":
								p.conn.Ping()
							case "send":
								p.conn.SendString(live, tpat(1, 25))
							case "move":
								ra.Move(p.conn, "b")
							}
						}))
						hs = append(hs, mc.Spawn("closer", func() {
							if end == "shutdown" && act == "register" {
								p.conn.Close()
							} else {
								x.closeBy(end)
							}
						}))
						_ = rb
						mc.Join(hs...)
						if !p.fc.closed {
							mc.Failf("not closed")
						}
						nothingRuns("race "+act+" / "+end, base)
					})
				}
			}
			// flushers
			for _, how := range []string{"Close", "cancel", "both", "re-enable", "Close twice"} {
				for _, pend := range []int{0, 1, 4} {
					add(fmt.Sprintf("flusher %s with %d messages", how, pend), 2, func() {
						u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: 24, MaxBatchSize: 12}))
						base := mc.LiveLib()
						ctx, cancel := mc.WithCancel(bg)
						defer cancel()
						u.EnableJSONBatching(ctx, flushEvery)
						p := newPeer("c").upgrade(u)
						conn := mc.LiveLib()
						_ = conn
						for i := 0; i < pend; i++ {
							p.conn.Batch([]byte(`"abc"`))
						}
						f := u.Flusher
						var hs []*mc.Handle
						switch how {
						case "Close":
							hs = append(hs, mc.Spawn("closer", func() { f.Close() }))
						case "cancel":
							hs = append(hs, mc.Spawn("closer", func() { cancel() }))
						case "both":
							hs = append(hs, mc.Spawn("closer", func() { f.Close() }), mc.Spawn("canceller", func() { cancel() }))
						case "re-enable":
							u.EnablePrefixBatching(bg, flushEvery)
							u.EnableJSONBatching(bg, flushEvery)
							u.Flusher.Close()
						case "Close twice":
							hs = append(hs, mc.Spawn("closer", func() { f.Close() }), mc.Spawn("closer2", func() { f.Close() }))
						}
						mc.Join(hs...)
						mc.Quiesce()
						// only the connection's own tasks are left
						p.conn.Close()
						nothingRuns("flusher "+how, base)
					})
				}
			}
			return out
		},
	})
}
