package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// hall is a group of connections that can be broadcast to, either under a
// connection manager (kind "manager") or in a room (kind "room").
type hall struct {
	kind  string
	u     *snapws.Upgrader
	m     *snapws.Manager[int]
	rm    *snapws.RoomManager[int]
	room  *snapws.Room[int]
	ps    []*peer
	discs []int
	codes []int
}

func newHall(kind string, n int, o snapws.Options) *hall {
	h := &hall{kind: kind}
	if o.WriteBufferSize == 0 {
		o.WriteBufferSize = 24
	}
	if o.WriteWait == 0 {
		o.WriteWait = time.Minute
	}
	o.OnDisconnect = func(c *snapws.Conn) {
		for i, p := range h.ps {
			if p.fc == c.NetConn() {
				h.discs[i]++
			}
		}
	}
	h.u = snapws.NewUpgrader(quiet(&o))
	h.m = snapws.NewManager[int](h.u)
	h.rm = snapws.NewRoomManager[int](h.u)
	h.room = h.rm.Add(7)
	for i := 0; i < n; i++ {
		h.join()
	}
	return h
}

func (h *hall) join() *peer {
	p := newPeer(fmt.Sprintf("client%d", len(h.ps)))
	id := len(h.ps)
	h.ps = append(h.ps, p)
	h.discs = append(h.discs, 0)
	w := response(p.fc, 4096, 4096, nil)
	if h.kind == "manager" {
		k, err := h.m.Connect(id, w, request())
		mustOK("Connect", err)
		p.conn = k.Conn
	} else {
		c, _, err := h.rm.Connect(w, request(), 7)
		mustOK("Connect", err)
		p.conn = c
	}
	p.shaken()
	return p
}

// send broadcasts in one of the ways and returns what recipients should get.
func (h *hall) send(how string, ctx context.Context, d string, exclude ...int) (op byte, data string, n int, err error) {
	op, data = opText, d
	var cs []*snapws.Conn
	for _, i := range exclude {
		if i < len(h.ps) {
			cs = append(cs, h.ps[i].conn)
		}
	}
	b := []byte(d)
	man := h.kind == "manager"
	switch {
	case how == "string" && man:
		n, err = h.m.BroadcastString(ctx, b, exclude...)
	case how == "string":
		n, err = h.room.BroadcastString(ctx, b, cs...)
	case how == "bytes" && man:
		op = opBin
		n, err = h.m.BroadcastBytes(ctx, b, exclude...)
	case how == "bytes":
		op = opBin
		n, err = h.room.BroadcastBytes(ctx, b, cs...)
	case how == "json":
		v := map[string]string{"d": d}
		j, _ := json.Marshal(v)
		data = string(j)
		if man {
			n, err = h.m.BroadcastJSON(ctx, v, exclude...)
		} else {
			n, err = h.room.BroadcastJSON(ctx, v, cs...)
		}
	case how == "batch" && man:
		n, err = h.m.BatchBroadcast(ctx, b, exclude...)
	case how == "batch":
		n, err = h.room.BatchBroadcast(ctx, b, cs...)
	}
	for i := range b {
		if how != "batch" {
			b[i] = '#'
		}
	}
	return op, data, n, err
}

func (h *hall) got(i int) []string {
	var l []string
	for _, m := range h.ps[i].wire().msgs {
		l = append(l, fmt.Sprintf("%d|%s", m.op, m.data))
	}
	return l
}

// inOrder checks that got contains the elements of sent in their order, at most
// once each, and nothing else; all: every one of them.
func inOrder(who string, got, sent []string, all bool) {
	j := 0
	for _, g := range got {
		for j < len(sent) && sent[j] != g {
			j++
		}
		if j == len(sent) {
			mc.Failf("%s gets %.60q, which is repeated, out of order or not for it; it gets %.200q, sent: %.200q", who, g, got, sent)
		}
		j++
	}
	if all && len(got) != len(sent) {
		mc.Failf("%s gets %d of %d accepted broadcasts: %.200q, accepted: %.200q", who, len(got), len(sent), got, sent)
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C18",
		Rule: "every recipient count 0 to 4, every exclusion subset, both kinds of group, every broadcast call, payload lengths around the frame and buffer limits; full queues of every size 1 to 3 under the three backpressure modes with clients that stall, applications that hold the writer, contexts that end and connections that close while the broadcaster waits; concurrent broadcasters, senders, joiners, leavers and closers; all schedules up to the deviation bound. Counts, content, order and exactly-once delivery are compared with what each call reported.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			for _, kind := range []string{"manager", "room"} {
				kind := kind
				// who gets what
				for n := 0; n <= 4; n++ {
					for mask := 0; mask < 1<<n; mask++ {
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s of %d excluding %b", kind, n, mask), Bound: b2i(n <= 2), Body: func() {
							how := []string{"string", "bytes", "json"}[mc.Choose(3)]
							h := newHall(kind, n, snapws.Options{})
							var ex []int
							for i := 0; i < n; i++ {
								if mask>>i&1 == 1 {
									ex = append(ex, i)
								}
							}
							if mc.Choose(2) == 1 {
								ex = append(ex, ex...)
								ex = append(ex, 77) // unknown
							}
							var want []string
							for _, l := range []int{0, 5, 30, 125, 126} {
								var ctx context.Context
								if l != 5 {
									ctx = bg
								}
								op, d, k, err := h.send(how, ctx, string(tpat(l, l)), ex...)
								if err != nil || k != n-popcount(mask) {
									mc.Failf("broadcast to %d of %d returns %d, %v", n-popcount(mask), n, k, err)
								}
								want = append(want, fmt.Sprintf("%d|%s", op, d))
							}
							mc.Quiesce()
							for i := range h.ps {
								h.ps[i].expectOpen("broadcast")
								if mask>>i&1 == 1 {
									inOrder(fmt.Sprintf("excluded client %d", i), h.got(i), nil, true)
								} else {
									inOrder(fmt.Sprintf("client %d", i), h.got(i), want, true)
								}
							}
						}})
					}
				}
				out = append(out, mc.Scenario{Name: kind + " lengths and bad values", Bound: 0, Body: func() {
					h := newHall(kind, 2, snapws.Options{})
					for _, l := range []int{127, 4082, 4096, 65535, 65536, 70000} {
						for _, how := range []string{"string", "bytes"} {
							op, d, k, err := h.send(how, bg, string(tpat(l, l)))
							if k != 2 || err != nil {
								mc.Failf("broadcast of %d bytes returns %d, %v", l, k, err)
							}
							mc.Quiesce()
							for i, p := range h.ps {
								ms := p.expectOpen("broadcast").msgs
								if m := ms[len(ms)-1]; m.op != op || string(m.data) != d {
									mc.Failf("client %d gets a message of %d bytes, want %d", i, len(m.data), l)
								}
							}
						}
					}
					n0 := len(h.ps[0].fc.out)
					var k int
					var err error
					if kind == "manager" {
						k, err = h.m.BroadcastJSON(bg, make(chan int))
					} else {
						k, err = h.room.BroadcastJSON(bg, make(chan int))
					}
					if k != 0 || err == nil {
						mc.Failf("BroadcastJSON of an unmarshallable value returns %d, %v", k, err)
					}
					ctx, cancel := mc.WithCancel(bg)
					cancel()
					if _, _, k, err = h.send("string", ctx, "late"); k > 2 || k < 2 && err == nil {
						mc.Failf("broadcast with an ended context returns %d, %v", k, err)
					}
					k, err = h.m.BatchBroadcast(bg, []byte("x"))
					if k != 0 || err == nil {
						mc.Failf("BatchBroadcast without batching returns %d, %v", k, err)
					}
					mc.Quiesce()
					_ = n0
					for _, p := range h.ps {
						p.works("failed broadcasts")
					}
				}})
				// full queues. Client 0 is slow, client 1 is not.
				for q := 1; q <= 3; q++ {
					for _, mode := range []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait} {
						for _, slow := range []string{"stalled", "writer held"} {
							mname := []string{"drop", "close", "wait"}[mode]
							msgs := q + 3
							out = append(out, mc.Scenario{Name: fmt.Sprintf("%s queue %d %s %s", kind, q, mname, slow), Bound: 1 + b2i(q == 1) + b2i(th), Body: func() {
								h := newHall(kind, 2, snapws.Options{BroadcastChannelsSize: q, BroadcastBackpressure: mode})
								a := h.ps[0]
								var w *snapws.ConnWriter
								if slow == "stalled" {
									a.fc.stall = true
								} else {
									w, _ = a.conn.NextWriter(bg, opText)
									w.Write([]byte("held"))
								}
								release := func() {
									if w != nil {
										w.Close()
									}
									a.fc.stall = false
								}
								var acc0, acc1 []string
								full := 0
								var ends []int64
								br := mc.Spawn("broadcaster", func() {
									for i := 0; i < msgs; i++ {
										// let the receivers drain: only client 0 is slow
										mc.Block("drained", func() bool { return len(h.got(1)) == len(acc1) })
										op, d, n, err := h.send("string", bg, fmt.Sprintf("m%d", i))
										s := fmt.Sprintf("%d|%s", op, d)
										mustOK("broadcast", err)
										acc1 = append(acc1, s)
										switch {
										case n == 2:
											acc0 = append(acc0, s)
										case n == 1:
											full++
										default:
											mc.Failf("broadcast %d returns %d: client 1 is not slow", i, n)
										}
										ends = append(ends, mc.NowNs())
									}
								})
								how := "release"
								if mode == snapws.BackpressureWait {
									how = []string{"release", "close", "client gone"}[mc.Choose(3)]
								}
								mc.Quiesce()
								if !br.Done() && mode != snapws.BackpressureWait {
									mc.Failf("the broadcaster is stuck")
								}
								if mode == snapws.BackpressureWait && br.Done() {
									mc.Failf("%d broadcasts fit into a queue of %d with a stuck client", len(acc0), q)
								}
								if mode != snapws.BackpressureWait {
									if full == 0 {
										mc.Failf("%d broadcasts were accepted by a queue of %d with a stuck client", msgs, q)
									}
									if len(acc0) < q {
										mc.Failf("only %d broadcasts were accepted by a queue of %d", len(acc0), q)
									}
								}
								if mode == snapws.BackpressureClose {
									// client 0 is closed; its close frame cannot be sent while it is stalled
									if slow == "writer held" {
										a.expectClosed("queue full", 1008)
									} else {
										mc.SleepNs(150 * sec)
										mc.Quiesce()
										if !a.fc.closed {
											mc.Failf("queue full: connection not closed")
										}
									}
									if h.discs[0] != 1 {
										mc.Failf("queue full: disconnect hook ran %d times", h.discs[0])
									}
									mc.Join(br)
									mc.Quiesce()
									inOrder("client 1", h.got(1), acc1, true)
									h.ps[1].works("other client's queue is full")
									if w != nil {
										w.Write([]byte("x"))
										w.Close()
									}
									return
								}
								switch how {
								case "release":
									release()
								case "close":
									if slow == "stalled" {
										// the close frame cannot be written, closing takes up to WriteWait
										cl := mc.Spawn("closer", func() { a.conn.Close() })
										mc.Join(br)
										mc.Join(cl)
									} else {
										a.conn.Close()
									}
								case "client gone":
									a.fc.feedEOF()
									rd := mc.Spawn("reader", func() { a.conn.ReadMessage() })
									mc.Join(br)
									mc.Join(rd)
								}
								mc.Join(br)
								if how == "release" {
									mc.Quiesce()
									got := h.got(0)
									if slow == "writer held" {
										if len(got) == 0 || got[0] != fmt.Sprintf("%d|held", opText) {
											mc.Failf("the held message is not first: %q", got)
										}
										got = got[1:]
									}
									inOrder("client 0", got, acc0, true)
									h.ps[0].works("its queue was full")
									if mode == snapws.BackpressureWait && full > 0 {
										mc.Failf("a broadcaster that waits dropped %d messages of an open connection", full)
									}
								} else {
									if len(acc0) > q+1 {
										mc.Failf("%d broadcasts count a connection that closed while its queue of %d was full", len(acc0), q)
									}
									for _, t := range ends {
										if t != ends[0] {
											mc.Failf("the broadcaster was released at %v only", ends)
										}
									}
								}
								mc.Quiesce()
								inOrder("client 1", h.got(1), acc1, true)
								if len(acc1) != msgs {
									mc.Failf("client 1 missed broadcasts")
								}
								h.ps[1].works("other client's queue was full")
								if w != nil && how != "release" {
									w.Close()
								}
							}})
						}
					}
				}
				// a context that ends while the broadcaster waits
				for _, end := range []string{"cancel", "deadline", "cancel before"} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s wait ends by %s", kind, end), Bound: 2 + b2i(th), Body: func() {
						h := newHall(kind, 2, snapws.Options{BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureWait})
						w, _ := h.ps[0].conn.NextWriter(bg, opText)
						var ctx context.Context
						var cancel func()
						if end == "deadline" {
							ctx, cancel = mc.WithTimeout(bg, 3*time.Second)
						} else {
							ctx, cancel = mc.WithCancel(bg)
						}
						if end == "cancel before" {
							cancel()
						}
						cnt := []int{}
						var last error
						br := mc.Spawn("broadcaster", func() {
							for i := 0; i < 5 && last == nil; i++ {
								_, _, n, err := h.send("string", ctx, fmt.Sprintf("m%d", i))
								cnt, last = append(cnt, n), err
							}
						})
						if end == "cancel" {
							mc.Quiesce()
							if br.Done() {
								mc.Failf("the broadcaster does not wait")
							}
							cancel()
						}
						mc.Join(br)
						if last != nil && last != ctx.Err() {
							mc.Failf("the waiting broadcast returns %v, want the context's error", last)
						}
						if end == "deadline" && mc.NowNs() > 3*sec {
							mc.Failf("the broadcast returned %.1fs after its context ended", float64(mc.NowNs()-3*sec)/1e9)
						}
						if end == "cancel" {
							// the call that was waiting for client 0 counts client 1 if it had come to it,
							// and client 0 if the context's end made room
							k := len(cnt) - 1
							took := slices.Contains(h.got(1), fmt.Sprintf("%d|m%d", opText, k))
							if last != nil && cnt[k] != b2i(took) && cnt[k] != b2i(took)+1 {
								mc.Failf("a broadcast whose context ends while it waits returns %d, client 1 gets it: %v", cnt[k], took)
							}
						}
						w.Close()
						mc.Quiesce()
						for i := range h.ps {
							g := h.got(i)
							if i == 0 {
								g = g[1:]
							}
							seen := map[string]bool{}
							for _, s := range g {
								if seen[s] || !strings.HasPrefix(s, "1|m") {
									mc.Failf("client %d gets %q", i, g)
								}
								seen[s] = true
							}
							h.ps[i].works("context ended")
						}
						cancel()
						mc.Quiesce()
						// later broadcasts are not affected
						for k := 0; k < 3; k++ {
							op, d, n, err := h.send("bytes", bg, fmt.Sprintf("later%d", k))
							mustOK("broadcast", err)
							if n != 2 {
								mc.Failf("a broadcast after one whose context ended returns %d", n)
							}
							mc.Quiesce()
							for i := range h.ps {
								if g := h.got(i); len(g) == 0 || g[len(g)-1] != fmt.Sprintf("%d|%s", op, d) {
									mc.Failf("client %d misses the broadcast after one whose context ended: %q", i, g)
								}
							}
						}
					}})
				}
				// concurrency
				acts := []string{"string", "bytes", "json", "send", "stream", "close", "client close", "join", "leave", "broken", "ping"}
				run := func(as []string, q int, mode snapws.BackpressureStrategy) func() {
					return func() {
						h := newHall(kind, 3, snapws.Options{BroadcastChannelsSize: q, BroadcastBackpressure: mode})
						for _, p := range h.ps {
							p.fc.split = true
						}
						type call struct {
							s   string
							n   int
							err error
						}
						sent := make([][]call, len(as))
						dead := map[int]bool{}
						left := map[int]bool{}
						if has(as, "broken") {
							dead[1] = true
							h.ps[1].fc.fault = func(op string) string {
								if op == "write" {
									return "part"
								}
								return ""
							}
						}
						var own []string
						var hs []*mc.Handle
						for t, a := range as {
							if a == "broken" {
								continue
							}
							if a == "close" || a == "client close" {
								dead[1] = true
							}
							if a == "leave" {
								left[1] = true
							}
							hs = append(hs, mc.Spawn(a, func() {
								c := h.ps[1].conn
								switch a {
								case "string", "bytes", "json":
									for i := 0; i < 2; i++ {
										op, d, n, err := h.send(a, bg, fmt.Sprintf("%d%s%d", t, a, i))
										sent[t] = append(sent[t], call{fmt.Sprintf("%d|%s", op, d), n, err})
										mustOK("broadcast", err)
									}
								case "send":
									own = append(own, "2|own")
									h.ps[0].conn.SendBytes(bg, []byte("own"))
								case "stream":
									own = append(own, "1|one two")
									ok := func(what string, err error) {
										if mode != snapws.BackpressureClose {
											mustOK(what, err)
										}
									}
									w, err := h.ps[0].conn.NextWriter(bg, opText)
									ok("NextWriter", err)
									if err != nil {
										return
									}
									w.Write([]byte("one "))
									ok("Flush", w.Flush())
									w.Write([]byte("two"))
									ok("Close", w.Close())
								case "close":
									c.Close()
								case "client close":
									h.ps[1].fc.feed(closeFrame(1000, ""))
									c.ReadMessage()
								case "join":
									h.join()
								case "leave":
									if kind == "room" {
										h.room.Remove(c)
									}
								case "ping":
									if err := h.ps[0].conn.Ping(); mode != snapws.BackpressureClose {
										mustOK("Ping", err)
									}
								}
							}))
						}
						mc.Join(hs...)
						mc.Quiesce()
						got := make([][]string, len(h.ps))
						for i := range h.ps {
							got[i] = h.got(i)
							if h.ps[i].fc.closed && !dead[i] && mode != snapws.BackpressureClose {
								mc.Failf("client %d was disconnected", i)
							}
							if !h.ps[i].fc.closed && h.ps[i].wire().open != nil {
								mc.Failf("client %d has an unfinished message", i)
							}
						}
						all := map[string]bool{}
						for t := range as {
							var seq []string
							for _, c := range sent[t] {
								seq = append(seq, c.s)
								all[c.s] = true
								total := 0
								deadN := 0
								for i := range h.ps {
									k := 0
									for _, g := range got[i] {
										if g == c.s {
											k++
										}
									}
									if k > 1 {
										mc.Failf("client %d gets %q %d times", i, c.s, k)
									}
									total += k
									if h.ps[i].fc.closed && k == 0 {
										deadN++
									}
									must := i != 1 && i < 3 || i == 1 && !dead[1] && !(left[1] && kind == "room")
									if must && k == 0 && q >= 8 {
										mc.Failf("client %d misses %q", i, c.s)
									}
								}
								if total > c.n {
									mc.Failf("%q reached %d clients, the call returned %d", c.s, total, c.n)
								}
								if total+deadN < c.n {
									mc.Failf("%q was accepted by %d connections, but reached %d clients (%d connections closed)", c.s, c.n, total, deadN)
								}
							}
							for i := range h.ps {
								var mine []string
								for _, g := range got[i] {
									for _, s := range seq {
										if s == g {
											mine = append(mine, g)
										}
									}
								}
								inOrder(fmt.Sprintf("client %d", i), mine, seq, false)
							}
						}
						for i := range got {
							for _, g := range got[i] {
								if !all[g] && !(i == 0 && has(own, g)) {
									mc.Failf("client %d gets %q, which was not broadcast", i, g)
								}
							}
						}
						mc.Outcome("%d %d", len(got[0]), len(got[1]))
					}
				}
				for i, a := range acts[:3] {
					for _, b := range acts[i:] {
						if b == "leave" && kind == "manager" {
							continue
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %s and %s", kind, a, b), Bound: 1 + b2i(th || a == "string" && kind == "room"), Body: run([]string{a, b}, 8, snapws.BackpressureDrop)})
						if a == "string" {
							for _, m := range []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait} {
								out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %s and %s queue 1 mode %d", kind, a, b, m), Bound: 1 + b2i(th), Body: run([]string{a, b}, 1, m)})
							}
						}
					}
				}
				for _, t := range [][]string{{"string", "bytes", "close"}, {"string", "send", "client close"}, {"bytes", "stream", "broken"}, {"string", "json", "stream"}, {"string", "join", "close"}, {"string", "bytes", "json"}} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %v", kind, t), Bound: 1 + b2i(th), Body: run(t, 8, snapws.BackpressureDrop)})
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %v wait", kind, t), Bound: 1 + b2i(th), Body: run(t, 1, snapws.BackpressureWait)})
				}
				// batch broadcasts and full queues. Client 0's delivery task is held up by
				// a message being written.
				for q := 1; q <= 2; q++ {
					for _, mode := range []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait} {
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s batch broadcast queue %d %s", kind, q, []string{"drop", "close", "wait"}[mode]), Bound: 1 + b2i(th), Body: func() {
							o := snapws.Options{WriteWait: time.Hour, BroadcastChannelsSize: q, BroadcastBackpressure: mode}
							h := newHall(kind, 0, o)
							h.u.EnablePrefixBatching(bg, flushEvery)
							h.join()
							h.join()
							w, err := h.ps[0].conn.NextWriter(bg, opText)
							mustOK("NextWriter", err)
							w.Write([]byte("held"))
							_, _, n, err := h.send("string", bg, "first")
							if n != 2 || err != nil {
								mc.Failf("broadcast returns %d, %v", n, err)
							}
							mc.Quiesce()
							ctx, cancel := mc.WithCancel(bg)
							var want [2]string
							var cnt []int
							var last error
							total, closing := q+2, false
							br := mc.Spawn("broadcaster", func() {
								for i := 0; i < total && last == nil; i++ {
									d := fmt.Sprintf("b%d", i)
									_, _, n, err := h.send("batch", ctx, d)
									cnt, last = append(cnt, n), err
									if err != nil {
										break
									}
									rec := "\x00\x00\x00\x02" + d
									want[1] += rec
									switch {
									case i < q && n != 2:
										mc.Failf("batch broadcast %d into a queue of %d returns %d", i, q, n)
									case n == 2:
										want[0] += rec
									case n != 1 || mode == snapws.BackpressureWait && !closing:
										mc.Failf("batch broadcast %d into a queue of %d returns %d", i, q, n)
									}
									mc.SleepNs(1000000) // client 1's delivery task keeps up
								}
							})
							mc.Quiesce()
							batches := func(i int) string {
								all := ""
								for _, m := range h.ps[i].wire().msgs {
									if m.op == opBin {
										all += string(m.data)
									}
								}
								return all
							}
							mc.SleepNs(10000000)
							mc.Quiesce()
							if br.Done() == (mode == snapws.BackpressureWait) {
								mc.Failf("a broadcaster to a full queue is done: %v", br.Done())
							}
							how := "release"
							if mode == snapws.BackpressureWait {
								how = []string{"release", "close", "cancel", "flusher"}[mc.Choose(4)]
							}
							switch how {
							case "release":
								if mode == snapws.BackpressureClose {
									h.ps[0].expectClosed("queue full", 1008)
									if h.discs[0] != 1 {
										mc.Failf("queue full: disconnect hook ran %d times", h.discs[0])
									}
								}
								w.Close()
							case "close":
								closing = true
								h.ps[0].conn.Close()
							case "cancel":
								cancel()
							case "flusher":
								h.u.Flusher.Close()
							}
							mc.Join(br)
							if (how == "cancel" || how == "flusher") != (last != nil) {
								mc.Failf("%s: the waiting batch broadcast returns %v", how, last)
							}
							if how == "cancel" && last != ctx.Err() || how == "flusher" && last != snapws.ErrFlusherClosed {
								mc.Failf("%s: the waiting batch broadcast returns %v", how, last)
							}
							if how == "cancel" || how == "flusher" {
								w.Close()
							}
							settle(3)
							if last != nil { // the last one may have reached client 1 before client 0's turn
								rec := fmt.Sprintf("\x00\x00\x00\x02b%d", len(cnt)-1)
								if cnt[len(cnt)-1] == 1 {
									want[1] += rec
								} else if cnt[len(cnt)-1] != 0 {
									mc.Failf("%s: the waiting batch broadcast counts %d", how, cnt[len(cnt)-1])
								}
							}
							if how != "flusher" && batches(1) != want[1] {
								mc.Failf("%s: client 1 gets %q, want %q", how, batches(1), want[1])
							}
							if mode != snapws.BackpressureClose && how != "close" && how != "flusher" && batches(0) != want[0] {
								mc.Failf("%s: client 0 gets %q, accepted %q", how, batches(0), want[0])
							}
							h.ps[1].works("batch broadcasts")
							cancel()
						}})
					}
				}
				// batch broadcasts: counts and recipients
				for mask := 0; mask < 8; mask++ {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s batch broadcast excluding %b", kind, mask), Bound: b2i(th), Body: func() {
						o := snapws.Options{WriteWait: time.Hour}
						h := &hall{kind: kind}
						h.u = snapws.NewUpgrader(quiet(&o))
						h.u.EnablePrefixBatching(bg, flushEvery)
						h.m = snapws.NewManager[int](h.u)
						h.rm = snapws.NewRoomManager[int](h.u)
						h.room = h.rm.Add(7)
						for i := 0; i < 3; i++ {
							h.join()
						}
						var ex []int
						for i := 0; i < 3; i++ {
							if mask>>i&1 == 1 {
								ex = append(ex, i)
							}
						}
						for k := 0; k < 2; k++ {
							_, _, n, err := h.send("batch", bg, fmt.Sprintf("b%d", k), ex...)
							if err != nil || n != 3-popcount(mask) {
								mc.Failf("batch broadcast to %d connections returns %d, %v", 3-popcount(mask), n, err)
							}
						}
						settle(3)
						for i, p := range h.ps {
							all := ""
							for _, m := range p.expectOpen("batch broadcast").msgs {
								all += string(m.data)
							}
							want := "\x00\x00\x00\x02b0\x00\x00\x00\x02b1"
							if mask>>i&1 == 1 {
								want = ""
							}
							if all != want {
								mc.Failf("client %d gets %q, want %q", i, all, want)
							}
						}
					}})
				}
			}
			// a connection that joins two groups at once is a recipient of both
			for _, pair := range []string{"room room", "manager room", "room manager", "manager manager"} {
				out = append(out, mc.Scenario{Name: "joins two at once: " + pair, Bound: 2 + b2i(th), Body: func() {
					u := snapws.NewUpgrader(quiet(&snapws.Options{}))
					p := newPeer("client")
					c, err := u.Upgrade(response(p.fc, 4096, 4096, nil), request())
					mustOK("Upgrade", err)
					p.conn = c
					p.shaken()
					rm := snapws.NewRoomManager[int](u)
					want := 0
					var hs []*mc.Handle
					for i, kind := range strings.Fields(pair) {
						hs = append(hs, mc.Spawn(fmt.Sprint(kind, i), func() {
							for b := range 2 {
								var n int
								var err error
								if kind == "room" {
									r := rm.Add(i)
									r.Add(c)
									n, err = r.BroadcastString(bg, []byte(fmt.Sprint(i, b)))
								} else {
									m := snapws.NewManager[int](u)
									m.Register(1, &snapws.ManagedConn[int]{Conn: c, Key: 1, Manager: m})
									n, err = m.BroadcastString(bg, []byte(fmt.Sprint(i, b)))
								}
								mustOK("broadcast", err)
								if n != 1 {
									mc.Failf("%s: broadcast %d returns %d", pair, b, n)
								}
								want++
							}
						}))
					}
					mc.Join(hs...)
					mc.Quiesce()
					w := p.expectOpen(pair)
					next := []int{0, 0}
					for _, m := range w.msgs {
						var i, b int
						fmt.Sscan(string(m.data), &i, &b)
						if next[i] != b {
							mc.Failf("%s: group %d's broadcast %d is delivered when %d is expected", pair, i, b, next[i])
						}
						next[i]++
					}
					if len(w.msgs) != want {
						mc.Failf("%s: %d of %d accepted broadcasts are delivered: %q", pair, len(w.msgs), want, w.msgs)
					}
					mc.Outcome(fmt.Sprint(w.msgs))
				}})
			}
			return out
		},
	})
}

func popcount(x int) int {
	n := 0
	for ; x > 0; x &= x - 1 {
		n++
	}
	return n
}
