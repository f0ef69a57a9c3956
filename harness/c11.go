package harness

import (
	"context"
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// ctxSend is one send made with the given context; it reports what was sent and
// how it ended.
func ctxSend(p *peer, m *snapws.Manager[string], kind string, ctx context.Context, id int) (op byte, data string, err error, queued bool) {
	c := p.conn
	short := fmt.Sprintf("s%d", id)
	long := fmt.Sprintf("l%d:", id) + string(tpat(id, 25))
	switch kind {
	case "short":
		return opBin, short, c.SendBytes(ctx, []byte(short)), false
	case "long":
		return opText, long, c.SendString(ctx, []byte(long)), false
	case "message":
		return opText, long, c.SendMessage(ctx, opText, []byte(long)), false
	case "json":
		d := fmt.Sprintf("\"%s\"\n", long)
		return opText, d, c.SendJSON(ctx, long), false
	case "badjson":
		err := c.SendJSON(ctx, map[string]any{"a": long, "b": make(chan int)})
		if err == nil {
			mc.Failf("SendJSON of an unmarshallable value succeeds")
		}
		if isFatal(err) {
			mc.Failf("SendJSON of an unmarshallable value: fatal error %v", err)
		}
		return opText, "", err, false
	case "stream", "stream-noflush", "stream-stop":
		w, err := c.NextWriter(ctx, opText)
		if err != nil {
			return opText, "", err, false
		}
		data := ""
		var first error
		for i, s := range []string{fmt.Sprintf("t%d:", id), string(tpat(id, 12)), "end"} {
			if n, err := w.Write([]byte(s)); err != nil {
				if first == nil {
					first = err
				}
				data += s[:n]
				if kind == "stream-stop" {
					break
				}
				continue
			}
			data += s
			if i == 0 && kind != "stream-noflush" {
				if err := w.Flush(); err != nil && first == nil {
					first = err
					if kind == "stream-stop" {
						break
					}
				}
			}
		}
		if err := w.Close(); err != nil {
			if first == nil || isFatal(err) {
				first = err
			}
		} else if first != nil && !isFatal(first) {
			// a failed write may be retried or left out; closing then finishes the message
			first = nil
		}
		return opText, data, first, false
	case "bcast":
		d := "b" + short
		_, err := m.BroadcastString(ctx, []byte(d))
		return opText, d, err, true
	}
	panic(kind)
}

func init() {
	Reg(&mc.Property{
		ID:   "C11",
		Rule: "every kind of send (one frame, several frames, JSON, unmarshallable JSON, streaming writer in three styles, broadcast) with a context cancelled by another thread at any point, already cancelled, or expiring at any point; alone and against another sender holding the writer, a stalled client, or a stream in progress; followed by live sends. All schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			kinds := []string{"short", "long", "message", "json", "badjson", "stream", "stream-noflush", "stream-stop", "bcast"}
			after := func(x *mix, why string, op byte, data string, err error, queued bool, others []string) {
				w := x.p.wire()
				n := 0
				for _, m := range w.msgs {
					if string(m.data) == data && m.op == op {
						n++
						continue
					}
					ok := false
					for _, o := range others {
						ok = ok || o == string(m.data)
					}
					if !ok {
						mc.Failf("%s: client received the message %q", why, m.data)
					}
				}
				if n > 1 {
					mc.Failf("%s: message arrived %d times", why, n)
				}
				if err == nil && n == 0 && !queued {
					mc.Failf("%s: sent without error but never arrived", why)
				}
				if x.p.fc.closed || len(w.closes) > 0 {
					if err != nil && !isFatal(err) {
						mc.Failf("%s: the non-fatal error %v, but the connection was closed", why, err)
					}
					x.p.expectClosed(why)
					if x.hooks != 1 {
						mc.Failf("%s: closed, disconnect hook ran %d times", why, x.hooks)
					}
					if err == nil {
						mc.Failf("%s: no error, but the connection was closed", why)
					}
					if err := x.p.conn.SendBytes(bg, []byte("x")); err == nil {
						mc.Failf("%s: closed connection accepts a message", why)
					}
					mc.Outcome("closed %d", n)
					return
				}
				if err != nil && isFatal(err) {
					mc.Failf("%s: fatal error %v, but the connection is open", why, err)
				}
				if w.open != nil || len(w.tail) > 0 {
					mc.Failf("%s: the connection is open with an unfinished message %v on the wire", why, w.open)
				}
				t := mc.NowNs()
				x.p.works(why)
				cw, err2 := x.p.conn.NextWriter(bg, opText)
				mustOK(why+": NextWriter", err2)
				cw.Write(tpat(1, 30))
				mustOK(why+": writer Close", cw.Close())
				if k, err := x.m.BroadcastBytes(bg, []byte("probe")); k != 1 || err != nil {
					mc.Failf("%s: broadcast returns %d, %v", why, k, err)
				}
				mc.Quiesce()
				w = x.p.expectOpen(why)
				if l := w.msgs[len(w.msgs)-1]; string(l.data) != "probe" {
					mc.Failf("%s: broadcast did not arrive", why)
				}
				if mc.NowNs() != t && !strings.HasSuffix(why, "deadline") {
					mc.Failf("%s: later sends took %dms", why, (mc.NowNs()-t)/1e6)
				}
				mc.Outcome("open %d", n)
			}
			for _, k := range kinds {
				for _, mode := range []string{"thread", "before", "deadline"} {
					for _, alone := range []bool{true, false} {
						b := 2
						if mode == "deadline" && !alone {
							b = 1
						}
						if th {
							b++
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %s alone=%v", k, mode, alone), Bound: b, Cfg: mc.Config{TimeDev: mode == "deadline"}, Body: cancelled(k, mode, alone, after)})
					}
				}
			}
			// cancelled at a known time while somebody else keeps the writer busy
			for _, k := range kinds {
				if k == "bcast" || k == "badjson" {
					continue
				}
				for _, busy := range []string{"writer", "stalled", "frame"} {
					for _, dl := range []bool{false, true} {
						b := 1
						if th {
							b = 2
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s waits for %s deadline=%v", k, busy, dl), Bound: b, Body: func() {
							x := newMix(mixOpts{split: true, o: snapws.Options{WriteWait: time.Hour}})
							var hold *snapws.ConnWriter
							var hs []*mc.Handle
							switch busy {
							case "writer":
								var err error
								hold, err = x.p.conn.NextWriter(bg, opBin)
								mustOK("NextWriter", err)
								hold.Write([]byte("hold"))
							case "stalled":
								x.p.fc.stall = true
								hs = append(hs, mc.Spawn("holder", func() { mustOK("send", x.p.conn.SendBytes(bg, []byte("hold"))) }))
							case "frame":
								// the transport is busy with a control frame: the writer is
								// free but its frames have to wait
								x.p.fc.stall = true
								hs = append(hs, mc.Spawn("holder", func() { mustOK("Ping", x.p.conn.Ping()) }))
							}
							mc.Quiesce()
							const at = 20 * time.Millisecond
							ctx, cancel := mc.WithCancel(bg)
							if dl {
								cancel()
								ctx, cancel = mc.WithTimeout(bg, at)
								defer cancel()
							}
							var op byte
							var data string
							var err error
							done := int64(-1)
							hs = append(hs, mc.Spawn("waiter", func() {
								op, data, err, _ = ctxSend(x.p, x.m, k, ctx, 1)
								done = mc.NowNs()
							}))
							mc.SleepNs(at.Nanoseconds())
							if !dl {
								cancel()
							}
							mc.Quiesce()
							if done < 0 {
								mc.Failf("%s waiting for a busy %s has not returned although its context is done", k, busy)
							}
							if done > at.Nanoseconds() {
								mc.Failf("%s returned %dms after its context was done", k, (done-at.Nanoseconds())/1e6)
							}
							if err == nil {
								mc.Failf("%s could not be sent but returned no error", k)
							}
							x.p.fc.stall = false
							mc.Join(hs...)
							var others []string
							if hold != nil {
								mustOK("holder Close", hold.Close())
							}
							if busy != "frame" {
								others = []string{"hold"}
							}
							mc.Quiesce()
							after(x, k+" waiting for "+busy, op, data, err, false, others)
						}})
					}
				}
			}
			// broadcasts of values that cannot be marshalled
			for _, batching := range []bool{false, true} {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("unmarshallable broadcasts, batching=%v", batching), Bound: 0, Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					if batching {
						u.EnableJSONBatching(bg, flushEvery)
					}
					m := snapws.NewManager[int](u)
					rm := snapws.NewRoomManager[int](u)
					r := rm.Add(0)
					var ps []*peer
					for i := 0; i < 2; i++ {
						p := newPeer(fmt.Sprintf("client%d", i))
						k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						r.Add(p.conn)
						ps = append(ps, p)
					}
					bad := pick([]any{make(chan int), map[string]any{"a": 1, "b": func() {}}, []any{1, 2, complex(1, 2)}})
					for i := 0; i < 2; i++ {
						for name, f := range map[string]func() (int, error){
							"manager":         func() (int, error) { return m.BroadcastJSON(bg, bad) },
							"room":            func() (int, error) { return r.BroadcastJSON(bg, bad) },
							"manager batched": func() (int, error) { return m.BatchBroadcastJSON(bg, bad) },
							"room batched":    func() (int, error) { return r.BatchBroadcastJSON(bg, bad) },
							"batch":           func() (int, error) { return 0, ps[0].conn.BatchJSON(bad) },
						} {
							if n, err := f(); n != 0 || err == nil || isFatal(err) {
								mc.Failf("%s: an unmarshallable value gives %d, %v", name, n, err)
							}
						}
					}
					settle(3)
					for _, p := range ps {
						if w := p.expectOpen("unmarshallable"); len(w.msgs) > 0 {
							mc.Failf("%s receives %q of values that cannot be marshalled", p.fc.name, w.msgs[0].data)
						}
						p.works("unmarshallable")
					}
				}})
			}
			// no context is one that never ends
			for _, k := range kinds {
				for _, busy := range []bool{false, true} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s without a context, busy=%v", k, busy), Bound: 1, Body: func() {
						x := newMix(mixOpts{split: true, o: snapws.Options{WriteWait: time.Hour}})
						var hold *snapws.ConnWriter
						if busy {
							var err error
							hold, err = x.p.conn.NextWriter(nil, opBin)
							mustOK("NextWriter", err)
							hold.Write([]byte("hold"))
						}
						var op byte
						var data string
						var err error
						var queued bool
						h := mc.Spawn("sender", func() { op, data, err, queued = ctxSend(x.p, x.m, k, nil, 1) })
						var others []string
						if busy {
							mc.SleepNs(10 * sec)
							mustOK("holder Close", hold.Close())
							others = []string{"hold"}
						}
						mc.Join(h)
						mc.Quiesce()
						if k != "badjson" {
							mustOK(k+" without a context", err)
						}
						after(x, k+" without a context", op, data, err, queued, others)
					}})
				}
			}
			// a broadcaster waiting for room in a queue
			out = append(out, mc.Scenario{Name: "broadcast waits for a full queue", Bound: 2, Body: func() {
				x := newMix(mixOpts{o: snapws.Options{WriteWait: time.Hour, BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureWait}})
				x.p.fc.stall = true
				ctx, cancel := mc.WithCancel(bg)
				const at = 20 * time.Millisecond
				if mc.Choose(2) == 1 {
					cancel()
					ctx, cancel = mc.WithTimeout(bg, at)
					defer cancel()
				}
				total, done := 0, int64(-1)
				var last error
				h := mc.Spawn("broadcaster", func() {
					for i := 0; i < 4 && last == nil; i++ {
						n, err := x.m.BroadcastString(ctx, []byte{byte('a' + i)})
						total += n
						last = err
					}
					done = mc.NowNs()
				})
				mc.SleepNs(at.Nanoseconds())
				cancel()
				mc.Quiesce()
				if done != at.Nanoseconds() || last == nil {
					mc.Failf("broadcast waiting for a full queue: returned at %d, err %v; its context was done at %d", done, last, at.Nanoseconds())
				}
				x.p.fc.stall = false
				mc.Join(h)
				mc.Quiesce()
				var others []string
				for i := 0; i < 4; i++ {
					others = append(others, string(rune('a'+i)))
				}
				after(x, "broadcast waits", 0, "", last, true, others)
			}})
			// sequences of sends with live and dead contexts
			depth := 3
			if th {
				depth = 4
			}
			out = append(out, mc.Scenario{Name: "sequences", Bound: b2i(th), Body: func() {
				x := newMix(mixOpts{})
				dead, cancel := mc.WithCancel(bg)
				cancel()
				why := ""
				var want []string
				for i := 0; i < depth; i++ {
					k := pick(kinds)
					why += k + " "
					if mc.Choose(2) == 1 {
						why += "(dead) "
						_, d, err, _ := ctxSend(x.p, x.m, k, dead, i)
						if err != nil && x.p.fc.closed != isFatal(err) {
							mc.Failf("%s: error %v, transport closed %v", why, err, x.p.fc.closed)
						}
						if x.p.fc.closed {
							x.p.expectClosed(why)
							return
						}
						if err == nil {
							want = append(want, d)
						}
						mc.Quiesce()
						continue
					}
					_, d, err, _ := ctxSend(x.p, x.m, k, bg, i)
					if k != "badjson" {
						mustOK(why, err)
						want = append(want, d)
					}
					mc.Quiesce()
				}
				w := x.p.expectOpen(why)
				if w.open != nil {
					mc.Failf("%s: unfinished message %q", why, w.open.data)
				}
				got := map[string]bool{}
				for _, m := range w.msgs {
					got[string(m.data)] = true
				}
				for _, d := range want {
					if !got[d] && !strings.HasPrefix(d, "bs") {
						mc.Failf("%s: %q missing", why, d)
					}
				}
				x.p.works(why)
			}})
			// the flusher's context is the context of every batch it sends
			bb := 2
			if th {
				bb = 3
			}
			out = append(out, mc.Scenario{Name: "batch", Bound: bb, Body: func() {
				ctx, cancel := mc.WithCancel(bg)
				u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: 24, MaxBatchSize: 40}))
				u.EnablePrefixBatching(ctx, flushEvery)
				x := &mix{u: u, m: snapws.NewManager[string](u), p: newPeer("c")}
				u.OnDisconnect = func(*snapws.Conn) { x.hooks++ }
				k, err := x.m.Connect("k", response(x.p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				x.p.conn = k.Conn
				x.p.shaken()
				x.p.fc.split = true
				mustOK("Batch", x.p.conn.Batch(tpat(1, 30)))
				mustOK("Batch", x.p.conn.Batch(tpat(2, 30))) // sends the first one
				mc.Join(mc.Spawn("canceller", func() { cancel() }))
				mc.Quiesce()
				w := x.p.wire()
				if x.p.fc.closed {
					x.p.expectClosed("batch")
					mc.Outcome("closed")
					return
				}
				if w.open != nil || len(w.tail) > 0 {
					mc.Failf("cancelled batch left an unfinished message")
				}
				if err := x.p.conn.Batch([]byte("x")); err == nil || isFatal(err) {
					mc.Failf("Batch with a cancelled flusher: %v", err)
				}
				mc.Outcome("open %d", len(w.msgs))
				x.p.works("after a cancelled batch")
			}})
			return out
		},
	})
}

// cancelled: a send whose context ends at any moment, alone or competing with
// sends whose contexts are live.
func cancelled(k, mode string, alone bool, after func(x *mix, why string, op byte, data string, err error, queued bool, others []string)) func() {
	return func() {
		x := newMix(mixOpts{split: alone, o: snapws.Options{WriteWait: time.Hour}})
		ctx, cancel := mc.WithCancel(bg)
		var hs []*mc.Handle
		switch mode {
		case "before":
			cancel()
		case "thread":
			hs = append(hs, mc.Spawn("canceller", func() { cancel() }))
		case "deadline":
			cancel()
			ctx, cancel = mc.WithTimeout(bg, 10*time.Millisecond)
			defer cancel()
		}
		var op byte
		var data string
		var err error
		var queued bool
		hs = append(hs, mc.Spawn("sender", func() { op, data, err, queued = ctxSend(x.p, x.m, k, ctx, 1) }))
		if !alone {
			hs = append(hs, mc.Spawn("other", func() { x.act("short", 8) }))
			hs = append(hs, mc.Spawn("streamer", func() { x.act("stream", 7) }))
		}
		mc.Join(hs...)
		mc.Quiesce()
		var others []string
		for _, s := range x.sent {
			others = append(others, s.data)
			if s.err != nil && (!x.p.fc.closed || !isFatal(s.err)) {
				mc.Failf("%s: concurrent send with a live context failed: %v", k, s.err)
			}
		}
		after(x, k+" "+mode, op, data, err, queued, others)
	}
}
