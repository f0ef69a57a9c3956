package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// flGen is one generation of the flusher as the reference sees it.
type flGen struct{ closed, cancelled bool }

func (g flGen) allows(err error) bool {
	if !g.closed && !g.cancelled {
		return err == nil
	}
	return g.closed && errors.Is(err, snapws.ErrFlusherClosed) || g.cancelled && errors.Is(err, context.Canceled)
}

func init() {
	Reg(&mc.Property{
		ID:   "C20",
		Rule: "all histories up to the depth of batching, opening and closing connections, letting an interval pass, closing the flusher (again), cancelling its context and enabling batching anew, compared with a reference after each step; concurrent batchers, batch broadcasters, new and closing connections, ticks at every moment, slow clients and senders against each way of ending the flusher, under all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			hows := []string{"json", "length", "custom"}
			for _, how := range hows {
				out = append(out, mc.Scenario{Name: "histories " + how, Bound: 0, Body: func() {
					b := newBatcher(how, "", snapws.Options{MaxBatchSize: 20}, nil)
					m := snapws.NewManager[int](b.u)
					var gens []*flGen
					var cancels []func()
					var flushers []interface {
						Close()
						IsClosed() bool
					}
					enable := func() {
						ctx, cancel := mc.WithCancel(bctx)
						b.enable(ctx)
						gens = append(gens, &flGen{})
						cancels = append(cancels, cancel)
						flushers = append(flushers, b.u.Flusher)
					}
					enable()
					var gen []int          // of each connection
					var must, may []string // delivered for sure; perhaps
					var closed []bool
					open := func() {
						id := len(b.ps)
						p := newPeer(fmt.Sprintf("client%d", id))
						b.ps = append(b.ps, p)
						k, err := m.Connect(id, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						gen = append(gen, len(gens)-1)
						closed = append(closed, false)
						must = append(must, "")
						may = append(may, "")
					}
					open()
					open()
					id := 0
					batch := func(i, n int) {
						s := jmsg(id%10, n)
						id++
						err := b.ps[i].conn.Batch([]byte(s))
						if closed[i] {
							if err == nil {
								mc.Failf("Batch on a closed connection succeeds")
							}
							return
						}
						g := gens[gen[i]]
						if !g.allows(err) {
							mc.Failf("Batch returns %v, flusher closed=%v cancelled=%v", err, g.closed, g.cancelled)
						}
						if err == nil {
							may[i] += s
						}
					}
					commit := func(k int) {
						for i := range may {
							if gen[i] == k && !closed[i] {
								must[i] += may[i]
								may[i] = ""
							}
						}
					}
					check := func() {
						mc.Quiesce()
						for i := range b.ps {
							got := ""
							for _, l := range b.decode(i) {
								got += strings.Join(l, "")
							}
							if !strings.HasPrefix(got, must[i]) || !strings.HasPrefix(must[i]+may[i], got) {
								mc.Failf("client %d gets %q; accepted and due: %q, accepted and not due: %q", i, got, must[i], may[i])
							}
							if gens[gen[i]].cancelled && len(got) > len(must[i]) {
								must[i], may[i] = got, may[i][len(got)-len(must[i]):]
							}
						}
						for k, g := range gens {
							if flushers[k].IsClosed() != g.closed {
								mc.Failf("IsClosed is %v", !g.closed)
							}
						}
					}
					depth := 5 + b2i(th)
					for s := 0; s < depth; s++ {
						cur := len(gens) - 1
						switch mc.Choose(10) {
						case 0:
							batch(0, 5)
						case 1:
							batch(1, 12)
						case 2:
							mc.SleepNs(flushEvery.Nanoseconds())
							for k, g := range gens {
								if !g.cancelled {
									commit(k)
								}
							}
						case 3:
							if closed[1] {
								return
							}
							b.ps[1].conn.Close()
							closed[1] = true
						case 4:
							if len(b.ps) == 3 {
								return
							}
							open()
							batch(2, 5)
						case 5: // closing, perhaps again
							b.u.Flusher.Close()
							gens[cur].closed = true
							if !gens[cur].cancelled {
								commit(cur)
							}
						case 6: // closing the first one
							if cur == 0 {
								return
							}
							flushers[0].Close()
						case 7:
							if cur == 2 {
								return
							}
							gens[cur].closed = true
							if !gens[cur].cancelled {
								commit(cur)
							}
							enable()
						case 8:
							cancels[cur]()
							gens[cur].cancelled = true
						case 9:
							// what is queued is flushed one interval later
							n, err := m.BatchBroadcast(bg, []byte(`"BB"`))
							g := gens[cur]
							open := 0
							for i := range b.ps {
								open += b2i(!closed[i])
							}
							if !g.allows(err) && open > 0 || err == nil && n != open || err != nil && n != 0 {
								mc.Failf("BatchBroadcast to %d connections returns %d, %v; flusher closed=%v cancelled=%v", open, n, err, g.closed, g.cancelled)
							}
							mc.Quiesce()
							for i := range b.ps {
								if !closed[i] && err == nil {
									if g := gens[gen[i]]; !g.closed && !g.cancelled {
										may[i] += `"BB"`
									}
								}
							}
						}
						check()
					}
					for k, g := range gens {
						if !g.cancelled {
							commit(k)
						}
					}
					mc.SleepNs(flushEvery.Nanoseconds())
					check()
					for i := range b.ps {
						if !closed[i] {
							b.ps[i].works("flusher")
						}
					}
				}})
			}

			acts := []string{"small", "big", "two conns", "broadcast", "new conn", "close other", "send", "stall", "ticks"}
			ends := []string{"close", "close twice", "cancel", "enable", "close and cancel", "tick and close"}
			run := func(how string, as []string, end string) func() {
				return func() {
					stalled := has(as, "stall")
					b := newBatcher(how, "", snapws.Options{MaxBatchSize: 20, WriteBufferSize: 32}, func(b *batcher, c *snapws.Conn, msgs [][]byte) error {
						if c == b.ps[0].conn {
							mc.Block("slow sender", func() bool { return !stalled })
						}
						return nil
					})
					m := snapws.NewManager[int](b.u)
					ctx, cancel := mc.WithCancel(bctx)
					b.enable(ctx)
					old := b.u.Flusher
					ended, endDone, cancelled := false, false, false
					join := func() *peer {
						id := len(b.ps)
						p := newPeer(fmt.Sprintf("client%d", id))
						b.ps = append(b.ps, p)
						k, err := m.Connect(id, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						return p
					}
					p, q := join(), join()
					p.fc.stall = stalled
					type key struct {
						c   *snapws.Conn
						who string
					}
					acc := map[key][]string{}
					var refused []string
					allowed := func(err error) bool {
						// a batch being written when the context ends may take its connection along
						return cancelled && (isFatal(err) || errors.Is(err, snapws.ErrConnClosed)) || errors.Is(err, snapws.ErrFlusherClosed) && end != "cancel" || cancelled && errors.Is(err, context.Canceled)
					}
					var hs []*mc.Handle
					for t, a := range as {
						who := fmt.Sprintf("%d", t)
						msg := func(i, n int) string {
							s := fmt.Sprintf(`"%s.%d`, who, i)
							for len(s) < n-1 {
								s += "-"
							}
							return s + `"`
						}
						hs = append(hs, mc.Spawn(a, func() {
							gone := false
							batch := func(c *snapws.Conn, s string) {
								was := endDone
								err := c.Batch([]byte(s))
								if err == nil {
									if was && (c == p.conn || c == q.conn) {
										mc.Failf("Batch succeeds after the flusher has ended")
									}
									if gone {
										mc.Failf("Batch succeeds after failing")
									}
									k := key{c, who}
									acc[k] = append(acc[k], s)
									return
								}
								refused = append(refused, s)
								if c == q.conn && has(as, "close other") {
									return
								}
								gone = true
								if !ended || !allowed(err) {
									mc.Failf("Batch fails: %v (flusher ended: %v)", err, ended)
								}
							}
							switch a {
							case "small":
								for i := 0; i < 3; i++ {
									batch(p.conn, msg(i, 6))
								}
							case "big":
								for i := 0; i < 3; i++ {
									batch(p.conn, msg(i, 12))
								}
							case "two conns":
								batch(p.conn, msg(0, 6))
								if !has(as, "close other") {
									batch(q.conn, msg(1, 6))
								}
							case "broadcast":
								for i := 0; i < 2; i++ {
									was := endDone
									n, err := m.BatchBroadcast(bg, []byte(`"B`+msg(i, 8)[1:]))
									if err == nil && n < 2 && !has(as, "close other") && !cancelled || err != nil && (!ended || !allowed(err)) || was && err == nil && end != "enable" {
										mc.Failf("BatchBroadcast to %d connections returns %d, %v (flusher ended: %v)", len(b.ps), n, err, ended)
									}
								}
							case "new conn":
								c := join()
								batch(c.conn, msg(0, 6))
								batch(c.conn, msg(1, 6))
							case "close other":
								batch(q.conn, msg(0, 6))
								q.conn.Close()
							case "send":
								batch(p.conn, msg(0, 6))
								if err := p.conn.SendString(bg, []byte("plain text message")); err != nil && !cancelled {
									mc.Failf("SendString fails: %v", err)
								}
							case "stall":
								batch(p.conn, msg(0, 6))
								batch(p.conn, msg(1, 18))
								stalled, p.fc.stall = false, false
							case "ticks":
								batch(p.conn, msg(0, 6))
								mc.SleepNs(flushEvery.Nanoseconds())
								batch(p.conn, msg(1, 6))
								mc.SleepNs(flushEvery.Nanoseconds())
								batch(p.conn, msg(2, 6))
							}
						}))
					}
					stop := func(f func()) {
						hs = append(hs, mc.Spawn("end", func() {
							ended = true
							f()
							endDone = true
						}))
					}
					stopCtx := func() { cancelled = true; cancel() }
					switch end {
					case "close":
						stop(b.u.Flusher.Close)
					case "close twice":
						f := b.u.Flusher
						stop(f.Close)
						stop(f.Close)
					case "cancel":
						stop(stopCtx)
					case "enable":
						stop(func() { b.enable(bctx) })
					case "close and cancel":
						stop(b.u.Flusher.Close)
						stop(stopCtx)
					case "tick and close":
						stop(func() {
							mc.SleepNs(flushEvery.Nanoseconds())
							b.u.Flusher.Close()
						})
					}
					mc.Join(hs...)
					settle(2)
					if old.IsClosed() != (end != "cancel") {
						mc.Failf("IsClosed is %v after %s", old.IsClosed(), end)
					}
					if err := p.conn.Batch([]byte("9")); !allowed(err) {
						mc.Failf("Batch returns %v after %s", err, end)
					}
					if err := p.conn.BatchJSON(9); !allowed(err) {
						mc.Failf("BatchJSON returns %v after %s", err, end)
					}
					if n, err := m.BatchBroadcast(bg, []byte("99")); end == "enable" && (err != nil || n < 1) || end != "enable" && (n != 0 || !allowed(err)) {
						mc.Failf("BatchBroadcast returns %d, %v after %s", n, err, end)
					}
					old.Close()
					old.Close()
					settle(2)
					for i, c := range b.ps {
						open := !(c == q && has(as, "close other")) && !(cancelled && c.fc.closed)
						var got []string
						for _, l := range b.decode(i) {
							if len(l) == 0 || len(l) > 1 && sizes(l) > 20 {
								mc.Failf("batch %q", l)
							}
							got = append(got, l...)
						}
						n := 0
						for t := range as {
							var mine []string
							for _, g := range got {
								if strings.HasPrefix(g, fmt.Sprintf(`"%d.`, t)) {
									mine = append(mine, g)
								}
							}
							n += len(mine)
							inOrder(fmt.Sprintf("client %d", i), mine, acc[key{c.conn, fmt.Sprint(t)}], open && !cancelled)
						}
						for _, g := range got {
							if has(refused, g) {
								mc.Failf("client %d gets %q, whose Batch failed", i, g)
							}
							n += b2i(g == "99" && end == "enable" || strings.HasPrefix(g, `"B`))
							if g == "9" {
								mc.Failf("client %d gets a message batched after the end", i)
							}
						}
						if n != len(got) {
							mc.Failf("client %d gets %q", i, got)
						}
						if open {
							c.expectOpen("flusher ended")
							c.works("flusher ended")
						}
					}
				}
			}
			for _, end := range ends {
				for i, a := range acts {
					for _, how := range hows {
						k := 1 + b2i(th)
						if how == "length" && (th || (a == "small" || a == "two conns") && (end == "close" || end == "enable")) {
							k++
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s: %s then %s", how, a, end), Bound: k, Cfg: mc.Config{TimeDev: true}, Body: run(how, []string{a}, end)})
					}
					for _, c := range acts[i:] {
						if a == c && a != "small" || !th && a != "small" && end != "close" && end != "tick and close" {
							continue
						}
						how := hows[(i+len(c)+len(end))%3]
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s: %s and %s then %s", how, a, c, end), Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run(how, []string{a, c}, end)})
					}
				}
			}
			// without a context, an interval or a send function
			for _, how := range hows {
				out = append(out, mc.Scenario{Name: "defaults " + how, Bound: 0, Body: func() {
					b := newBatcher(how, "", snapws.Options{MaxBatchSize: 20}, nil)
					none := how == "custom"
					switch how {
					case "json":
						b.u.EnableJSONBatching(nil, 0)
					case "length":
						b.u.EnablePrefixBatching(nil, 0)
					case "custom":
						b.u.EnableBatching(nil, 0, nil)
					}
					m := snapws.NewManager[int](b.u)
					for i := 0; i < 2; i++ {
						p := newPeer(fmt.Sprintf("client%d", i))
						b.ps = append(b.ps, p)
						k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
					}
					want := ""
					for s := 0; s < 4; s++ {
						mc.SleepNs(int64(mc.Choose(3)) * 20e6)
						msg := jmsg(s, 12)
						n, err := m.BatchBroadcast(nil, []byte(msg))
						if n != 2 || err != nil {
							mc.Failf("BatchBroadcast returns %d, %v", n, err)
						}
						want += msg
						if mc.Choose(2) == 1 {
							mc.Quiesce()
							mustOK("Batch", b.ps[0].conn.Batch([]byte(msg)))
							mc.SleepNs(100e6)
							mc.Quiesce()
							for i := range b.ps {
								got := ""
								if !none {
									for _, l := range b.decode(i) {
										got += strings.Join(l, "")
									}
								}
								if exp := want + msg[:len(msg)*(1-i)]; !none && got != exp {
									mc.Failf("client %d has %q after two intervals, want %q", i, got, exp)
								}
								b.ps[i].works("defaults")
							}
							return
						}
					}
				}})
			}
			// nothing enabled
			out = append(out, mc.Scenario{Name: "not enabled", Bound: 0, Body: func() {
				b := newBatcher("", "", snapws.Options{WriteWait: time.Hour}, nil)
				m := snapws.NewManager[int](b.u)
				p := newPeer("client")
				k, err := m.Connect(0, response(p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				p.conn = k.Conn
				p.shaken()
				if err := p.conn.Batch([]byte("x")); !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("Batch returns %v without batching", err)
				}
				if n, err := m.BatchBroadcast(bg, []byte("x")); n != 0 || !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("BatchBroadcast returns %d, %v without batching", n, err)
				}
				if err := p.conn.BatchJSON(1); !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("BatchJSON returns %v without batching", err)
				}
				if n, err := m.BatchBroadcastJSON(bg, 1); n != 0 || !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("BatchBroadcastJSON returns %d, %v without batching", n, err)
				}
				rm := snapws.NewRoomManager[int](b.u)
				rm.Add(1).Add(p.conn)
				if n, err := rm.Get(1).BatchBroadcast(bg, []byte("x")); n != 0 || !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("a room's BatchBroadcast returns %d, %v without batching", n, err)
				}
				if n, err := rm.Get(1).BatchBroadcastJSON(bg, 1); n != 0 || !errors.Is(err, snapws.ErrBatchingUninitialized) {
					mc.Failf("a room's BatchBroadcastJSON returns %d, %v without batching", n, err)
				}
				p.works("no batching")
			}})
			return out
		},
	})
}
