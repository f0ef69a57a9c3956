package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"slices"
	"strings"

	"vh/mc"
	"vh/snapws"
)

// buffers and results belong to the caller.

const guardLen = 24

// lent is a slice the application passes in: part of a larger array whose other
// bytes are nobody's business.
type lent struct {
	arr, was []byte
	data     []byte // with spare capacity
	want     string
}

func lend(data []byte) *lent {
	l := &lent{want: string(data)}
	l.arr = append(bytes.Repeat([]byte{0xa5}, guardLen), data...)
	l.arr = append(l.arr, bytes.Repeat([]byte{0x5a}, guardLen)...)
	l.was = slices.Clone(l.arr)
	l.data = l.arr[guardLen : guardLen+len(data)]
	return l
}

func (l *lent) check(why string) {
	if !bytes.Equal(l.arr, l.was) {
		for i := range l.arr {
			if l.arr[i] != l.was[i] {
				mc.Failf("%s: byte %d of the application's buffer of %d (data at %d..%d) changed from %#x to %#x", why, i, len(l.arr), guardLen, guardLen+len(l.data), l.was[i], l.arr[i])
			}
		}
	}
}

// reuse overwrites all of it, as its owner may.
func (l *lent) reuse() {
	for i := range l.arr {
		l.arr[i] = '#'
	}
	l.was = slices.Clone(l.arr)
}

// kept is a slice the library returned.
type kept struct {
	data []byte
	want string
	what string
}

func (k *kept) check() {
	if string(k.data) != k.want {
		mc.Failf("%s: %q changed after it was returned, to %q", k.what, clip([]byte(k.want)), clip(k.data))
	}
}

// reuse overwrites it with its spare capacity, which belongs to the caller too.
func (k *kept) reuse() {
	d := k.data[:cap(k.data)]
	for i := range d {
		d[i] = '#'
	}
	k.want = string(k.data)
}

func init() {
	Reg(&mc.Property{
		ID:   "C29",
		Rule: "every call that takes bytes x payload sizes around the write buffer sizes x buffer configurations, with the slice inside a larger array whose other bytes are watched, compared after the call and at rest, and overwritten by its owner as soon as the call has returned (not for batching, which keeps the slice until it is delivered); queued deliveries with all schedules up to the deviation bound; every call that returns messages x sizes around the read buffer sizes x segmentation, the returned slices compared after every later read and overwritten up to their capacity; lists of connections, rooms and keys overwritten by the caller; requests and options compared after their use.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			sizes := []int{0, 1, 2, 9, 10, 11, 23, 24, 25, 49, 50, 51, 125, 126, 127, 300, 4081, 4082, 4083, 4096, 5000}
			if th {
				sizes = append(sizes, 3, 4, 5, 20, 21, 22, 26, 27, 63, 64, 65, 4079, 4080, 4084, 8192, 65535, 65536, 70000)
			}
			wbs := []int{0, 24, 64, 512}
			// ---- outgoing, one connection ----
			type snd struct {
				name string
				text bool
				f    func(c *snapws.Conn, l *lent) error
			}
			stream := func(k int, flush bool) func(c *snapws.Conn, l *lent) error {
				return func(c *snapws.Conn, l *lent) error {
					w, err := c.NextWriter(bg, opBin)
					if err != nil {
						return err
					}
					d := l.data
					for i := 0; i < k; i++ {
						n := len(d) / (k - i)
						if _, err := w.Write(d[:n]); err != nil {
							return err
						}
						l.check("after Write")
						for j := range d[:n] {
							d[j] = '#' // Write must not retain it
						}
						l.was = slices.Clone(l.arr)
						if flush {
							if err := w.Flush(); err != nil {
								return err
							}
						}
						d = d[n:]
					}
					return w.Close()
				}
			}
			sends := []snd{
				{"SendBytes", false, func(c *snapws.Conn, l *lent) error { return c.SendBytes(bg, l.data) }},
				{"SendString", true, func(c *snapws.Conn, l *lent) error { return c.SendString(bg, l.data) }},
				{"SendMessage", true, func(c *snapws.Conn, l *lent) error { return c.SendMessage(bg, opText, l.data) }},
				{"Write", false, stream(1, false)},
				{"three Writes", false, stream(3, false)},
				{"three Writes and flushes", false, stream(3, true)},
			}
			for _, s := range sends {
				for _, wb := range wbs {
					for _, pooled := range []bool{true, false} {
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s, write buffer %d, pooled %v", s.name, wb, pooled), Cfg: mc.Config{MaxSteps: 100000}, Body: func() {
							u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: wb, DisableWriteBuffersPooling: !pooled}))
							p := newPeer("client").upgradeSz(u, 128, 64)
							var want []string
							var ls []*lent
							for i, n := range sizes {
								l := lend(tpat(i, n))
								ls = append(ls, l)
								want = append(want, l.want)
								mustOK(s.name, s.f(p.conn, l))
								l.check("after " + s.name)
								if i%2 == 0 {
									l.reuse()
								}
							}
							mc.Quiesce()
							for _, l := range ls {
								l.check("at the end of " + s.name)
							}
							ms := p.expectOpen(s.name).msgs
							if len(ms) != len(want) {
								mc.Failf("%d of %d messages arrived", len(ms), len(want))
							}
							for i, m := range ms {
								if string(m.data) != want[i] {
									mc.Failf("message %d of %d bytes arrives as %q", i, len(want[i]), clip(m.data))
								}
							}
						}})
					}
				}
			}
			// ---- outgoing, queued ----
			casts := []string{"manager string", "manager bytes", "manager JSON", "room string", "room bytes", "room JSON"}
			for _, kind := range casts {
				for _, wb := range []int{0, 24} {
					for _, sz := range []int{0, 5, 10, 40, 125, 126, 300} {
						b := 2 + b2i(th && sz < 126)
						out = append(out, mc.Scenario{Name: fmt.Sprintf("broadcast %s of %d, write buffer %d", kind, sz, wb), Bound: b, Body: func() {
							u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: wb}))
							m := snapws.NewManager[int](u)
							rm := snapws.NewRoomManager[int](u)
							r := rm.Add(0)
							var ps []*peer
							for i := 0; i < 2; i++ {
								p := newPeer(fmt.Sprintf("client%d", i))
								k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
								mustOK("Connect", err)
								p.conn = k.Conn
								p.shaken()
								r.Add(k.Conn)
								ps = append(ps, p)
							}
							var want []string
							h := mc.Spawn("broadcaster", func() {
								for i := 0; i < 3; i++ {
									l := lend([]byte("\"" + string(tpat(i, sz)) + "\""))
									want = append(want, l.want)
									var n int
									var err error
									switch kind {
									case "manager string":
										n, err = m.BroadcastString(bg, l.data)
									case "manager bytes":
										n, err = m.BroadcastBytes(bg, l.data)
									case "manager JSON":
										n, err = m.BroadcastJSON(bg, json.RawMessage(l.data))
									case "room string":
										n, err = r.BroadcastString(bg, l.data)
									case "room bytes":
										n, err = r.BroadcastBytes(bg, l.data)
									case "room JSON":
										n, err = r.BroadcastJSON(bg, json.RawMessage(l.data))
									}
									if n != 2 || err != nil {
										mc.Failf("broadcast reaches %d of 2: %v", n, err)
									}
									l.check("after the broadcast")
									l.reuse()
									defer func() { mc.Quiesce(); l.check("at the end of the broadcast") }()
								}
							})
							mc.Join(h)
							mc.Quiesce()
							for _, p := range ps {
								w := p.expectOpen("broadcast")
								if len(w.msgs) != 3 {
									mc.Failf("%s receives %d of 3 broadcasts", p.fc.name, len(w.msgs))
								}
								for i, x := range w.msgs {
									if string(x.data) != want[i] {
										mc.Failf("%s receives %q for the broadcast %q", p.fc.name, clip(x.data), clip([]byte(want[i])))
									}
								}
							}
						}})
					}
				}
			}
			// ---- batches: the slices are kept, but only read ----
			for _, format := range []string{"json", "prefix", "custom"} {
				for _, how := range []string{"Batch", "room", "manager", "Batch and room"} {
					for _, ends := range []bool{false, true} {
						for _, wb := range []int{0, 24} {
							b := 2 + b2i(th)
							out = append(out, mc.Scenario{Name: fmt.Sprintf("%s batches through %s, prefix and suffix %v, write buffer %d", format, how, ends, wb), Bound: b, Body: func() {
								u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: wb, MaxBatchSize: 40}))
								var handed []*kept
								var lists, copies [][][]byte // what the send function keeps
								switch format {
								case "json":
									u.EnableJSONBatching(bg, flushEvery)
								case "prefix":
									u.EnablePrefixBatching(bg, flushEvery)
								case "custom":
									u.EnableBatching(bg, flushEvery, func(_ context.Context, c *snapws.Conn, ms [][]byte) error {
										lists = append(lists, ms)
										copies = append(copies, slices.Clone(ms))
										for _, m := range ms {
											handed = append(handed, &kept{m, string(m), "a message handed to the send function"})
										}
										return c.SendBytes(bg, bytes.Join(ms, []byte("|")))
									})
								}
								pre, suf := lend([]byte(`"first"`)), lend([]byte(`"last"`))
								if ends {
									u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return pre.data }
									u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return suf.data }
								}
								m := snapws.NewManager[int](u)
								rm := snapws.NewRoomManager[int](u)
								r := rm.Add(0)
								var ps []*peer
								for i := 0; i < 2; i++ {
									p := newPeer(fmt.Sprintf("client%d", i))
									k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
									mustOK("Connect", err)
									p.conn = k.Conn
									p.shaken()
									r.Add(k.Conn)
									ps = append(ps, p)
								}
								var ls []*lent
								put := func(i, n int) *lent {
									l := lend([]byte(fmt.Sprintf("\"%02d.%s\"", i, tpat(i, n))))
									ls = append(ls, l)
									return l
								}
								for i, n := range []int{0, 3, 14, 30} {
									if strings.Contains(how, "Batch") {
										l := put(i, n)
										for _, p := range ps {
											mustOK("Batch", p.conn.Batch(l.data))
										}
									}
									if strings.Contains(how, "room") {
										_, err := r.BatchBroadcast(bg, put(i+10, n).data)
										mustOK("BatchBroadcast", err)
									}
									if how == "manager" {
										_, err := m.BatchBroadcast(bg, put(i+20, n).data)
										mustOK("BatchBroadcast", err)
									}
								}
								settle(3)
								for _, l := range append(ls, pre, suf) {
									l.check("a batched message")
								}
								for _, p := range ps {
									all := ""
									for _, x := range p.expectOpen("batch").msgs {
										all += string(x.data)
									}
									for _, l := range ls {
										if strings.Count(all, l.want) != 1 {
											mc.Failf("%s: the batched message %q is received %d times in %q", p.fc.name, l.want, strings.Count(all, l.want), all)
										}
									}
								}
								for _, k := range handed {
									k.check()
								}
								for i, l := range lists {
									for j := range l {
										if !bytes.Equal(l[j], copies[i][j]) {
											mc.Failf("list %d of messages handed to the send function changed at %d from %q to %q", i, j, clip(copies[i][j]), clip(l[j]))
										}
									}
								}
							}})
						}
					}
				}
			}
			// ---- incoming ----
			type rcv struct {
				name string
				f    func(c *snapws.Conn) ([]byte, error)
			}
			var rt = func(n int) []byte { return []byte("\"" + string(tpat(n, max(n-2, 0))) + "\"") }
			recvs := []rcv{
				{"ReadMessage", func(c *snapws.Conn) ([]byte, error) { _, d, err := c.ReadMessage(); return d, err }},
				{"ReadString", func(c *snapws.Conn) ([]byte, error) { return c.ReadString() }},
				{"NextReader", func(c *snapws.Conn) ([]byte, error) {
					r, _, err := c.NextReader()
					if err != nil {
						return nil, err
					}
					return io.ReadAll(r)
				}},
				{"NextReader, exact", func(c *snapws.Conn) ([]byte, error) {
					r, _, err := c.NextReader()
					if err != nil {
						return nil, err
					}
					var b bytes.Buffer
					g := lend(make([]byte, 7))
					for {
						n, err := r.Read(g.data)
						b.Write(g.data[:n])
						copy(g.was[guardLen:], g.data)
						g.check("reading in pieces")
						if err == io.EOF {
							return b.Bytes(), nil
						}
						if err != nil {
							return nil, err
						}
					}
				}},
				{"ReadJSON", func(c *snapws.Conn) ([]byte, error) {
					var m json.RawMessage
					err := c.ReadJSON(&m)
					return m, err
				}},
			}
			rsizes := []int{2, 3, 50, 124, 125, 126, 127, 128, 129, 250, 256, 257, 511, 512, 513, 600, 4090, 5000}
			for _, r := range recvs {
				for _, rb := range []int{0, 128, 256} {
					for _, seg := range []string{"one", "per frame", "64"} {
						for _, frags := range []int{1, 3} {
							for _, over := range []bool{false, true} {
								out = append(out, mc.Scenario{Name: fmt.Sprintf("%s, read buffer %d, segments %s, %d fragments, overwritten %v", r.name, rb, seg, frags, over), Body: func() {
									u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
									p := newPeer("client").upgradeSz(u, 256, 64)
									var all []byte
									for i, n := range rsizes {
										d := rt(n)
										for k := 0; k < frags; k++ {
											lo, hi := len(d)*k/frags, len(d)*(k+1)/frags
											op := byte(opText)
											if k > 0 {
												op = opCont
											}
											f := frameM(k == frags-1, op, d[lo:hi], [4]byte{byte(i), 7, byte(k), 99})
											g := ping(pat(i, i*7%126))
											if seg == "per frame" {
												p.fc.feed(f, g)
											}
											all = append(append(all, f...), g...)
										}
									}
									if seg == "one" {
										p.fc.feed(all)
									} else if seg == "64" {
										for len(all) > 0 {
											k := min(64, len(all))
											p.fc.feed(all[:k])
											all = all[k:]
										}
									}
									var ks []*kept
									for i, n := range rsizes {
										d, err := r.f(p.conn)
										mustOK(r.name, err)
										if !bytes.Equal(d, rt(n)) {
											mc.Failf("message %d of %d bytes is read as %q", i, n, clip(d))
										}
										ks = append(ks, &kept{d, string(d), "a message returned by " + r.name})
										if over && i%2 == 0 {
											ks[i].reuse()
										}
										for _, k := range ks {
											k.check()
										}
										// sending uses no returned buffer either
										mustOK("SendBytes", p.conn.SendBytes(bg, pat(3, 90)))
										if i == 0 {
											mustOK("Ping", p.conn.Ping())
										}
										for _, k := range ks {
											k.check()
										}
										if i+1 == len(rsizes) {
											p.conn.Close()
										}
									}
									for i := range ks {
										if over {
											ks[i].reuse()
										}
										for _, k := range ks {
											k.check()
										}
									}
									w := p.wire()
									for i, g := range w.pongs {
										if !bytes.Equal(g, pat(i/frags, i/frags*7%126)) {
											mc.Failf("pong %d is %q", i, clip(g))
										}
									}
								}})
							}
						}
					}
				}
			}
			// two readers' messages, one upgrader
			out = append(out, mc.Scenario{Name: "messages of two connections", Bound: 3 + b2i(th), Body: func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: 128}))
				var hs []*mc.Handle
				var ks [2][]*kept
				for i := 0; i < 2; i++ {
					p := newPeer(fmt.Sprintf("client%d", i)).upgradeSz(u, 128, 64)
					for _, n := range []int{20, 140, 10} {
						p.fc.feed(frame(true, opText, tpat(i*7+n, n)))
					}
					hs = append(hs, mc.Spawn("reader", func() {
						for _, n := range []int{20, 140, 10} {
							_, d, err := p.conn.ReadMessage()
							mustOK("ReadMessage", err)
							if !bytes.Equal(d, tpat(i*7+n, n)) {
								mc.Failf("client%d: read %q", i, clip(d))
							}
							k := &kept{d, string(d), "a message"}
							ks[i] = append(ks[i], k)
							if n == 140 {
								k.reuse()
							}
							for _, k := range ks[i] {
								k.check()
							}
						}
						p.conn.Close()
					}))
				}
				mc.Join(hs...)
				both := append(ks[0], ks[1]...)
				for _, k := range both {
					k.reuse()
					for _, o := range both {
						o.check()
					}
				}
			}})
			// ---- lists ----
			for n := 1; n <= 4; n++ {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("lists of %d", n), Bound: 0, Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					m := snapws.NewManager[int](u)
					rm := snapws.NewRoomManager[int](u)
					var ps []*peer
					for i := 0; i < n; i++ {
						p := newPeer(fmt.Sprintf("client%d", i))
						k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						rm.Add(0).Add(p.conn)
						rm.Add(i + 1)
						ps = append(ps, p)
					}
					for round := 0; round < 2; round++ {
						ex := []int{n - 1, 99}
						exc := []*snapws.Conn{ps[n-1].conn}
						a, b, c, d := m.GetAllConns(), m.GetAllConnsAsConn(), rm.Get(0).GetAllConns(), rm.GetRoomKeys()
						a2, b2, c2 := m.GetAllConns(ex...), m.GetAllConnsAsConn(ex...), rm.Get(0).GetAllConns(exc...)
						if len(a) != n || len(b) != n || len(c) != n || len(d) != n+1 || len(a2) != n-1 || len(b2) != n-1 || len(c2) != n-1 {
							mc.Failf("round %d: lists of %d %d %d %d, excluding one %d %d %d for %d connections", round, len(a), len(b), len(c), len(d), len(a2), len(b2), len(c2), n)
						}
						for _, p := range ps {
							if !slices.Contains(b, p.conn) || !slices.Contains(c, p.conn) || !slices.ContainsFunc(a, func(k *snapws.ManagedConn[int]) bool { return k != nil && k.Conn == p.conn }) {
								mc.Failf("round %d: %s is missing from a list", round, p.fc.name)
							}
						}
						for i := range n + 1 {
							if !slices.Contains(d, i) {
								mc.Failf("round %d: room %d is missing from the list %v", round, i, d)
							}
						}
						m.BroadcastString(bg, []byte("x"), ex...)
						rm.Get(0).BroadcastString(bg, []byte("y"), exc...)
						if ex[0] != n-1 || ex[1] != 99 || exc[0] != ps[n-1].conn {
							mc.Failf("the list of exclusions was changed to %v %v", ex, exc)
						}
						for _, l := range [][]*snapws.Conn{b, c, b2, c2} {
							l = l[:cap(l)]
							for i := range l {
								l[i] = nil
							}
						}
						for _, l := range [][]*snapws.ManagedConn[int]{a, a2} {
							l = l[:cap(l)]
							for i := range l {
								l[i] = nil
							}
						}
						for i := range d {
							d[i] = -1
						}
						mc.Quiesce()
					}
					for i, p := range ps {
						want := 4
						if i == n-1 {
							want = 0
						}
						if got := len(p.wire().msgs); got != want {
							mc.Failf("client%d receives %d of %d broadcasts", i, got, want)
						}
						if m.Get(i) == nil || m.Get(i).Conn != p.conn {
							mc.Failf("client%d is not registered any more", i)
						}
					}
				}})
			}
			// lists that are kept while members come and go
			for n := 1; n <= 4; n++ {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("kept lists of %d", n), Bound: 0, Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					m := snapws.NewManager[int](u)
					rm := snapws.NewRoomManager[int](u)
					var ps []*peer
					join := func(key int) {
						p := newPeer(fmt.Sprintf("client%d", len(ps)))
						k, err := m.Connect(key, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						rm.Add(0).Add(p.conn)
						ps = append(ps, p)
					}
					for i := range n {
						join(i)
						rm.Add(i)
					}
					type kept struct {
						what      string
						got, copy func() string
					}
					var ks []kept
					keep := func() {
						a, b, c, d := m.GetAllConns(), m.GetAllConnsAsConn(), rm.Get(0).GetAllConns(), rm.GetRoomKeys()
						sa, sb, sc, sd := fmt.Sprint(a), fmt.Sprint(b), fmt.Sprint(c), fmt.Sprint(d)
						ks = append(ks, kept{"GetAllConns", func() string { return fmt.Sprint(a) }, func() string { return sa }},
							kept{"GetAllConnsAsConn", func() string { return fmt.Sprint(b) }, func() string { return sb }},
							kept{"the room's GetAllConns", func() string { return fmt.Sprint(c) }, func() string { return sc }},
							kept{"GetRoomKeys", func() string { return fmt.Sprint(d) }, func() string { return sd }})
					}
					keep()
					for step := range 2 {
						what := ""
						i := mc.Choose(n)
						switch mc.Choose(5) {
						case 0:
							what = "a new connection"
							join(100 + step)
							rm.Add(100 + step)
						case 1:
							what = "a replaced connection"
							join(i)
						case 2:
							what = "a closed connection"
							ps[i].conn.Close()
						case 3:
							what = "a room's member removed"
							rm.Get(0).Remove(ps[i].conn)
						case 4:
							what = "a closed room"
							rm.Add(i).Close()
							rm.Add(0)
						}
						mc.Quiesce()
						keep()
						for _, k := range ks {
							if k.got() != k.copy() {
								mc.Failf("%s changed the list %s has returned from %s to %s", what, k.what, k.copy(), k.got())
							}
						}
					}
				}})
			}
			// ---- requests, options ----
			out = append(out, mc.Scenario{Name: "requests and options", Body: func() {
				subs := []string{"b", "a"}
				o := &snapws.Options{SubProtocols: subs}
				u := snapws.NewUpgrader(quiet(o))
				for _, mut := range []func(h map[string][]string){
					func(h map[string][]string) {},
					func(h map[string][]string) { h["Sec-Websocket-Protocol"] = []string{" a , b", "c"} },
					func(h map[string][]string) { h["Upgrade"] = []string{"H2C", " WebSocket "} },
					func(h map[string][]string) { h["Connection"] = []string{"Keep-Alive, UPGRADE"} },
					func(h map[string][]string) { h["Sec-Websocket-Key"] = []string{"nope"} },
				} {
					r := request()
					mut(r.Header)
					was := map[string][]string{}
					for k, v := range r.Header {
						was[k] = slices.Clone(v)
					}
					p := newPeer("client")
					if c, err := u.Upgrade(response(p.fc, 4096, 4096, nil), r); err == nil {
						p.conn = c
						p.shaken()
						p.works("request")
						c.Close()
					}
					if !maps.EqualFunc(was, r.Header, slices.Equal[[]string]) {
						mc.Failf("the request's headers were changed from %v to %v", was, r.Header)
					}
				}
				if subs[0] != "b" || subs[1] != "a" || len(o.SubProtocols) != 2 {
					mc.Failf("the list of subprotocols was changed to %v", subs)
				}
			}})
			return out
		},
	})
}
