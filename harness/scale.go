package harness

import (
	"bytes"
	"context"
	"fmt"
	"time"

	"vh/mc"
	"vh/snapws"
)

// Scenarios of a property that go on for long or have many participants: what
// only appears after a counter has wrapped or a table has grown. They explore
// the inputs only (bound 0), unless the budget allows more.
var scale = map[string]func(th bool) []mc.Scenario{
	"C01": func(th bool) []mc.Scenario {
		long := func(name string, f func()) mc.Scenario {
			return mc.Scenario{Name: name, Cfg: mc.Config{MaxSteps: 8000000}, Body: f}
		}
		reads := []rapi{{"message", 0}, {"typed", 0}, {"next", 3}, {"json", 0}}
		return []mc.Scenario{
			long("many messages", func() {
				n := pick([]int{300, 66000})
				a := mc.Choose(len(reads) + 1)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
				p := newPeer("c").upgrade(u)
				for i := 0; i < n; i++ {
					m := cmsg{opText, []byte(fmt.Sprint(i))}
					f := frameM(true, m.op, m.data, [4]byte{byte(i), byte(i >> 8), 3, byte(i * 7)})
					if i%3 == 0 {
						f = cat(frameM(false, m.op, nil, keys[i%4]), pong(nil), frameM(true, opCont, m.data, keys[1]))
					}
					p.fc.feed(f)
					how := reads[i%len(reads)]
					if a < len(reads) {
						how = reads[a]
					}
					p.expectMsg(how, m, fmt.Sprintf("message %d", i))
				}
				p.expectOpen("after many messages")
			}),
			long("many fragments", func() {
				n := pick([]int{300, 66000})
				a := pick([]rapi{{"message", 0}, {"typed", 0}, {"next", 3}, {"next", 512}})
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
				p := newPeer("c").upgrade(u)
				var d, all []byte
				for i := 0; i < n; i++ {
					c := tpat(i, i%4)
					d = append(d, c...)
					op := byte(opCont)
					if i == 0 {
						op = opText
					}
					all = append(all, frameM(i == n-1, op, c, keys[i%4])...)
					if i%5 == 0 {
						all = append(all, pong(nil)...)
					}
				}
				p.fc.feed(chunks(cat(all, bin([]byte("next"))), pick([]int{0, 997}))...)
				p.expectMsg(a, cmsg{opText, d}, fmt.Sprintf("message of %d fragments", n))
				p.expectMsg(a, cmsg{opBin, []byte("next")}, "the next one")
			}),
			long("much data", func() {
				n := pick([]int{1 << 20, 1<<24 - 1, 1 << 24, 20 << 20})
				u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: -1, ReadBufferSize: pick([]int{0, 70000})}))
				p := newPeer("c").upgrade(u)
				d := pat(5, n)
				cut := pick([]int{n, n / 2, 65536, 1})
				fs := frame(cut == n, opBin, d[:cut])
				if cut < n {
					fs = append(fs, frameM(true, opCont, d[cut:], keys[1])...)
				}
				p.fc.feed(chunks(fs, pick([]int{0, 65536}))...)
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, d}, fmt.Sprintf("message of %d bytes", n))
				j := cmsg{opText, cat([]byte(`{"a":"`), bytes.Repeat([]byte("x"), n), []byte(`"}`))}
				p.fc.feed(text("next"), frame(true, j.op, j.data), text("last"))
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("next")}, "the next one")
				p.expectMsg(rapi{"json", 0}, j, fmt.Sprintf("JSON message of %d bytes", n))
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("last")}, "the last one")
			}),
		}
	},
	"C05": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many pings", Cfg: mc.Config{MaxSteps: 8000000}, Body: func() {
			n := pick([]int{300, 66000})
			same := mc.Choose(2) == 1
			in := mc.Choose(2) == 1
			u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
			p := newPeer("c").upgrade(u)
			pl := func(i int) []byte {
				if same {
					return pat(9, 4)
				}
				return pat(i, i%126)
			}
			if in {
				p.fc.feed(frame(false, opText, []byte("a")))
			}
			for i := 0; i < n; i++ {
				p.fc.feed(ping(pl(i)))
			}
			if in {
				p.fc.feed(frame(true, opCont, []byte("b")))
			} else {
				p.fc.feed(text("ab"))
			}
			p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("ab")}, "message around many pings")
			w := p.expectOpen("many pings")
			if len(w.pongs) != n {
				mc.Failf("%d pongs for %d pings", len(w.pongs), n)
			}
			for i, g := range w.pongs {
				if !bytes.Equal(g, pl(i)) {
					mc.Failf("pong %d is %q, ping was %q", i, clip(g), clip(pl(i)))
				}
			}
		}}}
	},
	"C12": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "intervals of every size", Cfg: mc.Config{Horizon: 1 << 60}, Body: func() {
			ms := int64(1000000)
			s := pick([][2]int64{{ms, 3 * ms / 2}, {50 * ms, 60 * ms}, {sec, 5 * sec}, {59 * sec, 61 * sec}, {3600 * sec, 3601 * sec}, {5 * 3600 * sec, 6 * 3600 * sec}, {24 * 3600 * sec, 100 * 3600 * sec}})
			P, R := s[0], s[1]
			l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
			l.read()
			var at []int64
			l.p.fc.onWrite = func(b []byte) {
				if bytes.Equal(b, []byte{0x89, 0}) {
					at = append(at, mc.NowNs())
					if len(at) < 4 {
						l.p.fc.feed(pong(nil))
					}
				}
			}
			mc.Join(l.rd)
			mc.Quiesce()
			if want := 3*P + R; l.readEnd != want || !isFatal(l.readErr) {
				mc.Failf("interval %v timeout %v: client silent since %v: read returned %v at %v", time.Duration(P), time.Duration(R), time.Duration(3*P), l.readErr, time.Duration(l.readEnd))
			}
			if want := min(4, 3+int((R-1)/P)); len(at) != want {
				mc.Failf("interval %v timeout %v: pings at %v", time.Duration(P), time.Duration(R), at)
			}
			for i, t := range at {
				if t != int64(i+1)*P {
					mc.Failf("interval %v: ping %d at %v", time.Duration(P), i+1, time.Duration(t))
				}
			}
		}}, {Name: "pongs that answer nothing", Body: func() {
			// one outstanding ping at a time: only its own pong answers it
			P, R := 10*sec, 35*sec
			l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
			l.read()
			wrong := pick([]int{1, 2, 4, 124, 125})
			delay := pick([]int64{0, sec, 9 * sec, 12 * sec})
			mc.Spawn("client", func() {
				l.p.fc.feed(pong(pat(1, wrong)), pong(nil)) // before any ping
				l.waitPing(1)
				l.p.fc.feed(pong(pat(2, wrong)))
				mc.SleepNs(delay)
				l.p.fc.feed(pong(pat(3, wrong)), text("m"))
			})
			mc.SleepNs(3*P + P/2)
			mc.Quiesce()
			l.alive("pongs that answer nothing")
			if n := l.pingsSeen(); n != 1 {
				mc.Failf("%d pings although none was answered", n)
			}
			l.p.fc.feed(pong(nil), text("m"))
			mc.SleepNs(P)
			mc.Quiesce()
			l.alive("pongs that answer nothing")
			if n := l.pingsSeen(); n != 2 || len(l.got) != 2 {
				mc.Failf("%d pings after the answer to the first one, %d messages", n, len(l.got))
			}
		}}, {Name: "many intervals", Cfg: mc.Config{MaxSteps: 4000000, Horizon: 1 << 60}, Body: func() {
			n := pick([]int{300, 3000})
			P, R := 10*sec, 14*sec
			l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
			l.read()
			seen := 0
			l.p.fc.onWrite = func(b []byte) {
				if bytes.Equal(b, []byte{0x89, 0}) {
					if seen++; seen <= n {
						l.p.fc.feed(pong(nil))
					}
				}
			}
			mc.SleepNs(int64(n)*P + P/2)
			mc.Quiesce()
			l.alive("many intervals")
			if seen != n {
				mc.Failf("%d pings in %d intervals", seen, n)
			}
			mc.Join(l.rd)
			if want := int64(n)*P + R; l.readEnd != want || !isFatal(l.readErr) {
				mc.Failf("client silent since %d: read returned %v at %d", int64(n)*P, l.readErr, l.readEnd)
			}
		}}}
	},
	"C08": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many messages", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
			n := pick([]int{300, 5000})
			wb := pick([]int{24, 512})
			u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: wb}))
			p := newPeer("c").upgrade(u)
			var hs []*mc.Handle
			for g := 0; g < 3; g++ {
				hs = append(hs, mc.Spawn("sender", func() {
					for i := 0; i < n; i++ {
						mustOK("SendBytes", p.conn.SendBytes(bg, []byte(fmt.Sprintf("%d:%d:%s", g, i, tpat(i, i%40)))))
					}
				}))
			}
			mc.Join(hs...)
			w := p.expectOpen("many messages")
			next := [3]int{}
			for _, m := range w.msgs {
				var g, i int
				fmt.Sscanf(string(m.data), "%d:%d:", &g, &i)
				if want := fmt.Sprintf("%d:%d:%s", g, next[g], tpat(next[g], next[g]%40)); string(m.data) != want {
					mc.Failf("message %q of sender %d, want %q", clip(m.data), g, want)
				}
				next[g]++
			}
			if next != [3]int{n, n, n} {
				mc.Failf("%v messages of %d each", next, n)
			}
		}}}
	},
	"C15": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many keys", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
			n, step := 260, 3
			if mc.Choose(2) == 0 {
				n, step = 40, pick([]int{1, 2, 7})
			}
			regs, unregs := map[int]int{}, map[int]int{}
			m := snapws.NewManager[int](snapws.NewUpgrader(quiet(nil)))
			m.OnRegister = func(k *snapws.ManagedConn[int]) { regs[k.Key]++ }
			m.OnUnregister = func(k *snapws.ManagedConn[int]) { unregs[k.Key]++ }
			var cs []*snapws.ManagedConn[int]
			var ps []*peer
			for i := 0; i < n; i++ {
				p := newPeer(fmt.Sprintf("client%d", i))
				k, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				p.conn = k.Conn
				p.shaken()
				cs, ps = append(cs, k), append(ps, p)
			}
			left := map[int]bool{}
			check := func(why string) {
				mc.Quiesce()
				seen := map[*snapws.Conn]int{}
				for _, k := range m.GetAllConns() {
					seen[k.Conn]++
				}
				for _, c := range m.GetAllConnsAsConn() {
					seen[c] += 10
				}
				for i, k := range cs {
					want, e := 11, k
					if left[i] {
						want, e = 0, nil
					}
					if seen[k.Conn] != want || m.Get(i) != e {
						mc.Failf("%s: connection %d of %d (gone %v) is listed %d times, Get finds %v", why, i, n, left[i], seen[k.Conn], m.Get(i) != nil)
					}
					if regs[i] != 1 || unregs[i] != b2i(left[i]) {
						mc.Failf("%s: connection %d: %d register hooks, %d unregister hooks", why, i, regs[i], unregs[i])
					}
				}
				if l := len(m.GetAllConns()); l != n-len(left) {
					mc.Failf("%s: %d connections listed, want %d", why, l, n-len(left))
				}
			}
			check("all connected")
			for i := 0; i < n; i += step {
				cs[i].Close()
				left[i] = true
			}
			check("some closed")
			for i := range cs {
				if !left[i] {
					ps[i].works("kept connection")
				}
			}
			for i := n - 1; i >= 0; i-- {
				if !left[i] {
					ps[i].fc.feed(closeFrame(1000, ""))
					cs[i].ReadMessage()
					left[i] = true
				}
			}
			check("all closed")
		}}}
	},
	"C16": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many members and rooms", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
			n, rooms := 260, 2
			if mc.Choose(2) == 0 {
				n, rooms = 40, pick([]int{2, 40})
			}
			joins, leaves := map[[2]int]int{}, map[[2]int]int{}
			rm := snapws.NewRoomManager[int](snapws.NewUpgrader(quiet(nil)))
			id := map[*snapws.Conn]int{}
			rm.DefaultOnJoin = func(r *snapws.Room[int], c *snapws.Conn, _ ...any) { joins[[2]int{r.Key, id[c]}]++ }
			rm.DefaultOnLeave = func(r *snapws.Room[int], c *snapws.Conn, _ ...any) { leaves[[2]int{r.Key, id[c]}]++ }
			u := rm.Upgrader
			var ps []*peer
			member := map[[2]int]bool{}
			var ro []*snapws.Room[int]
			for k := 0; k < rooms; k++ {
				ro = append(ro, rm.Add(k))
			}
			for i := 0; i < n; i++ {
				p := newPeer(fmt.Sprintf("client%d", i)).upgrade(u)
				ps = append(ps, p)
				id[p.conn] = i
				for k := range ro {
					if (i+k)%3 != 0 && (rooms == 2 || (i*k)%7 == 1 || i < 3) {
						ro[k].Add(p.conn)
						member[[2]int{k, i}] = true
					}
				}
			}
			gone := map[int]bool{} // rooms
			check := func(why string) {
				mc.Quiesce()
				if l := rm.GetRoomKeys(); len(l) != rooms-len(gone) {
					mc.Failf("%s: %d room keys, want %d", why, len(l), rooms-len(gone))
				}
				for k, r := range ro {
					if (rm.Get(k) == r) == gone[k] {
						mc.Failf("%s: room %d found %v", why, k, !gone[k])
					}
					seen := map[int]int{}
					for _, c := range r.GetAllConns() {
						seen[id[c]]++
					}
					for i := range ps {
						e := [2]int{k, i}
						if seen[i] != b2i(member[e]) || joins[e]-leaves[e] != seen[i] || joins[e] > 1 {
							mc.Failf("%s: connection %d is listed %d times in room %d, member %v, joined %d, left %d", why, i, seen[i], k, member[e], joins[e], leaves[e])
						}
					}
				}
			}
			drop := func(ok func(k, i int) bool) {
				for e := range member {
					if ok(e[0], e[1]) {
						delete(member, e)
					}
				}
			}
			check("joined")
			for i := 0; i < n; i += 5 {
				ps[i].conn.Close()
			}
			drop(func(k, i int) bool { return i%5 == 0 })
			check("every fifth closed")
			for i := 1; i < n; i += 5 {
				ro[1].Remove(ps[i].conn)
			}
			drop(func(k, i int) bool { return k == 1 && i%5 == 1 })
			check("removed from one")
			ro[0].Close()
			gone[0] = true
			drop(func(k, i int) bool { return k == 0 })
			check("one room closed")
			ro[1].RemoveAll()
			drop(func(k, i int) bool { return k == 1 })
			check("one room emptied")
			for i := n - 1; i >= 0; i-- {
				ps[i].conn.Close()
			}
			drop(func(k, i int) bool { return true })
			check("all closed")
		}}}
	},
	"C17": func(th bool) []mc.Scenario {
		var out []mc.Scenario
		for _, kind := range []string{"manager", "rooms"} {
			out = append(out, mc.Scenario{Name: kind + " with many", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
				n := pick([]int{25, 64, 101, 260})
				rooms := 1
				if kind == "rooms" {
					rooms = pick([]int{1, 3, 70})
				}
				f := newFleet(kind, snapws.Options{}, false)
				for i := 0; i < n; i++ {
					f.connect(i % rooms)
				}
				f.shutdown()
				f.settled(n)
			}})
		}
		return out
	},
	"C18": func(th bool) []mc.Scenario {
		var out []mc.Scenario
		for _, kind := range []string{"manager", "room"} {
			out = append(out, mc.Scenario{Name: kind + " many members", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
				n, how, first := 260, "string", 1
				if mc.Choose(2) == 0 {
					n, how, first = 33, pick([]string{"string", "bytes", "json"}), 0
				}
				h := newHall(kind, n, snapws.Options{})
				var want [][]string
				ops := []byte{}
				for i := range h.ps {
					want = append(want, nil)
					_ = i
				}
				for b := first; b < first+1 || first == 0 && b < 3; b++ {
					var ex []int
					if b > 0 {
						ex = []int{0, n / 2, n - 1}
					}
					if b > 1 {
						for i := 0; i < n; i += 2 {
							ex = append(ex, i)
						}
					}
					out := map[int]bool{}
					for _, i := range ex {
						out[i] = true
					}
					op, d, k, err := h.send(how, bg, fmt.Sprintf("broadcast %d", b), ex...)
					mustOK("broadcast", err)
					if k != n-len(out) {
						mc.Failf("broadcast %d to %d of %d members returns %d", b, n-len(out), n, k)
					}
					for i := range h.ps {
						if !out[i] {
							want[i] = append(want[i], string(op)+d)
						}
					}
					ops = append(ops, op)
					mc.Quiesce()
				}
				for i, p := range h.ps {
					w := p.expectOpen("broadcasts")
					var got []string
					for _, m := range w.msgs {
						got = append(got, string(m.op)+string(m.data))
					}
					if fmt.Sprint(got) != fmt.Sprint(want[i]) {
						mc.Failf("member %d of %d gets %q, want %q", i, n, got, want[i])
					}
				}
			}})
			// queues that are full, among many members
			out = append(out, mc.Scenario{Name: kind + " many full queues", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
				n := pick([]int{20, 70})
				mode := pick([]snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose})
				h := newHall(kind, n, snapws.Options{BroadcastChannelsSize: 1, BroadcastBackpressure: mode})
				var ws []*snapws.ConnWriter
				slow := func(i int) bool { return i%3 == 1 }
				for i, p := range h.ps {
					if slow(i) {
						w, err := p.conn.NextWriter(bg, opBin)
						mustOK("NextWriter", err)
						ws = append(ws, w)
					}
				}
				accepted := 0
				var want []string
				for b := range 4 {
					op, d, k, err := h.send("string", bg, fmt.Sprint("broadcast ", b))
					mustOK("broadcast", err)
					want = append(want, fmt.Sprintf("%d|%s", op, d))
					mc.Quiesce()
					// the first waits for the writer, the second in the queue.
					e := n
					if b >= 2 {
						e = n - len(ws)
					}
					if k != e {
						mc.Failf("broadcast %d to %d members, %d of them slow with a queue of 1, returns %d, want %d", b, n, len(ws), k, e)
					}
					accepted += k
				}
				for _, w := range ws {
					w.Write([]byte("own"))
					w.Close()
				}
				mc.Quiesce()
				for i, p := range h.ps {
					if slow(i) && mode == snapws.BackpressureClose {
						p.expectClosed("full queue", 1008)
						continue
					}
					p.expectOpen("broadcasts")
					e := want
					if slow(i) {
						e = append([]string{"2|own"}, want[:2]...)
					}
					if g := h.got(i); fmt.Sprint(g) != fmt.Sprint(e) {
						mc.Failf("member %d of %d gets %q, want %q", i, n, g, e)
					}
				}
			}})
			out = append(out, mc.Scenario{Name: kind + " many broadcasts", Cfg: mc.Config{MaxSteps: 8000000}, Body: func() {
				n, q := 66000, 1000
				if kind == "room" || mc.Choose(2) == 0 {
					n, q = 300, pick([]int{1, 8, 1000})
				}
				o := snapws.Options{BroadcastChannelsSize: q}
				if q < 1000 {
					o.BroadcastBackpressure = snapws.BackpressureWait
				}
				h := newHall(kind, 2, o)
				var want []string
				for b := 0; b < n; b++ {
					op, d, k, err := h.send("string", bg, fmt.Sprint(b))
					mustOK("broadcast", err)
					if k != 2 {
						mc.Failf("broadcast %d to 2 members returns %d", b, k)
					}
					want = append(want, string(op)+d)
					if q == 1000 && b%q == q-1 {
						mc.Quiesce()
					}
				}
				mc.Quiesce()
				for i, p := range h.ps {
					w := p.expectOpen("broadcasts")
					if len(w.msgs) != n {
						mc.Failf("member %d gets %d of %d broadcasts", i, len(w.msgs), n)
					}
					for b, m := range w.msgs {
						if g := string(m.op) + string(m.data); g != want[b] {
							mc.Failf("member %d: message %d is %q, want %q", i, b, g, want[b])
						}
					}
				}
			}})
		}
		return out
	},
	"C20": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "another format", Body: func() {
			// batching enabled three times in different ways: every connection keeps
			// the format, prefix, suffix, sender and interval it was opened with
			hows := []string{"json", "length", "custom"}
			var gens []*batcher
			var every []int64
			u := snapws.NewUpgrader(quiet(&snapws.Options{MaxBatchSize: 40}))
			wait := int64(0)
			for g := 0; g < 3; g++ {
				b := &batcher{how: pick(hows), u: u}
				if fix := mc.Choose(4); b.how != "custom" {
					if fix&1 != 0 {
						b.pre = []byte(fmt.Sprintf(`"head%d"`, g))
					}
					if fix&2 != 0 {
						b.suf = []byte(fmt.Sprintf(`"tail%d"`, g))
					}
				} else if fix > 0 {
					return
				}
				iv := []time.Duration{70, 50, 90}[g] * time.Millisecond
				switch b.how {
				case "json":
					u.EnableJSONBatching(bctx, iv)
				case "length":
					u.EnablePrefixBatching(bctx, iv)
				case "custom":
					u.EnableBatching(bctx, iv, func(_ context.Context, c *snapws.Conn, m [][]byte) error {
						b.calls = append(b.calls, sendCall{c, strs(m)})
						return nil
					})
				}
				if b.pre != nil {
					u.Flusher.BatchPrefixFunc = func(*snapws.Conn, [][]byte) []byte { return b.pre }
				}
				if b.suf != nil {
					u.Flusher.BatchSuffixFunc = func(*snapws.Conn, [][]byte) []byte { return b.suf }
				}
				for _, o := range gens {
					if err := o.ps[0].conn.Batch([]byte("9")); err != snapws.ErrFlusherClosed {
						mc.Failf("Batch on a connection of the previous flusher returns %v", err)
					}
				}
				gens = append(gens, b)
				every = append(every, int64(iv))
				start := mc.NowNs()
				p := b.open()
				mustOK("Batch", p.conn.Batch([]byte(`"a"`)))
				mustOK("Batch", p.conn.Batch([]byte(`{"b":2}`)))
				if mc.Choose(2) == 0 {
					mc.SleepNs(every[g] - 1)
					mc.Quiesce()
					if k := b.decode(0); len(k) != 0 {
						mc.Failf("generation %d: %q sent before the interval of %v", g, k, iv)
					}
					mc.SleepNs(1)
					mc.Quiesce()
					if k := b.decode(0); len(k) != 1 {
						mc.Failf("generation %d: %q sent after the interval of %v, from %d to %d", g, k, iv, start, mc.NowNs())
					}
				}
				wait = max(wait, every[g])
			}
			mc.SleepNs(2 * wait)
			mc.Quiesce()
			for g, b := range gens {
				if k := b.decode(0); fmt.Sprint(k) != `[["a" {"b":2}]]` {
					mc.Failf("generation %d (%s, prefix %q, suffix %q): the client gets batches %q", g, b.how, b.pre, b.suf, k)
				}
				b.ps[0].works("another format")
			}
		}}}
	},
	"C21": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many refused", Cfg: mc.Config{MaxSteps: 8000000, Horizon: 1 << 60}, Body: func() {
			n := pick([]int{300, 66000})
			hook := mc.Choose(2) == 1
			u := snapws.NewUpgrader(quiet(nil))
			u.Limiter = snapws.NewRateLimiter(1, 2)
			hits := 0
			if hook {
				u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { hits++; return nil }
			}
			p := newPeer("c").upgrade(u)
			for i := 0; i < n; i++ {
				d := fmt.Sprint("message ", i)
				p.fc.feed(frame(false, opText, []byte(d[:3])), ping(nil), frame(true, opCont, []byte(d[3:])))
				_, got, err := p.conn.ReadMessage()
				if i < 2 {
					mustOK("ReadMessage", err)
					if string(got) != d {
						mc.Failf("message %d is %q", i, clip(got))
					}
				} else if err == nil || isFatal(err) {
					mc.Failf("message %d beyond the rate: %q, %v", i, clip(got), err)
				}
			}
			if hook && hits != n-2 {
				mc.Failf("the hook ran %d times for %d refused messages", hits, n-2)
			}
			mc.SleepNs(sec)
			p.fc.feed(text("after"), text("refused"))
			p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("after")}, "after a second")
			if _, _, err := p.conn.ReadMessage(); err == nil || isFatal(err) {
				mc.Failf("a second message within the second: %v", err)
			}
			p.expectOpen("many refused")
		}}}
	},
}
