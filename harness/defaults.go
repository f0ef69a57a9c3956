package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"reflect"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// Scenarios about what holds without being configured (documented defaults, nil
// arguments) and about unusual but legal uses.
var legal = map[string]func(th bool) []mc.Scenario{
	"C01": func(th bool) []mc.Scenario {
		type inner struct {
			A int     `json:"a"`
			B *string `json:"b"`
		}
		docs := []string{
			`{"a":1,"b":"x","c":[1,2.5,{"d":null}]}`, `{"extra":{"deep":[true]},"a":-7}`, `{}`, `[1,"two",3e2,false]`, `"just text"`,
			`12345678901234567890`, `9007199254740993`, `-0.0`, `true`, `null`, `{"A":5,"a":6,"a":7}`, ` {"a" : 1 } `, `{"b":"\u00e9\ud83d\ude00<&>"}`, `[[[[]]]]`,
			`{"a":"no number"}`, `{"a":1.5}`,
		}
		targets := []func() any{
			func() any { return new(any) },
			func() any { return new(inner) },
			func() any { b := "old"; return &inner{A: 99, B: &b} },
			func() any { return new(map[string]any) },
			func() any { return &map[string]json.RawMessage{"kept": json.RawMessage("1")} },
			func() any { return new([]any) },
			func() any { return &[]int{4, 5} },
			func() any { return new(string) },
			func() any { return new(float64) },
			func() any { return new(uint64) },
			func() any { return new(json.RawMessage) },
		}
		return []mc.Scenario{{Name: "JSON targets", Body: func() {
			d := pick(docs)
			t := pick(targets)
			u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
			p := newPeer("c").upgrade(u)
			k := mc.Choose(3) * len(d) / 3
			p.fc.feed(frame(false, opText, []byte(d[:k])), ping(nil), frameM(true, opCont, []byte(d[k:]), keys[1]))
			want, got := t(), t()
			wantErr := json.Unmarshal([]byte(d), want)
			err := p.conn.ReadJSON(got)
			if (err == nil) != (wantErr == nil) || err != nil && isFatal(err) {
				mc.Failf("ReadJSON of %s into a %T: error %v, want %v", d, got, err, wantErr)
			}
			if !reflect.DeepEqual(got, want) {
				mc.Failf("ReadJSON of %s into a %T gives %v, want %v", d, got, reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem())
			}
			p.works("after JSON")
		}}, {Name: "empty reads", Body: func() {
			// reading into an empty buffer, at every point of a message, reads nothing
			u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
			p := newPeer("c").upgrade(u)
			d := tpat(3, 9)
			p.fc.feed(frame(false, opText, d[:4]), frame(false, opCont, nil), ping(nil), frameM(true, opCont, d[4:], keys[2]))
			r, op, err := p.conn.NextReader()
			if err != nil || op != opText {
				mc.Failf("NextReader: %d, %v", op, err)
			}
			var got []byte
			for range 40 {
				if mc.Choose(2) == 1 {
					// at the end of the message it may also report the end
					n, err := r.Read(pick([][]byte{nil, {}}))
					if n != 0 || err != nil && (err != io.EOF || len(got) < len(d)) {
						mc.Failf("reading into an empty buffer after %d bytes: %d, %v", len(got), n, err)
					}
				}
				b := make([]byte, 4)
				n, err := r.Read(b)
				got = append(got, b[:n]...)
				if err == io.EOF {
					break
				}
				mustOK("Read", err)
			}
			if !bytes.Equal(got, d) {
				mc.Failf("with empty reads in between %q is read as %q", d, got)
			}
			p.works("empty reads")
		}}}
	},
	"C07": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "message types", Body: func() {
			u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: pick([]int{0, 24})}))
			p := newPeer("c").upgrade(u)
			op := uint8(mc.Choose(256))
			d := tpat(1, pick([]int{0, 3, 30}))
			var err error
			if mc.Choose(2) == 0 {
				err = p.conn.SendMessage(bg, op, d)
			} else {
				var w *snapws.ConnWriter
				if w, err = p.conn.NextWriter(bg, op); err == nil {
					_, err = w.Write(d)
					mustOK("Write", err)
					mustOK("Flush", w.Flush())
					err = w.Close()
				}
			}
			w := p.expectOpen("message types")
			if op == opText || op == opBin {
				if err != nil || len(w.msgs) != 1 || w.msgs[0].op != op || !bytes.Equal(w.msgs[0].data, d) {
					mc.Failf("a message of type %d: %v, %d messages on the wire", op, err, len(w.msgs))
				}
			} else if err == nil || w.frames > 0 || isFatal(err) {
				mc.Failf("a message of the invalid type %d: error %v, %d frames on the wire", op, err, w.frames)
			}
			p.works("message types")
		}}, {Name: "JSON values", Body: func() {
			u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: pick([]int{0, 24})}))
			p := newPeer("c").upgrade(u)
			v := pick(jsonValues)
			want, wantErr := json.Marshal(v)
			err := p.conn.SendJSON(bg, v)
			w := p.expectOpen("JSON values")
			if wantErr != nil {
				if err == nil || isFatal(err) || w.frames > 0 {
					mc.Failf("SendJSON of %T: error %v, %d frames", v, err, w.frames)
				}
			} else {
				if err != nil || len(w.msgs) != 1 || w.msgs[0].op != opText {
					mc.Failf("SendJSON of %s: error %v, %d messages", want, err, len(w.msgs))
				}
				sameJSON("SendJSON", w.msgs[0].data, want)
			}
			p.works("JSON values")
		}}}
	},
	"C18": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "JSON values", Body: func() {
			u := snapws.NewUpgrader(quiet(nil))
			ps := []*peer{newPeer("a"), newPeer("b")}
			m := snapws.NewManager[int](u)
			rm := snapws.NewRoomManager[string](u)
			for i, p := range ps {
				c, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				p.conn = c.Conn
				p.shaken()
				rm.Add("r").Add(c.Conn)
			}
			v := pick(jsonValues)
			want, wantErr := json.Marshal(v)
			var n int
			var err error
			if mc.Choose(2) == 0 {
				n, err = m.BroadcastJSON(bg, v)
			} else {
				n, err = rm.Get("r").BroadcastJSON(bg, v)
			}
			mc.Quiesce()
			for _, p := range ps {
				w := p.expectOpen("JSON values")
				if wantErr != nil {
					if err == nil || n != 0 || w.frames > 0 {
						mc.Failf("BroadcastJSON of %T: %d, error %v, %d frames", v, n, err, w.frames)
					}
					continue
				}
				if err != nil || n != 2 || len(w.msgs) != 1 || w.msgs[0].op != opText {
					mc.Failf("BroadcastJSON of %s: %d, error %v, %d messages", want, n, err, len(w.msgs))
				}
				sameJSON("BroadcastJSON", w.msgs[0].data, want)
			}
			ps[0].works("JSON values")
		}}, {Name: "connections of two upgraders", Bound: 1, Body: func() {
			// a room may hold connections of another upgrader than its manager's
			us := []*snapws.Upgrader{snapws.NewUpgrader(quiet(nil)), snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: 24}))}
			r := snapws.NewRoomManager[string](us[mc.Choose(2)]).Add("r")
			var ps []*peer
			for i := range 4 {
				p := newPeer(fmt.Sprint("c", i)).upgrade(us[i%2])
				r.Add(p.conn)
				ps = append(ps, p)
			}
			x := mc.Choose(5)
			var ex []*snapws.Conn
			want := 4
			if x < 4 {
				ex, want = append(ex, ps[x].conn), 3
			}
			d := tpat(1, 40)
			n, err := r.BroadcastString(bg, d, ex...)
			mc.Quiesce()
			if n != want || err != nil {
				mc.Failf("a broadcast to connections of two upgraders: %d, %v", n, err)
			}
			for i, p := range ps {
				w := p.expectOpen("two upgraders")
				if i == x && w.frames > 0 || i != x && (len(w.msgs) != 1 || !bytes.Equal(w.msgs[0].data, d)) {
					mc.Failf("%d frames arrive at connection %d, excluded is %d", w.frames, i, x)
				}
			}
		}}}
	},
	"C21": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "many connections", Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			u := snapws.NewUpgrader(quiet(nil))
			burst := 1 + mc.Choose(2)
			u.Limiter = snapws.NewRateLimiter(1, burst)
			n := pick([]int{5, 40})
			var ps []*peer
			for i := range n {
				ps = append(ps, newPeer(fmt.Sprint("c", i)).upgrade(u))
				if i%6 == 5 {
					ps[i-3].conn.Close()
				}
			}
			open := func(i int) bool { return i%6 != 2 || i+3 >= n }
			round := func(why string, k int) {
				for range k {
					for i, p := range ps {
						if !open(i) {
							continue
						}
						p.fc.feed(text(why))
						if _, d, err := p.conn.ReadMessage(); err != nil || string(d) != why {
							mc.Failf("%s: connection %d within its rate reads %q, %v", why, i, clip(d), err)
						}
					}
				}
				for i, p := range ps {
					if !open(i) {
						continue
					}
					p.fc.feed(text("refused"))
					if _, d, err := p.conn.ReadMessage(); err == nil || isFatal(err) {
						mc.Failf("%s: connection %d beyond its rate reads %q, %v", why, i, clip(d), err)
					}
				}
			}
			round("burst", burst)
			mc.SleepNs(sec)
			round("one token", 1)
			mc.SleepNs(10 * sec)
			round("full again", burst)
		}}}
	},
	"C03": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "no maximum", Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: -1, ReadBufferSize: pick([]int{0, 60000})}))
			p := newPeer("c").upgrade(u)
			n := pick([]int{1<<20 + 1, 5 << 20, 17<<20 + 3})
			k := pick([]int{1, 3})
			d := pat(3, n)
			for i := range k {
				op := byte(opCont)
				if i == 0 {
					op = opBin
				}
				p.fc.feed(frame(i == k-1, op, d[i*n/k:(i+1)*n/k]))
			}
			p.expectMsg(rapi{"message", 0}, cmsg{opBin, d}, "no maximum")
			p.works("no maximum")
		}}, {Name: "default maximum", Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			var o *snapws.Options
			if mc.Choose(2) == 1 {
				o = &snapws.Options{}
			}
			u := snapws.NewUpgrader(o)
			p := newPeer("c").upgrade(u)
			n := 1<<20 + mc.Choose(2)
			k := 1 + mc.Choose(3)
			d := pat(3, n)
			for i := range k {
				op := byte(opCont)
				if i == 0 {
					op = opBin
				}
				p.fc.feed(frame(i == k-1, op, d[i*n/k:(i+1)*n/k]))
			}
			if n == 1<<20 {
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, d}, "default maximum")
				p.works("default maximum")
				return
			}
			_, _, err := p.conn.ReadMessage()
			mustFatal("reading a message larger than the default maximum", err)
			p.expectClosed("default maximum", 1009)
		}}}
	},
	"C12": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "the application pauses", Bound: 1, Body: func() {
			P, R := 10*sec, 14*sec
			var o snapws.Options
			if mc.Choose(2) == 0 {
				o = snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)}
			} else {
				P, R = 50*sec, 60*sec
			}
			l := newLive(o)
			mc.Spawn("client", func() {
				for n := 1; l.waitPing(n); n++ {
					l.pong()
				}
			})
			part := mc.Choose(4)
			pause := pick([]int64{R - 1, R + 1, 2*R + 1, 5 * R})
			a := tpat(1, 40)
			l.p.fc.feed(frame(false, opText, a[:20]), frame(true, opCont, a[20:]))
			l.p.fc.feed(text("second"))
			if part > 0 {
				r, _, err := l.p.conn.NextReader()
				mustOK("NextReader", err)
				if part > 1 {
					_, err = r.Read(make([]byte, []int{0, 0, 7, 20}[part]))
					mustOK("Read", err)
				}
			}
			mc.SleepNs(pause)
			want := "second"
			if part == 0 {
				want = string(a)
			}
			for range 2 {
				_, d, err := l.p.conn.ReadMessage()
				if err != nil || string(d) != want {
					mc.Failf("after a pause of %ds of the application reading gives %q, %v", pause/sec, d, err)
				}
				l.p.fc.feed(text("third"))
				if want != string(a) {
					want = "third"
				} else {
					want = "second"
				}
			}
			l.alive("a pause of the application")
			l.read()
			mc.SleepNs(3 * P)
			l.alive("after a pause of the application")
		}}}
	},
	"C15": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "registered again", Bound: 1, Body: func() {
			g := newReg(mc.Choose(2) == 1)
			a := g.connect(1)
			var k *snapws.ManagedConn[int]
			how := mc.Choose(2)
			if how == 0 {
				k = a.k
			} else {
				k = &snapws.ManagedConn[int]{Conn: a.k.Conn, Key: 1, Manager: g.m}
			}
			g.m.Register(1, k)
			mc.Quiesce()
			a.p.expectOpen("registered again")
			if g.m.Get(1) != k || len(g.m.GetAllConns()) != 1 {
				mc.Failf("a connection registered again under its key is not found")
			}
			n, err := g.m.BroadcastString(bg, []byte("one copy"))
			mc.Quiesce()
			if err != nil || n != 1 {
				mc.Failf("broadcast to a connection registered twice: %d, %v", n, err)
			}
			if w := a.p.wire(); len(w.msgs) != 1 {
				mc.Failf("a connection registered twice receives %d copies", len(w.msgs))
			}
			a.ended = true
			a.k.Close()
			mc.Quiesce()
			if g.m.Get(1) != nil || len(g.m.GetAllConns()) != 0 || a.unregs != 1 || a.discs != 1 {
				mc.Failf("a closed connection that was registered twice: listed %v, unregister hook %d, disconnect hook %d", g.m.Get(1) != nil, a.unregs, a.discs)
			}
		}}, nilUpgrader("manager")}
	},
	"C16": func(th bool) []mc.Scenario {
		return []mc.Scenario{nilUpgrader("room"), {Name: "arguments of the hooks", Body: func() {
			rm := snapws.NewRoomManager[string](snapws.NewUpgrader(quiet(nil)))
			args := [][]any{nil, {}, {1}, {nil}, {"a", 2}, {1, 2, 3}, {"x", errIO, 2.5, true, nil}}[mc.Choose(7)]
			check := func(got []any) {
				if len(got) != len(args) {
					mc.Failf("the hook gets %d arguments, want %d", len(got), len(args))
				}
				for i := range len(args) + 2 {
					var want any
					if i < len(args) {
						want = args[i]
					}
					wi, iok := want.(int)
					ws, sok := want.(string)
					we, eok := want.(error)
					wf, fok := want.(float64)
					if v, ok := snapws.GetArg[int](got, i); v != wi || ok != iok {
						mc.Failf("argument %d of %v as an int: %v, %v", i, args, v, ok)
					}
					if v, ok := snapws.GetArg[string](got, i); v != ws || ok != sok {
						mc.Failf("argument %d of %v as a string: %v, %v", i, args, v, ok)
					}
					if v, ok := snapws.GetArg[error](got, i); v != we || ok != eok {
						mc.Failf("argument %d of %v as an error: %v, %v", i, args, v, ok)
					}
					if v, ok := snapws.GetArg[float64](got, i); v != wf || ok != fok {
						mc.Failf("argument %d of %v as a float64: %v, %v", i, args, v, ok)
					}
				}
			}
			joins, leaves := 0, 0
			rm.DefaultOnJoin = func(r *snapws.Room[string], c *snapws.Conn, args ...any) { joins++; check(args) }
			rm.DefaultOnLeave = func(r *snapws.Room[string], c *snapws.Conn, args ...any) { leaves++; check(args) }
			p := newPeer("c")
			c, r, err := rm.Connect(response(p.fc, 4096, 4096, nil), request(), "r", args...)
			mustOK("Connect", err)
			p.conn = c
			r.Remove(c, args...)
			r.Add(c, args...)
			r.Remove(c, args...)
			if joins != 2 || leaves != 2 {
				mc.Failf("%d joins and %d leaves, want 2 of each", joins, leaves)
			}
		}}}
	},
	"C19": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "default size and interval", Cfg: mc.Config{MaxSteps: 2000000}, Body: func() {
			how := pick([]string{"json", "length"})
			b := &batcher{how: how, u: snapws.NewUpgrader(quiet(nil))}
			if how == "json" {
				b.u.EnableJSONBatching(bg, 0)
			} else {
				b.u.EnablePrefixBatching(bg, 0)
			}
			p := b.open()
			late := int64(50 * time.Millisecond)
			switch mc.Choose(3) {
			case 0:
				at := pick([]int64{0, 1, late / 2, late - 1})
				mc.SleepNs(at)
				mustOK("Batch", p.conn.Batch([]byte("[1]")))
				mustOK("Batch", p.conn.Batch([]byte("[2]")))
				mc.Block("the batch", func() bool { return len(p.fc.out) > p.ws })
				if mc.NowNs() > late {
					mc.Failf("a batch with the default interval arrives at %dms", mc.NowNs()/1e6)
				}
				mc.Quiesce()
				if l := b.decode(0); !reflect.DeepEqual(l, [][]string{{"[1]", "[2]"}}) {
					mc.Failf("batches %v", l)
				}
			case 1:
				// together larger than the default of 1 MB
				n := pick([]int{600000, 1<<20 - 3, 1<<19 + 1})
				x, y := jmsg(1, n), jmsg(2, n)
				mustOK("Batch", p.conn.Batch([]byte(x)))
				mustOK("Batch", p.conn.Batch([]byte(y)))
				mc.SleepNs(sec)
				if l := b.decode(0); !reflect.DeepEqual(l, [][]string{{x}, {y}}) {
					mc.Failf("two messages of %d bytes arrive in %d batches", n, len(l))
				}
			case 2:
				n := pick([]int{1 << 18, 500000})
				x, y := jmsg(1, n), jmsg(2, n)
				mustOK("Batch", p.conn.Batch([]byte(x)))
				mustOK("Batch", p.conn.Batch([]byte(y)))
				mc.SleepNs(sec)
				if l := b.decode(0); !reflect.DeepEqual(l, [][]string{{x, y}}) {
					mc.Failf("two messages of %d bytes arrive in %d batches", n, len(l))
				}
			}
			b.ps[0].works("default size and interval")
		}}, {Name: "JSON values", Body: func() {
			how := pick([]string{"json", "length"})
			b := newBatcher(how, "", snapws.Options{}, nil)
			p := b.open()
			var want []string
			for range 2 {
				v := pick(jsonValues)
				d, wantErr := json.Marshal(v)
				err := p.conn.BatchJSON(v)
				if (err == nil) != (wantErr == nil) {
					mc.Failf("BatchJSON of %T %s: %v, want %v", v, d, err, wantErr)
				}
				if err == nil {
					want = append(want, string(d))
				}
			}
			settle(1)
			l := b.decode(0)
			if len(want) == 0 && len(l) > 0 || len(want) > 0 && (len(l) != 1 || len(l[0]) != len(want)) {
				mc.Failf("batches %v, want %v", l, want)
			}
			for i := range want {
				sameJSON("BatchJSON", []byte(l[0][i]), []byte(want[i]))
			}
			p.works("JSON values")
		}}, {Name: "changing prefix and suffix", Body: func() {
			how := pick([]string{"json", "length"})
			b := newBatcher(how, "", snapws.Options{}, nil)
			var ps []*peer
			fix := func(c *snapws.Conn, m [][]byte, kind string) string {
				for i, p := range ps {
					if p.conn == c {
						return fmt.Sprintf(`"%s of %s for client %d"`, kind, strings.Trim(string(m[0]), `"`), i)
					}
				}
				mc.Failf("unknown connection")
				return ""
			}
			mode := mc.Choose(4)
			calls := 0
			gives := func(kind string) func(c *snapws.Conn, m [][]byte) []byte {
				return func(c *snapws.Conn, m [][]byte) []byte {
					calls++
					if mode&1 != 0 && string(m[0]) == `"1"` || mode&2 != 0 && c == ps[1].conn {
						return nil
					}
					return []byte(fix(c, m, kind))
				}
			}
			b.u.Flusher.BatchPrefixFunc = gives("prefix")
			b.u.Flusher.BatchSuffixFunc = gives("suffix")
			ps = append(ps, newPeer("a"), newPeer("b"))
			for _, p := range ps {
				p.upgrade(b.u)
			}
			want := make([][]string, 2)
			for i := range 3 {
				for j, p := range ps {
					d := fmt.Sprintf(`"%d"`, i)
					mustOK("Batch", p.conn.Batch([]byte(d)))
					b.pre, b.suf = nil, nil
					if !(mode&1 != 0 && i == 1 || mode&2 != 0 && j == 1) {
						b.pre, b.suf = []byte(fix(p.conn, [][]byte{[]byte(d)}, "prefix")), []byte(fix(p.conn, [][]byte{[]byte(d)}, "suffix"))
					}
					want[j] = append(want[j], b.encode([]string{d}))
				}
				settle(1)
			}
			for j, p := range ps {
				var got []string
				for _, m := range p.wire().msgs {
					got = append(got, string(m.data))
				}
				if !reflect.DeepEqual(got, want[j]) {
					mc.Failf("client %d gets the batches %q, want %q", j, got, want[j])
				}
			}
			if calls != 12 {
				mc.Failf("the prefix and suffix functions are called %d times for 6 batches", calls)
			}
		}}}
	},
	"C22": func(th bool) []mc.Scenario {
		var out []mc.Scenario
		lists := [][]string{{"chat", "v2"}, {"v2", "chat"}, {"longer-name", "v2"}, {"x", "chat", "v2"}, {"x, v2", "chat"}, {"chat,y", "v2"}, {"", "v2", "chat"}, {"v2", "v2, chat"}}
		out = append(out, mc.Scenario{Name: "several lines of subprotocols", Body: func() {
			h := okHS()
			h.protos = pick(lists)
			h.server = pick([][]string{{"chat", "v2"}, {"v2", "chat"}, {"v2", "longer-name", "chat"}, {"v2"}, {"chat"}})
			h.reject = mc.Choose(2) == 1
			h.via = pick([]string{"upgrader", "manager", "room"})
			h.do()
		}})
		out = append(out, mc.Scenario{Name: "own status", Body: func() {
			code := pick([]int{400, 401, 403, 404, 409, 418, 429, 500, 503})
			msg := pick([]string{"", "no", strings.Repeat("long ", 2000)})
			before := mc.Choose(3)
			u := snapws.NewUpgrader(quiet(nil))
			ran := 0
			mw := func(http.ResponseWriter, *http.Request) error { ran++; return nil }
			for range before {
				u.Use(mw)
			}
			var err error
			switch mc.Choose(3) {
			case 0:
				err = snapws.NewMiddlewareErr(code, msg)
			case 1:
				err = &snapws.MiddlewareErr{Code: code, Message: msg}
			case 2:
				err, code = errors.New(msg), 400
			}
			u.Use(func(http.ResponseWriter, *http.Request) error { return err })
			u.Use(func(http.ResponseWriter, *http.Request) error {
				mc.Failf("a middleware runs after the handshake was refused")
				return nil
			})
			p := newPeer("c")
			rw := response(p.fc, 4096, 4096, nil)
			c, e := u.Upgrade(rw, request())
			if c != nil || e == nil || rw.hij > 0 || len(p.fc.out) > 0 {
				mc.Failf("a middleware's refusal gives %v, %v", c != nil, e)
			}
			if len(rw.status) != 1 || rw.status[0] != code || ran != before {
				mc.Failf("a middleware refuses with %d %q, the client gets %v", code, clip([]byte(msg)), rw.status)
			}
		}})
		out = append(out, mc.Scenario{Name: "many handshakes", Cfg: mc.Config{MaxSteps: 4000000}, Body: func() {
			// one upgrader, keys and protocols of every connection are its own
			u := snapws.NewUpgrader(quiet(&snapws.Options{SubProtocols: []string{"a", "b", "c"}}))
			var conns []*snapws.Conn
			for i := range 300 {
				p := newPeer(fmt.Sprint("c", i))
				r := request()
				r.Header.Set("Sec-WebSocket-Key", base64.StdEncoding.EncodeToString(pat(i, 16)))
				proto := []string{"", "a", "b", "c"}[i%4]
				if proto != "" {
					r.Header.Set("Sec-WebSocket-Protocol", "x, "+proto)
				}
				if i%7 == 3 {
					r.Header.Set("Sec-WebSocket-Version", "12")
					if c, err := u.Upgrade(response(p.fc, 4096, 4096, nil), r); err == nil || c != nil {
						mc.Failf("handshake %d is accepted", i)
					}
					continue
				}
				c, err := u.Upgrade(response(p.fc, 4096, 4096, nil), r)
				mustOK(fmt.Sprint("handshake ", i), err)
				p.conn = c
				p.shaken()
				if c.SubProtocol != proto {
					mc.Failf("handshake %d selects %q, want %q", i, c.SubProtocol, proto)
				}
				conns = append(conns, c)
				p.works(fmt.Sprint("handshake ", i))
			}
			for _, c := range conns {
				c.Close()
			}
		}})
		return out
	},
	"C26": func(th bool) []mc.Scenario {
		return []mc.Scenario{{Name: "default write wait", Bound: 1, Body: func() {
			var o *snapws.Options
			if mc.Choose(2) == 1 {
				o = &snapws.Options{}
			}
			u := snapws.NewUpgrader(o)
			p := newPeer("c").upgrade(u)
			p.fc.stall = true
			start := pick([]int64{0, sec, 7 * sec})
			mc.SleepNs(start)
			kind := mc.Choose(5)
			resume := mc.Choose(2) == 1
			if resume {
				mc.Spawn("client", func() {
					mc.SleepNs(4900 * int64(time.Millisecond))
					p.fc.stall = false
				})
			}
			var err error
			switch kind {
			case 0:
				err = p.conn.SendString(bg, []byte("hello"))
			case 1:
				err = p.conn.Ping()
			case 2:
				p.conn.CloseWithCode(3000, "bye")
			case 3:
				var w *snapws.ConnWriter
				w, err = p.conn.NextWriter(bg, opBin)
				mustOK("NextWriter", err)
				w.Write([]byte("abc"))
				err = w.Close()
			case 4:
				err = p.conn.SendJSON(bg, 1)
			}
			if d := mc.NowNs() - start; d > 5*sec {
				mc.Failf("operation %d on a stalled connection takes %.1fs", kind, float64(d)/1e9)
			}
			if resume {
				if err != nil {
					mc.Failf("operation %d: the client resumed after 4.9 seconds, but it fails: %v", kind, err)
				}
				if kind != 2 {
					p.expectOpen("resumed")
				} else {
					p.expectClosed("resumed", 3000)
				}
				return
			}
			if kind != 2 && err == nil {
				mc.Failf("operation %d succeeds on a stalled connection", kind)
			}
			mc.Quiesce()
			if !p.fc.closed {
				mc.Failf("operation %d: a stalled connection stays open after the write wait", kind)
			}
		}}}
	},
}

// jsonValues are values an application may hand over, some cannot be encoded.
var jsonValues = []any{nil, true, false, 0, -1.5, "", "text", "\u00e9<&>\u2028", []int{}, []any(nil), map[string]int{}, map[string]any(nil), struct{}{}, &struct{ A *int }{}, []any{nil, nil}, json.RawMessage("null"), json.RawMessage(` {"a" : [ 1 ] } `), strings.Repeat("long", 40), make(chan int), func() {}, math.NaN(), json.RawMessage("{"), map[string]any{"a": 1, "b": make(chan int)}}

func sameJSON(what string, got, want []byte) {
	var a, b any
	if err := json.Unmarshal(got, &a); err != nil {
		mc.Failf("%s gives %q: %v", what, clip(got), err)
	}
	if json.Unmarshal(want, &b) != nil || !reflect.DeepEqual(a, b) {
		mc.Failf("%s gives %q, want %q", what, clip(got), clip(want))
	}
}

// nilUpgrader: a manager that was given no upgrader has one with the defaults.
func nilUpgrader(kind string) mc.Scenario {
	return mc.Scenario{Name: "no upgrader given", Bound: 1, Body: func() {
		ps := []*peer{newPeer("a"), newPeer("b")}
		var cast func() (int, error)
		left := func() int { return 0 }
		if kind == "manager" {
			m := snapws.NewManager[int](nil)
			for i, p := range ps {
				c, err := m.Connect(i, response(p.fc, 4096, 4096, nil), request())
				mustOK("Connect", err)
				p.conn = c.Conn
			}
			cast = func() (int, error) { return m.BroadcastString(bg, []byte("all")) }
			left = func() int { return len(m.GetAllConns()) }
		} else {
			rm := snapws.NewRoomManager[int](nil)
			var room *snapws.Room[int]
			for _, p := range ps {
				c, r, err := rm.Connect(response(p.fc, 4096, 4096, nil), request(), 3)
				mustOK("Connect", err)
				p.conn, room = c, r
			}
			cast = func() (int, error) { return room.BroadcastString(bg, []byte("all")) }
			left = func() int { return len(room.GetAllConns()) }
		}
		for _, p := range ps {
			p.shaken()
			p.works("no upgrader given")
		}
		n, err := cast()
		if n != 2 || err != nil {
			mc.Failf("broadcast: %d, %v", n, err)
		}
		mc.Quiesce()
		for _, p := range ps {
			w := p.wire()
			if l := len(w.msgs); l != 2 || string(w.msgs[1].data) != "all" {
				mc.Failf("the broadcast did not arrive")
			}
		}
		ps[0].conn.Close()
		mc.Quiesce()
		if left() != 1 {
			mc.Failf("%d connections left, want 1", left())
		}
		ps[1].works("one closed")
	}}
}
