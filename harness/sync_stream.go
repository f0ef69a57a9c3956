package harness

import (
	"fmt"
	"io"
	"time"

	"vh/mc"
	"vh/snapws"
)

type target struct {
	A int    `json:"a"`
	B string `json:"b"`
}

func init() {
	Reg(&mc.Property{
		ID:   "C04",
		Rule: "input enumeration: every way a read can end early without a fatal error (type mismatch, JSON error, early JSON end, reader abandoned after k bytes, rate limited) x message sizes, fragmentations, control frames in the remainder, network segmentation, following read call.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }
			next := []rapi{{"message", 0}, {"typed", 0}, {"next", 3}, {"json", 0}}
			after := func(p *peer, why string) {
				a := pick(next)
				p.expectMsg(a, cmsg{opText, []byte(`{"next":1}`)}, why)
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, pat(4, 9)}, why+", second message after")
				w := p.expectOpen(why)
				_ = w
			}
			tail := cat(text(`{"next":1}`), bin(pat(4, 9)))
			// evil payload: looks like frames when read at the wrong offset
			evil := func(n int) []byte {
				b := []byte(`7 `)
				for len(b) < n {
					b = append(b, text("leaked")...)
				}
				return b[:n]
			}
			frags := func(op byte, d []byte, mode int) ([][]byte, int) {
				n := len(d)
				switch mode {
				case 0:
					return [][]byte{frame(true, op, d)}, 0
				case 1:
					return [][]byte{frame(false, op, d[:n/2]), frame(true, opCont, d[n/2:])}, 0
				case 2:
					return [][]byte{frame(false, op, nil), ping([]byte("in")), frame(false, opCont, d), frame(true, opCont, nil)}, 1
				default:
					return [][]byte{frame(false, op, d[:n/3]), ping([]byte("in")), frame(false, opCont, d[n/3:n/3*2]), pong([]byte("q")), ping(nil), frame(true, opCont, d[n/3*2:])}, 2
				}
			}
			expectPongs := func(p *peer, n int, why string) {
				if w := p.wire(); len(w.pongs) != n {
					mc.Failf("%s: %d pongs for %d pings inside the message", why, len(w.pongs), n)
				}
			}
			sizes := []int{1, 2, 5, 12, 126, 600, 5000}
			if th {
				sizes = append(sizes, 3, 4, 7, 20, 125, 127, 300, 511, 512, 513, 4095, 4096, 4097, 70000)
			}
			add("type mismatch", func() {
				n := pick(append([]int{0}, sizes...))
				way := mc.Choose(3)
				mode := mc.Choose(4)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 20})}))
				p := newPeer("c").upgrade(u)
				op := []byte{opText, opBin, opBin}[way]
				d := evil(n)
				if op == opText {
					d = tpat(1, n)
				}
				fs, pings := frags(op, d, mode)
				p.fc.feed(chunks(cat(cat(fs...), tail), pick([]int{0, 13}))...)
				var err error
				switch way {
				case 0:
					_, err = p.conn.ReadBinary()
				case 1:
					_, err = p.conn.ReadString()
				case 2:
					var v any
					err = p.conn.ReadJSON(&v)
				}
				if err == nil || isFatal(err) {
					mc.Failf("type mismatch (way %d) reported as %v, want a non-fatal error", way, err)
				}
				after(p, "after a type mismatch")
				expectPongs(p, pings, "type mismatch")
			})
			add("json", func() {
				docs := []struct {
					s   string
					bad bool
				}{
					{`{"a":1}`, false}, {`5`, true}, {`{"a":"x"}`, true}, {`{"a":1`, true}, {`{]`, true}, {``, true}, {`nonsense`, true}, {`{"a":1,}`, true}, {`"s"`, true}, {`{"b":3}`, true},
					{`{"a":1}{"a":2}`, false}, {`{"a":1} x`, false}, {`{"a":1}   `, false}, {`null 1`, false},
				}
				d := pick(docs)
				pad := pick([]int{0, 1, 30, 505, 520, 3000, 9000})
				if pad > 0 && d.s != "" && !d.bad {
					d.s += " "
				}
				full := append([]byte(d.s), evil(pad)...)
				if d.bad && d.s != "" && pad > 0 {
					full = append([]byte(d.s), tpat(1, pad)...)
					if d.s == "5" {
						full[1] = ' '
					}
				}
				if d.s == "" && pad > 0 {
					full = append([]byte("]"), evil(pad)...)
				}
				mode := mc.Choose(4)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 30})}))
				p := newPeer("c").upgrade(u)
				fs, pings := frags(opText, full, mode)
				p.fc.feed(chunks(cat(cat(fs...), tail), pick([]int{0, 17}))...)
				var v target
				err := p.conn.ReadJSON(&v)
				if isFatal(err) {
					mc.Failf("JSON message %q reported as fatal: %v", clip(full), err)
				}
				if d.bad && err == nil {
					mc.Failf("JSON message %q decoded without error", clip(full))
				}
				if !d.bad && (err != nil || v.A != 1 && d.s[0] == '{') {
					mc.Failf("JSON message %q: %v %+v", clip(full), err, v)
				}
				after(p, "after "+d.s)
				expectPongs(p, pings, "json")
			})
			add("abandoned reader", func() {
				n := pick(sizes)
				mode := mc.Choose(4)
				k := 0 // bytes read before abandoning
				if n <= 20 {
					k = mc.Choose(n + 2)
				} else {
					k = pick([]int{0, 1, n / 3, n/3 + 1, n / 2, n - 1, n, n + 1})
				}
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 20}), ReaderMaxFragments: pick([]int{0, 5})}))
				p := newPeer("c").upgrade(u)
				fs, pings := frags(opBin, evil(n), mode)
				p.fc.feed(chunks(cat(cat(fs...), tail), pick([]int{0, 11}))...)
				r, _, err := p.conn.NextReader()
				mustOK("NextReader", err)
				step := 1
				if n > 100 {
					step = 97
				}
				got := 0
				buf := make([]byte, step)
				for i := 0; got < k && i < 20000; i++ {
					m, err := r.Read(buf[:min(step, k-got)])
					got += m
					if err == io.EOF {
						break
					}
					mustOK("Read", err)
				}
				after(p, fmt.Sprintf("after a reader abandoned at byte %d of %d", got, n))
				expectPongs(p, pings, "abandoned")
			})
			add("several in a row", func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: 20}))
				p := newPeer("c").upgrade(u)
				for i := 0; i < 3; i++ {
					fs, _ := frags(opText, []byte(`{"a":"`+string(tpat(i, 30))+`"}`), mc.Choose(4))
					p.fc.feed(fs...)
					switch mc.Choose(4) {
					case 0:
						_, err := p.conn.ReadBinary()
						if err == nil || isFatal(err) {
							mc.Failf("type mismatch: %v", err)
						}
					case 1:
						var v target
						if err := p.conn.ReadJSON(&v); err == nil || isFatal(err) {
							mc.Failf("json mismatch: %v", err)
						}
					case 2:
						_, _, err := p.conn.NextReader()
						mustOK("NextReader", err)
					case 3:
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte(`{"a":"` + string(tpat(i, 30)) + `"}`)}, "whole")
					}
				}
				p.fc.feed(tail)
				after(p, "after three messages")
			})
			add("rate limited", func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 20})}))
				u.Limiter = snapws.NewRateLimiter(1, 1)
				p := newPeer("c").upgrade(u)
				n := pick(sizes)
				fs, pings := frags(opBin, evil(n), mc.Choose(4))
				p.fc.feed(text("free"), cat(fs...))
				p.fc.feed(tail)
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("free")}, "first")
				a := pick([]rapi{{"message", 0}, {"next", 5}, {"json", 0}})
				_, _, err := a.read(p.conn, opBin)
				if err == nil || isFatal(err) {
					mc.Failf("rate-limited read gives %v, want a non-fatal error", err)
				}
				mc.SleepNs(2 * sec)
				b := pick(next)
				p.expectMsg(b, cmsg{opText, []byte(`{"next":1}`)}, "after a rate-limited message")
				mc.SleepNs(2 * sec)
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, pat(4, 9)}, "second after a rate-limited message")
				expectPongs(p, pings, "rate limited")
				p.expectOpen("rate limited")
			})
			out = append(out, mc.Scenario{Name: "long leftovers", Once: true, Cfg: mc.Config{MaxSteps: 400000}, Body: func() {
				n := pick([]int{65535, 65536, 70000, 131072, 1<<20 - 8, 3 << 20})
				way := pick([]string{"type", "json type", "json", "abandoned", "abandoned late", "limited"})
				frag := pick([]int{1, 2, 5})
				seg := pick([]int{0, 4096, 65536})
				u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: -1, ReadBufferSize: pick([]int{0, 65536})}))
				if way == "limited" {
					u.Limiter = snapws.NewRateLimiter(1, 1)
				}
				p := newPeer("c").upgrade(u)
				op := byte(opBin)
				if way == "json" {
					op = opText
				}
				d := evil(n)
				var all []byte
				if way == "limited" {
					all = text("free")
				}
				for i := 0; i < frag; i++ {
					o := byte(opCont)
					if i == 0 {
						o = op
					}
					// the last one is the longest
					hi := i + 1
					if i == frag-1 {
						hi = n
					}
					all = append(all, frame(i == frag-1, o, d[i:hi])...)
				}
				p.fc.feed(chunks(cat(all, tail), seg)...)
				var err error
				switch way {
				case "type":
					_, err = p.conn.ReadString()
				case "json type":
					var v any
					err = p.conn.ReadJSON(&v)
				case "json":
					var v string
					err = p.conn.ReadJSON(&v)
				case "abandoned":
					_, _, e := p.conn.NextReader()
					mustOK("NextReader", e)
				case "abandoned late":
					r, _, e := p.conn.NextReader()
					mustOK("NextReader", e)
					for i := 0; i < frag; i++ {
						_, e = r.Read(make([]byte, 1))
						mustOK("Read", e)
					}
				case "limited":
					p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("free")}, "first")
					_, _, err = p.conn.ReadMessage()
				}
				if way[0] != 'a' && err == nil || isFatal(err) {
					mc.Failf("%s of %d bytes: %v, want a non-fatal error", way, n, err)
				}
				if way == "limited" {
					mc.SleepNs(2 * sec)
				}
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte(`{"next":1}`)}, fmt.Sprintf("after %d bytes left over (%s)", n, way))
				if way == "limited" {
					mc.SleepNs(2 * sec)
				}
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, pat(4, 9)}, "second message after")
				p.expectOpen("long leftovers")
			}})
			out = append(out, mc.Scenario{Name: "many in a row", Once: true, Cfg: mc.Config{MaxSteps: 10000000}, Body: func() {
				n := pick([]int{257, 66000})
				way := pick([]string{"type", "json", "abandoned"})
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 200})}))
				p := newPeer("c").upgrade(u)
				for i := 0; i < n; i++ {
					p.fc.feed(frame(false, opBin, []byte("abc")), ping(nil), frame(true, opCont, []byte(text("leaked"))))
					var err error
					switch way {
					case "type":
						_, err = p.conn.ReadString()
					case "json":
						var v any
						err = p.conn.ReadJSON(&v)
					case "abandoned":
						_, _, e := p.conn.NextReader()
						mustOK("NextReader", e)
					}
					if way[0] != 'a' && err == nil || isFatal(err) {
						mc.Failf("message %d (%s): %v, want a non-fatal error", i, way, err)
					}
				}
				p.fc.feed(tail)
				after(p, fmt.Sprintf("after %d messages (%s)", n, way))
				expectPongs(p, n, "many in a row")
			}})
			return out
		},
	})

	Reg(&mc.Property{
		ID:   "C05",
		Rule: "input enumeration of ping payload lengths (all of 0..125), sequences, positions, buffer sizes and segmentations; schedules of pings against concurrent sends, streaming and server pings up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }
			rbufs := append(seq(0, 20), 64, 100, 124, 125, 126, 127, 128, 129, 130, 131, 132, 139, 140, 200, 4096)
			same := func(p *peer, want [][]byte, why string) *wire {
				w := p.wire()
				if len(w.pongs) != len(want) {
					mc.Failf("%s: %d pongs for %d pings", why, len(w.pongs), len(want))
				}
				for i := range want {
					if string(want[i]) != string(w.pongs[i]) {
						mc.Failf("%s: pong %d is %q (%d bytes), ping was %q (%d bytes)", why, i, clip(w.pongs[i]), len(w.pongs[i]), clip(want[i]), len(want[i]))
					}
				}
				return w
			}
			add("every length", func() {
				n := mc.Choose(126)
				rb := pick(rbufs)
				key := keys[(n+rb)%4]
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
				p := newPeer("c").upgradeSz(u, pick([]int{16, 200, 4096}), 4096)
				pl := pat(n, n)
				p.fc.feed(chunks(cat(frameM(true, opPing, pl, key), text("m")), pick([]int{0, 1, 50}))...)
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("m")}, "message after a ping")
				same(p, [][]byte{pl}, fmt.Sprintf("ping of %d bytes, read buffer %d", n, rb))
				p.expectOpen("after a ping")
			})
			ls := []int{0, 1, 4, 57, 124, 125}
			depth := 3
			if th {
				depth = 4
			}
			add("sequences", func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 16})}))
				p := newPeer("c").upgrade(u)
				var want [][]byte
				var msg []byte
				p.fc.feed(frame(false, opText, []byte("ab")))
				msg = append(msg, "ab"...)
				for i := 0; i < depth; i++ {
					n := pick(ls)
					switch mc.Choose(3) {
					case 0:
						p.fc.feed(ping(pat(i, n)))
						want = append(want, pat(i, n))
					case 1:
						p.fc.feed(pong(pat(i, n)), ping(pat(i, n)))
						want = append(want, pat(i, n))
					case 2:
						p.fc.feed(ping(pat(i, n)), frame(false, opCont, tpat(i, 3)), pong(nil))
						want = append(want, pat(i, n))
						msg = append(msg, tpat(i, 3)...)
					}
				}
				p.fc.feed(frame(true, opCont, nil), bin([]byte("end")))
				p.expectMsg(pick([]rapi{{"message", 0}, {"next", 2}}), cmsg{opText, msg}, "message around pings")
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, []byte("end")}, "message after pings")
				same(p, want, "sequence")
				p.expectOpen("after pings")
			})
			add("unsolicited pongs", func() {
				n := mc.Choose(126)
				pos := mc.Choose(3)
				rb := pick([]int{0, 14, 16, 100, 130})
				outstanding := mc.Choose(2) == 1
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
				p := newPeer("c").upgrade(u)
				if outstanding {
					mustOK("Ping", p.conn.Ping())
					if n == 0 {
						n = 1 // an empty pong would be the answer
					}
				}
				po := pong(pat(n, n))
				switch pos {
				case 0:
					p.fc.feed(chunks(cat(po, text("xyz")), pick([]int{0, 7}))...)
				case 1:
					p.fc.feed(frame(false, opText, []byte("xy")), po, frame(true, opCont, []byte("z")))
				case 2:
					p.fc.feed(po, po, text("xyz"))
				}
				p.fc.feed(ping([]byte("still")), bin([]byte("e")))
				p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("xyz")}, "message around an unsolicited pong")
				p.expectMsg(rapi{"message", 0}, cmsg{opBin, []byte("e")}, "message after an unsolicited pong")
				same(p, [][]byte{[]byte("still")}, "unsolicited pong")
				p.expectOpen("after an unsolicited pong")
			})
			add("server pings between", func() {
				// the control buffer is shared: lengths must not leak from one frame to the next
				u := snapws.NewUpgrader(quiet(nil))
				p := newPeer("c").upgrade(u)
				var want [][]byte
				np := 0
				for i := 0; i < 4; i++ {
					switch mc.Choose(3) {
					case 0:
						n := pick(ls)
						p.fc.feed(ping(pat(i, n)), text("t"))
						want = append(want, pat(i, n))
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("t")}, "message")
					case 1:
						mustOK("Ping", p.conn.Ping())
						np++
						w := p.wire()
						if len(w.pings) != np || len(w.pings[np-1]) != 0 || len(w.tail) != 0 {
							mc.Failf("server ping %d is not an empty ping frame: %d pings, last % x, tail % x", np, len(w.pings), w.pings, w.tail)
						}
						p.fc.feed(pong(nil), text("t"))
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("t")}, "message")
					case 2:
						p.fc.feed(pong(pat(i, 30)), text("t"))
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("t")}, "message")
					}
				}
				same(p, want, "with server pings")
				p.expectOpen("with server pings")
			})
			// schedules
			for _, split := range []bool{false, true} {
				b := 2
				if th {
					b = 3
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent split=%v", split), Bound: b, Body: func() {
					u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: 20}))
					p := newPeer("c").upgrade(u)
					p.fc.split = split
					pl := [][]byte{pat(1, 3), nil, pat(2, 40)}
					s := mc.Spawn("sender", func() {
						mustOK("SendBytes", p.conn.SendBytes(bg, pat(7, 15)))
						w, err := p.conn.NextWriter(bg, opText)
						mustOK("NextWriter", err)
						w.Write(tpat(1, 4))
						w.Flush()
						w.Write(tpat(1, 4))
						mustOK("Close", w.Close())
					})
					g := mc.Spawn("pinger", func() {
						mustOK("Ping", p.conn.Ping())
					})
					p.fc.feed(ping(pl[0]), text("a"), ping(pl[1]), ping(pl[2]), text("b"))
					p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("a")}, "a")
					p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("b")}, "b")
					mc.Join(s, g)
					w := same(p, pl, "concurrent")
					if len(w.msgs) != 2 || len(w.pings) != 1 || len(w.tail) > 0 {
						mc.Failf("messages %d, pings %d, tail %d", len(w.msgs), len(w.pings), len(w.tail))
					}
					p.expectOpen("concurrent")
					mc.Outcome("%v", w.order)
				}})
			}
			return out
		},
	})
	_ = time.Second
}
