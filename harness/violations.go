package harness

import (
	"encoding/binary"
	"fmt"
	"io"
	"time"

	"vh/mc"
	"vh/snapws"
)

// rawFrame builds any frame, legal or not. ext selects the length encoding:
// 0 minimal, 2 sixteen bit, 8 sixty-four bit.
func rawFrame(b0 byte, masked bool, payload []byte) []byte {
	n := len(payload)
	mb := byte(0)
	if masked {
		mb = 0x80
	}
	b := []byte{b0}
	switch {
	case n < 126:
		b = append(b, mb|byte(n))
	case n < 65536:
		b = append(b, mb|126, byte(n>>8), byte(n))
	default:
		b = append(b, mb|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if !masked {
		return append(b, payload...)
	}
	b = append(b, maskKey[:]...)
	for i, c := range payload {
		b = append(b, c^maskKey[i%4])
	}
	return b
}

func known(op byte) bool { return op <= 2 || op >= 8 && op <= 10 }

func init() {
	Reg(&mc.Property{
		ID:   "C02",
		Rule: "input enumeration: every first byte (all reserved-bit, fin and opcode combinations), masked or not, a set of payload lengths, in every message context and read call; every one- and two-byte text payload and boundary three- and four-byte sequences at every fragment split.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }
			lens := []int{0, 1, 2, 5, 124, 125, 126, 127, 300}
			if th {
				lens = append(lens, 3, 4, 6, 7, 8, 64, 100, 123, 128, 255, 256, 65535, 65536)
			}
			for _, ctx := range []string{"fresh", "after", "infrag", "partly-read", "after-empty-frag", "after-ping", "abandoned", "limited"} {
				ctx := ctx
				add("headers "+ctx, func() {
					b0 := byte(mc.Choose(256))
					masked := mc.Choose(2) == 0
					n := pick(lens)
					a := pick([]rapi{{"message", 0}, {"typed", 0}, {"next", 3}})
					if ctx == "partly-read" {
						a = rapi{"next", 1}
					}
					fin, rsv, op := b0&0x80 != 0, b0&0x70, b0&15
					skip := ctx == "abandoned" || ctx == "limited" // the message under way is skipped
					inMsg := ctx == "infrag" || ctx == "partly-read" || ctx == "after-empty-frag" || skip
					ok := rsv == 0 && known(op) && masked
					if op >= 8 {
						ok = ok && fin && n <= 125
					} else if inMsg {
						ok = ok && op == opCont
					} else {
						ok = ok && op != opCont
					}
					if ok && op == opClose {
						return // C06
					}
					u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 150})}))
					if ctx == "limited" {
						u.Limiter = snapws.NewRateLimiter(1, 1)
						if a.name == "next" {
							return
						}
					}
					p := newPeer("c").upgrade(u)
					body := tpat(2, n)
					var want []cmsg
					first := []byte("first")
					switch ctx {
					case "after":
						p.fc.feed(text("before"))
						p.expectMsg(a, cmsg{opText, []byte("before")}, "message before")
					case "infrag", "partly-read":
						p.fc.feed(frame(false, opText, first))
					case "after-empty-frag":
						first = nil
						p.fc.feed(frame(false, opText, nil))
					case "after-ping":
						p.fc.feed(ping([]byte("hi")))
					case "abandoned":
						p.fc.feed(frame(false, opText, first))
						r, _, err := p.conn.NextReader()
						mustOK("NextReader", err)
						if k := mc.Choose(3); k > 0 {
							m, err := r.Read(make([]byte, []int{0, 2, 5}[k]))
							if err != nil || m == 0 {
								mc.Failf("Read of the first fragment returns %d, %v", m, err)
							}
						}
					case "limited":
						p.fc.feed(text("before"))
						p.expectMsg(a, cmsg{opText, []byte("before")}, "message before")
						p.fc.feed(frame(false, opText, first))
					}
					p.fc.feed(rawFrame(b0, masked, body))
					exp := byte(opText)
					if ok {
						switch {
						case op >= 8:
							if inMsg {
								p.fc.feed(frame(true, opCont, []byte("rest")))
								want = append(want, cmsg{opText, append(append([]byte{}, first...), "rest"...)})
							}
						case inMsg:
							all := append(append([]byte{}, first...), body...)
							if !fin {
								p.fc.feed(frame(true, opCont, []byte("R")))
								all = append(all, 'R')
							}
							want = append(want, cmsg{opText, all})
						default:
							all := append([]byte{}, body...)
							if !fin {
								p.fc.feed(frame(true, opCont, []byte("R")))
								all = append(all, 'R')
							}
							want = append(want, cmsg{op, all})
						}
						if skip {
							want = nil
							if ctx == "limited" {
								if _, _, err := p.conn.ReadMessage(); err == nil || isFatal(err) {
									mc.Failf("read of a rate-limited message returns %v", err)
								}
								mc.Sleep(2 * time.Second)
							}
						}
						want = append(want, cmsg{opText, []byte("tail")})
					} else if op == opBin && !inMsg {
						exp = opBin
					}
					if !ok && mc.Choose(2) == 1 {
						// what follows would complete the message, were it one
						p.fc.feed(frame(true, opCont, []byte("end")))
					}
					p.fc.feed(text("tail"), text("tail2"))
					if ok {
						for i, m := range want {
							p.expectMsg(a, m, fmt.Sprintf("valid stream, message %d", i))
						}
						p.expectOpen("after a valid stream")
						return
					}
					_, data, err := a.read(p.conn, exp)
					mustFatal(fmt.Sprintf("read of a stream with violation b0=%#x masked=%v len=%d (data %q)", b0, masked, n, clip(data)), err)
					p.expectClosed(fmt.Sprintf("violation b0=%#x masked=%v len=%d", b0, masked, n), 1002)
					_, _, err = a.read(p.conn, exp)
					mustFatal("read after a violation", err)
					_, _, err = p.conn.NextReader()
					mustFatal("NextReader after a violation", err)
					mc.Outcome("%x", b0)
				})
			}
			// UTF-8
			check := func(b []byte, split int, op byte, a rapi, skip bool) {
				u := snapws.NewUpgrader(quiet(&snapws.Options{SkipUTF8Validation: skip}))
				p := newPeer("c").upgrade(u)
				if split < 0 {
					p.fc.feed(frame(true, op, b))
				} else {
					p.fc.feed(frame(false, op, b[:split]), ping(nil), frame(true, opCont, b[split:]))
				}
				p.fc.feed(text("tail"))
				if skip || op == opBin || utf8ok(b) {
					p.expectMsg(a, cmsg{op, b}, "text payload")
					p.expectMsg(a, cmsg{opText, []byte("tail")}, "message after")
					p.expectOpen("after valid text")
					return
				}
				_, _, err := a.read(p.conn, op)
				mustFatal(fmt.Sprintf("read of invalid UTF-8 % x", b), err)
				p.expectClosed(fmt.Sprintf("invalid UTF-8 % x", b), 1007)
				_, _, err = a.read(p.conn, op)
				mustFatal("read after invalid UTF-8", err)
			}
			whole := []rapi{{"message", 0}, {"typed", 0}}
			add("utf8 two bytes", func() {
				b := []byte{byte(mc.Choose(256)), byte(mc.Choose(256))}
				check(b, -1, opText, whole[int(b[1])%2], false)
			})
			var seqs [][]byte
			edge := []byte{0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff}
			for l := 0; l < 256; l++ {
				seqs = append(seqs, []byte{byte(l)})
			}
			for l := 0xe0; l <= 0xef; l++ {
				for _, b := range edge {
					for _, c := range edge {
						seqs = append(seqs, []byte{byte(l), b, c})
					}
				}
			}
			for l := 0xf0; l <= 0xf7; l++ {
				for _, b := range edge {
					for _, c := range []byte{0x7f, 0x80, 0xbf, 0xc0} {
						for _, d := range []byte{0x7f, 0x80, 0xbf, 0xc0} {
							seqs = append(seqs, []byte{byte(l), b, c, d})
						}
					}
				}
			}
			add("utf8 sequences and splits", func() {
				s := pick(seqs)
				pre := pick([]string{"", "ok é "})
				b := append(append([]byte(pre), s...), pick([]string{"", "z"})...)
				mode := mc.Choose(len(b) + 2)
				check(b, mode-1, opText, whole[len(b)%2], false)
			})
			add("utf8 long", func() {
				n := pick([]int{125, 126, 511, 512, 513, 4095, 4096, 4097, 8191, 65535, 65536, 131073, 1 << 20})
				tail := pick([]string{"", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\U0001F600", "\xf0\x9f\x98", "\xc3\xa9"})
				at := pick([]string{"start", "middle", "end"})
				how := pick([]string{"message", "string"})
				fr := pick([]int{1, 3})
				b := tpat(1, n)
				i := map[string]int{"start": 0, "middle": n / 2, "end": n - len(tail)}[at]
				copy(b[i:], tail)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 512})}))
				p := newPeer("c").upgrade(u)
				for k := 0; k < fr; k++ {
					o := byte(opCont)
					if k == 0 {
						o = opText
					}
					p.fc.feed(frame(k == fr-1, o, b[n*k/fr:n*(k+1)/fr]))
				}
				var d []byte
				var err error
				if how == "message" {
					_, d, err = p.conn.ReadMessage()
				} else {
					d, err = p.conn.ReadString()
				}
				if utf8ok(b) {
					mustOK(fmt.Sprintf("read of %d bytes of UTF-8", n), err)
					if string(d) != string(b) {
						mc.Failf("%d bytes of UTF-8 read differently", n)
					}
					p.expectOpen("valid UTF-8")
					return
				}
				mustFatal(fmt.Sprintf("read of %d bytes with %q at %s", n, tail, at), err)
				p.expectClosed("invalid UTF-8", 1007)
			})
			add("utf8 not validated", func() {
				s := pick(seqs[:400])
				if mc.Choose(2) == 0 {
					check(s, -1, opText, whole[mc.Choose(2)], true)
				} else {
					check(s, -1, opBin, whole[mc.Choose(2)], false)
				}
			})
			return out
		},
	})

	Reg(&mc.Property{
		ID:   "C03",
		Rule: "input enumeration: every maximum size of a list and none, message totals around it, every way of splitting the total over up to four fragments from a size list, control frames between, the following message; every fragment limit and count.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }
			maxes := []int{1, 2, 5, 10, 124, 125, 126, 127, 200, 1000, -1}
			if th {
				maxes = append(maxes, 3, 4, 128, 255, 256, 511, 512, 513, 4096, 65535, 65536)
			}
			for _, m := range maxes {
				m := m
				add(fmt.Sprintf("size max=%d", m), func() {
					base := m
					if m < 0 {
						base = 300
					}
					tot := base + pick([]int{-1, 0, 1, 2, base, -base})
					nf := 1 + mc.Choose(4)
					var parts []int
					rest := tot
					for i := 0; i < nf-1; i++ {
						x := pick([]int{0, 1, rest / 2, rest})
						if x > rest {
							x = rest
						}
						parts = append(parts, x)
						rest -= x
					}
					parts = append(parts, rest)
					op := pick([]byte{opText, opBin})
					a := pick([]rapi{{"message", 0}, {"typed", 0}, {"next", 7}})
					ctl := mc.Choose(3)
					u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: m}))
					p := newPeer("c").upgrade(u)
					var all []byte
					for i, n := range parts {
						d := payload(op, i, n)
						all = append(all, d...)
						o := byte(opCont)
						if i == 0 {
							o = op
						}
						p.fc.feed(frame(i == nf-1, o, d))
						if i < nf-1 {
							switch ctl {
							case 1:
								p.fc.feed(ping([]byte("p")))
							case 2:
								p.fc.feed(ping(pat(1, 125)), pong(pat(2, 100)))
							}
						}
					}
					p.fc.feed(bin([]byte("t")))
					if m < 0 || tot <= m {
						p.expectMsg(a, cmsg{op, all}, fmt.Sprintf("message of %d bytes in parts %v with maximum %d", tot, parts, m))
						p.expectMsg(a, cmsg{opBin, []byte("t")}, "next message")
						// consumption does not carry over
						full := payload(op, 9, base)
						p.fc.feed(frame(false, op, full[:base/2]), frame(true, opCont, full[base/2:]))
						p.expectMsg(a, cmsg{op, full}, "message of exactly the maximum size after another")
						p.expectOpen("after messages within the limit")
						return
					}
					_, _, err := a.read(p.conn, op)
					mustFatal(fmt.Sprintf("read of %d bytes in parts %v with maximum %d", tot, parts, m), err)
					p.expectClosed("message too big", 1009)
					_, _, err = a.read(p.conn, opBin)
					mustFatal("read after a too big message", err)
				})
			}
			add("declared lengths", func() {
				m := pick([]int{10, 125, 126, 1 << 16, 0})
				l := pick([]uint64{1<<20 + 1, 1 << 31, 1<<32 + 5, 1<<32 + 1<<20 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 20})
				infrag := mc.Choose(2) == 1
				u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: m}))
				p := newPeer("c").upgrade(u)
				b0 := byte(0x82)
				if infrag {
					p.fc.feed(frame(false, opBin, []byte("12345")))
					b0 = 0x80
				}
				h := binary.BigEndian.AppendUint64([]byte{b0, 0xff}, l)
				p.fc.feed(cat(h, maskKey[:], pat(1, 40)))
				p.fc.feed(bin([]byte("x")))
				p.fc.feedEOF()
				_, d, err := p.conn.ReadMessage()
				mustFatal(fmt.Sprintf("read of a frame declaring %d bytes, maximum %d (got %q)", l, m, clip(d)), err)
				if l>>63 != 0 {
					p.expectClosed("declared length", 1009, 1002)
				} else {
					p.expectClosed("declared length", 1009)
				}
			})
			add("default maximum", func() {
				n := 1<<20 + pick([]int{-1, 0, 1})
				u := snapws.NewUpgrader(quiet(nil))
				p := newPeer("c").upgrade(u)
				d := pat(1, n)
				if mc.Choose(2) == 0 {
					p.fc.feed(bin(d))
				} else {
					p.fc.feed(frame(false, opBin, d[:1000]), frame(true, opCont, d[1000:]))
				}
				if n <= 1<<20 {
					p.expectMsg(rapi{"message", 0}, cmsg{opBin, d}, "1 MB message")
					p.expectOpen("1 MB message")
					return
				}
				_, _, err := p.conn.ReadMessage()
				mustFatal("read beyond 1 MB", err)
				p.expectClosed("beyond 1 MB", 1009)
			})
			add("json sizes", func() {
				m := pick([]int{10, 125, 126, 600, 5000})
				n := m + pick([]int{-1, 0, 1, 2, m})
				u := snapws.NewUpgrader(quiet(&snapws.Options{MaxMessageSize: m}))
				p := newPeer("c").upgrade(u)
				d := []byte("\"" + string(tpat(1, n-2)) + "\"")
				k := pick([]int{0, 1, n / 2, n - 1})
				p.fc.feed(frame(false, opText, d[:k]), ping(nil), frame(true, opCont, d[k:]))
				var v string
				err := p.conn.ReadJSON(&v)
				if n <= m {
					mustOK("ReadJSON", err)
					if v != string(d[1:n-1]) {
						mc.Failf("ReadJSON gives %q", clip([]byte(v)))
					}
					p.fc.feed(text("[1]"))
					var w []int
					mustOK("ReadJSON", p.conn.ReadJSON(&w))
					p.expectOpen("json within the limit")
					return
				}
				mustFatal(fmt.Sprintf("ReadJSON of %d bytes with maximum %d", n, m), err)
				p.expectClosed("json too big", 1009)
			})
			add("many fragments", func() {
				f := pick([]int{255, 256, 257, 300, 65536, 70000})
				n := f + mc.Choose(2)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReaderMaxFragments: f}))
				p := newPeer("c").upgrade(u)
				send := func(n int) cmsg {
					var all, b []byte
					for i := 0; i < n; i++ {
						d := tpat(i, i%2)
						all = append(all, d...)
						o := byte(opCont)
						if i == 0 {
							o = opBin
						}
						b = append(b, frame(i == n-1, o, d)...)
						if i < n-1 && i%1000 == 5 {
							b = append(b, ping(nil)...)
						}
					}
					p.fc.feed(b)
					return cmsg{opBin, all}
				}
				m := send(n)
				if n <= f {
					p.expectMsg(rapi{"message", 0}, m, fmt.Sprintf("%d fragments with limit %d", n, f))
					p.expectMsg(rapi{"message", 0}, send(f), fmt.Sprintf("second message of %d fragments with limit %d", f, f))
					p.expectOpen("within the fragment limit")
					return
				}
				_, _, err := p.conn.ReadMessage()
				mustFatal(fmt.Sprintf("read of %d fragments with limit %d", n, f), err)
				p.expectClosed("too many fragments", 1008)
			})
			out[len(out)-1].Cfg.MaxSteps = 2000000
			add("fragment counts", func() {
				f := mc.Choose(5)
				n := 1 + mc.Choose(7)
				a := pick([]rapi{{"message", 0}, {"next", 1}, {"next", 100}})
				ctl := mc.Choose(2) == 1
				sz := pick([]int{0, 1, 3})
				op := pick([]byte{opText, opBin})
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReaderMaxFragments: f, MaxMessageSize: pick([]int{0, -1, 100})}))
				p := newPeer("c").upgrade(u)
				send := func(n int) cmsg {
					var all []byte
					for i := 0; i < n; i++ {
						o := byte(opCont)
						if i == 0 {
							o = op
						}
						d := tpat(i, sz)
						all = append(all, d...)
						p.fc.feed(frame(i == n-1, o, d))
						if ctl && i < n-1 {
							p.fc.feed(ping(nil), pong([]byte("1")))
						}
					}
					return cmsg{op, all}
				}
				if f > 0 {
					// a message given up after j of its fragments does not count
					if j := mc.Choose(f + 1); j > 0 && sz > 0 {
						pre := send(f)
						r, _, err := p.conn.NextReader()
						mustOK("NextReader", err)
						for i := 0; i < j; i++ {
							if m, err := r.Read(make([]byte, sz)); m != min(sz, len(pre.data)) || err != nil && (err != io.EOF || i < f-1) {
								mc.Failf("fragment %d of %d with limit %d: Read returns %d, %v", i, f, f, m, err)
							}
						}
					}
				}
				m := send(n)
				if f == 0 || n <= f {
					p.expectMsg(a, m, fmt.Sprintf("%d fragments with limit %d", n, f))
					k := f
					if k == 0 {
						k = 6
					}
					p.expectMsg(a, send(k), fmt.Sprintf("second message of %d fragments with limit %d", k, f))
					p.expectMsg(a, send(1), "third message")
					p.expectOpen("within the fragment limit")
					return
				}
				_, _, err := a.read(p.conn, op)
				mustFatal(fmt.Sprintf("read of %d fragments with limit %d", n, f), err)
				p.expectClosed("too many fragments", 1008)
				_, _, err = p.conn.NextReader()
				mustFatal("read after too many fragments", err)
			})
			return out
		},
	})
}
