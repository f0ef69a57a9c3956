package harness

import (
	"bytes"
	"fmt"

	"vh/mc"
	"vh/snapws"
)

// codePermitted: may the status appear in a close frame? 1012-1014 (registered
// after RFC 6455) are left open and not enumerated.
func codePermitted(c int) bool {
	switch {
	case c >= 1000 && c <= 1003, c >= 1007 && c <= 1011, c >= 3000 && c <= 4999:
		return true
	}
	return false
}

func codeOpen(c int) bool { return c >= 1012 && c <= 1014 }

func closePayload(code int, reason []byte) []byte {
	return append([]byte{byte(code >> 8), byte(code)}, reason...)
}

func init() {
	Reg(&mc.Property{
		ID:     "C06",
		Rule:   "input enumeration: every 16-bit status code, every reason length 0..123, UTF-8 and non-UTF-8 reasons, every payload length, in every message context, read call, buffer size and segmentation; for server-started closes every code and reason lengths 0..130, each followed by every kind of second close.",
		Assume: []string{"status codes 1012-1014 are not enumerated (permitted by the IANA registry, unknown to RFC 6455)"},
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }

			// afterClose checks finality: reads, sends and closes have no effect any more.
			afterClose := func(p *peer, hooks *int, why string, want []byte, codes ...int) {
				w := p.expectClosed(why, codes...)
				if want != nil && !bytes.Equal(w.closes[0], want) {
					mc.Failf("%s: close frame payload % x, want % x", why, clip(w.closes[0]), clip(want))
				}
				n := len(p.fc.out)
				second := mc.Choose(3)
				switch second {
				case 0:
					p.conn.Close()
				case 1:
					p.conn.CloseWithCode(4000, "again")
				case 2:
					p.conn.CloseWithCode(1000, "")
				}
				_, _, err := p.conn.ReadMessage()
				mustFatal(why+": read after close", err)
				_, _, err = p.conn.NextReader()
				mustFatal(why+": NextReader after close", err)
				if p.conn.SendString(bg, []byte("x")) == nil {
					mc.Failf("%s: send after close succeeded", why)
				}
				if len(p.fc.out) != n {
					mc.Failf("%s: %d bytes written after the close", why, len(p.fc.out)-n)
				}
				if *hooks != 1 {
					mc.Failf("%s: disconnect hook ran %d times", why, *hooks)
				}
			}
			// clientClose delivers one close frame in a message context and reads it.
			clientClose := func(payload []byte, ctx, api, rb, seg int) (*peer, *int) {
				hooks := new(int)
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb, OnDisconnect: func(*snapws.Conn) { *hooks++ }}))
				p := newPeer("c").upgrade(u)
				cf := frame(true, opClose, payload)
				var pre []byte
				switch ctx {
				case 1:
					pre = cat(frame(false, opText, []byte("part")))
				case 2:
					pre = cat(ping([]byte("x")), pong(nil))
				case 3:
					pre = text("whole")
				case 4:
					pre = frame(false, opBin, nil)
				}
				p.fc.feed(chunks(cat(pre, cf, text("too late")), seg)...)
				if ctx == 3 {
					p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("whole")}, "before the close")
				}
				exp := byte(opText)
				if ctx == 4 {
					exp = opBin
				}
				a := []rapi{{"message", 0}, {"typed", 0}, {"next", 3}, {"readall", 0}}[api]
				_, d, err := a.read(p.conn, exp)
				mustFatal(fmt.Sprintf("read (%v) up to a close frame (data %q)", a, clip(d)), err)
				return p, hooks
			}
			add("client codes", func() {
				c := mc.Choose(65536)
				if codeOpen(c) {
					return
				}
				r := []byte("bye")[:3*mc.Choose(2)]
				p, h := clientClose(closePayload(c, r), 0, 0, 0, 0)
				if codePermitted(c) {
					afterClose(p, h, fmt.Sprintf("client close %d %q", c, r), closePayload(c, r), c)
				} else {
					afterClose(p, h, fmt.Sprintf("client close %d %q", c, r), nil, 1002)
				}
				mc.Outcome("%v", codePermitted(c))
			})
			add("client payloads", func() {
				n := mc.Choose(126)
				ctx, api := mc.Choose(5), mc.Choose(4)
				rb, seg := pick([]int{0, 16, 130}), pick([]int{0, 1})
				code := pick([]int{1000, 1001, 3000, 4999, 1011})
				pl := closePayload(code, tpat(3, max(n-2, 0)))[:n]
				p, h := clientClose(pl, ctx, api, rb, seg)
				why := fmt.Sprintf("client close, payload of %d bytes, context %d", n, ctx)
				switch n {
				case 0:
					afterClose(p, h, why, nil, 1000)
				case 1:
					afterClose(p, h, why, nil, 1002)
				default:
					afterClose(p, h, why, pl, code)
				}
			})
			add("client reasons", func() {
				// every one- and two-byte reason, and boundary UTF-8 sequences at the end of a long reason
				var r []byte
				switch mc.Choose(3) {
				case 0:
					r = []byte{byte(mc.Choose(256))}
				case 1:
					r = []byte{byte(mc.Choose(256)), pick([]byte{0, 'a', 0x7f, 0x80, 0xa0, 0xbf, 0xc0, 0xc2, 0xff})}
				case 2:
					s := pick([]string{"\xe0\x9f\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xed\xa0\x80", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "κόσμε"})
					n := pick([]int{0, 1, 123 - len(s)})
					r = append(tpat(1, n), s...)
				}
				p, h := clientClose(closePayload(1000, r), mc.Choose(2), 0, 0, 0)
				why := fmt.Sprintf("client close with reason % x", clip(r))
				if utf8ok(r) {
					afterClose(p, h, why, closePayload(1000, r), 1000)
				} else {
					afterClose(p, h, why, nil, 1002)
				}
			})
			server := func(c int, r []byte) {
				hooks := new(int)
				u := snapws.NewUpgrader(quiet(&snapws.Options{OnDisconnect: func(*snapws.Conn) { *hooks++ }}))
				p := newPeer("c").upgrade(u)
				p.conn.CloseWithCode(uint16(c), string(r))
				want := c
				if !codePermitted(c) {
					want = 1001
				}
				pl := closePayload(want, r)
				if len(r) > 123 {
					pl = pl[:2]
				}
				afterClose(p, hooks, fmt.Sprintf("CloseWithCode(%d, %d-byte reason)", c, len(r)), pl, want)
			}
			add("server codes", func() {
				c := mc.Choose(65536)
				if codeOpen(c) {
					return
				}
				server(c, []byte("why")[:3*mc.Choose(2)])
			})
			add("server reasons", func() {
				n := mc.Choose(131)
				server(pick([]int{1000, 1006, 4321}), tpat(2, n))
			})
			add("server after control frames", func() {
				// the control buffer is shared with pings and pongs of other lengths
				hooks := new(int)
				u := snapws.NewUpgrader(quiet(&snapws.Options{OnDisconnect: func(*snapws.Conn) { *hooks++ }}))
				p := newPeer("c").upgrade(u)
				for i := 0; i < 2; i++ {
					switch mc.Choose(3) {
					case 0:
						p.fc.feed(ping(pat(i, pick([]int{0, 5, 125}))), text("t"))
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("t")}, "message")
					case 1:
						p.conn.Ping()
					case 2:
						mustOK("send", p.conn.SendString(bg, []byte("out")))
					}
				}
				r := tpat(9, pick([]int{0, 1, 60, 123}))
				if mc.Choose(2) == 0 {
					p.conn.CloseWithCode(1008, string(r))
					afterClose(p, hooks, "close after control frames", closePayload(1008, r), 1008)
				} else {
					p.fc.feed(frame(true, opClose, closePayload(1003, r)))
					_, _, err := p.conn.ReadMessage()
					mustFatal("read of a close frame", err)
					afterClose(p, hooks, "client close after control frames", closePayload(1003, r), 1003)
				}
			})
			add("plain Close", func() {
				hooks := new(int)
				u := snapws.NewUpgrader(quiet(&snapws.Options{OnDisconnect: func(*snapws.Conn) { *hooks++ }}))
				p := newPeer("c").upgrade(u)
				p.conn.Close()
				afterClose(p, hooks, "Close", nil, 1000)
			})
			b := 2
			if th {
				b = 3
			}
			// both sides close at the same time: still one close frame, with the
			// status of either
			out = append(out, mc.Scenario{Name: "both sides", Bound: b, Body: func() {
				hooks := new(int)
				u := snapws.NewUpgrader(quiet(&snapws.Options{OnDisconnect: func(*snapws.Conn) { *hooks++ }}))
				p := newPeer("c").upgrade(u)
				p.fc.split = true
				p.fc.feed(frame(true, opClose, closePayload(3001, []byte("client"))))
				h := mc.Spawn("closer", func() { p.conn.CloseWithCode(3002, "server") })
				_, _, err := p.conn.ReadMessage()
				mustFatal("read", err)
				mc.Join(h)
				mc.Quiesce()
				w := p.expectClosed("both sides closing", 3001, 3002)
				c := closeCode(w.closes[0])
				want := map[int]string{3001: "client", 3002: "server"}[c]
				if string(w.closes[0][2:]) != want {
					mc.Failf("status %d sent with the reason %q of the other close", c, w.closes[0][2:])
				}
				if *hooks != 1 {
					mc.Failf("disconnect hook ran %d times", *hooks)
				}
				mc.Outcome("%d", c)
			}})
			return out
		},
	})
}
