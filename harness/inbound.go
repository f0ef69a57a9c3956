package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"

	"vh/mc"
	"vh/snapws"
)

func pick[T any](xs []T) T { return xs[mc.Choose(len(xs))] }

func seq(a, b int) []int {
	var o []int
	for i := a; i <= b; i++ {
		o = append(o, i)
	}
	return o
}

// rapi is one way for the application to read a whole message.
type rapi struct {
	name string
	k    int
}

func (a rapi) String() string { return fmt.Sprintf("%s/%d", a.name, a.k) }

// readAllK reads a message reader to its end with a k-byte buffer.
func readAllK(r io.Reader, k int) ([]byte, error) {
	var data []byte
	buf := make([]byte, k)
	idle := 0
	for {
		for i := range buf {
			buf[i] = 0xEE
		}
		n, err := r.Read(buf)
		if n < 0 || n > k {
			mc.Failf("Read returned n=%d for a %d-byte buffer", n, k)
		}
		data = append(data, buf[:n]...)
		if err == io.EOF {
			return data, nil
		}
		if err != nil {
			return data, err
		}
		if n == 0 {
			if idle++; idle > 1000 {
				mc.Failf("message reader keeps returning 0, nil")
			}
		} else {
			idle = 0
		}
	}
}

// read reads one message expected to be of type op.
func (a rapi) read(c *snapws.Conn, op byte) (byte, []byte, error) {
	switch a.name {
	case "message":
		return c.ReadMessage()
	case "typed":
		if op == opText {
			b, err := c.ReadString()
			return opText, b, err
		}
		b, err := c.ReadBinary()
		return opBin, b, err
	case "next":
		r, t, err := c.NextReader()
		if err != nil {
			return t, nil, err
		}
		b, err := readAllK(r, a.k)
		return t, b, err
	case "readall":
		r, t, err := c.NextReader()
		if err != nil {
			return t, nil, err
		}
		b, err := io.ReadAll(r)
		return t, b, err
	case "json":
		var v any
		err := c.ReadJSON(&v)
		b, _ := json.Marshal(v)
		return opText, b, err
	}
	panic(a.name)
}

type cmsg struct {
	op   byte
	data []byte
}

func (p *peer) expectMsg(a rapi, m cmsg, why string) {
	op, data, err := a.read(p.conn, m.op)
	if err != nil {
		mc.Failf("%s: reading (%v) a valid message of %d bytes fails: %v", why, a, len(m.data), err)
	}
	if op != m.op {
		mc.Failf("%s: message type %d, want %d", why, op, m.op)
	}
	if a.name == "json" {
		var x, y any
		if json.Unmarshal(data, &x) != nil || json.Unmarshal(m.data, &y) != nil || !reflect.DeepEqual(x, y) {
			mc.Failf("%s: JSON message %q read as %q", why, clip(m.data), clip(data))
		}
		return
	}
	if !bytes.Equal(data, m.data) {
		mc.Failf("%s: payload read (%v) differs: got %d bytes %q, sent %d bytes %q", why, a, len(data), clip(data), len(m.data), clip(m.data))
	}
}

// chunks splits a stream into network segments of k bytes (0: one segment).
func chunks(b []byte, k int) [][]byte {
	if k <= 0 {
		return [][]byte{b}
	}
	var o [][]byte
	for len(b) > k {
		o = append(o, b[:k])
		b = b[k:]
	}
	return append(o, b)
}

func payload(op byte, seed, n int) []byte {
	if op == opText {
		return tpat(seed, n)
	}
	return pat(seed, n)
}

var keys = [][4]byte{maskKey, {0, 0, 0, 0}, {0xff, 0x01, 0x80, 0x7e}, {1, 2, 3, 4}}

func boundarySizes(tier string) []int {
	s := append(seq(0, 135), 254, 255, 256, 257, 300, 511, 512, 513, 1000)
	if tier == "thorough" {
		s = append(seq(0, 600), 1023, 1024, 1025)
	}
	return append(s, 4095, 4096, 4097, 65535, 65536, 65537, 70000)
}

func init() {
	Reg(&mc.Property{
		ID:   "C01",
		Rule: "input enumeration: every combination of the listed message sizes, fragmentations, masks, control frames in the gaps, network segmentations, read calls, reader buffer sizes and read-buffer options; every truncation point; every pair of split points.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) {
				out = append(out, mc.Scenario{Name: name, Body: body})
			}
			apis := []rapi{{"message", 0}, {"typed", 0}, {"readall", 0}, {"next", 1}, {"next", 3}, {"next", 64}, {"next", 5000}}
			rbs := []int{0, 16, 64, 1000}
			if th {
				apis = append(apis, rapi{"next", 2}, rapi{"next", 7}, rapi{"next", 125}, rapi{"next", 126}, rapi{"next", 4096})
				rbs = append(rbs, 14, 15, 32, 128, 4095, 4097)
			}
			// 1. one frame of every size, then a second message
			for _, rb := range rbs {
				add(fmt.Sprintf("sizes rbuf=%d", rb), func() {
					n := pick(boundarySizes(tier))
					op := pick([]byte{opText, opBin})
					a := pick(apis)
					key := keys[n%len(keys)]
					k := pick([]int{0, 1, 7, 1460})
					if n > 1100 && (k == 1 || k == 7 || a.name == "next" && a.k < 60) {
						k = 1460
						if a.k < 60 && a.name == "next" {
							a.k = 1000
						}
					}
					u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
					p := newPeer("c").upgrade(u)
					m := cmsg{op, payload(op, 1, n)}
					p.fc.feed(chunks(cat(frameM(true, op, m.data, key), bin([]byte("next"))), k)...)
					p.expectMsg(a, m, "first message")
					p.expectMsg(a, cmsg{opBin, []byte("next")}, "second message")
					p.expectOpen("after valid messages")
					mc.Outcome("%d %v", n, a)
				})
			}
			// 2. unmasking at every alignment: frame size x reader buffer size x segment size
			maxN := 140
			if th {
				maxN = 400
			}
			add("mask alignment", func() {
				n := mc.Choose(maxN + 1)
				k := pick(append(seq(1, 35), 63, 64, 65, 127, 128, 129, 130, 131))
				u := snapws.NewUpgrader(quiet(nil))
				p := newPeer("c").upgrade(u)
				m := cmsg{opBin, pat(3, n)}
				p.fc.feed(chunks(frame(true, opBin, m.data), pick([]int{0, 5, 11}))...)
				p.expectMsg(rapi{"next", k}, m, "masked message")
				mc.Outcome("%d/%d", n, k)
			})
			// 3. fragmentation with control frames in the gaps
			sizes := []int{0, 1, 2, 7, 125, 126}
			if th {
				sizes = append(sizes, 3, 64, 130, 300)
			}
			gaps := []string{"none", "ping", "pong", "2pings", "bigping"}
			gap := func(g string, i int) []byte {
				switch g {
				case "ping":
					return ping([]byte{byte(i), 1, 2})
				case "pong":
					return pong(pat(i, 5))
				case "2pings":
					return cat(ping(nil), ping(pat(i, 9)))
				case "bigping":
					return ping(pat(i, 125))
				}
				return nil
			}
			maxFrag := 3
			if th {
				maxFrag = 4
			}
			for nf := 1; nf <= maxFrag; nf++ {
				nf := nf
				add(fmt.Sprintf("fragments n=%d", nf), func() {
					op := pick([]byte{opText, opBin})
					a := pick([]rapi{{"message", 0}, {"next", 1}, {"next", 5}, {"next", 1000}})
					var stream, all []byte
					szs := sizes
					if nf >= 3 && !th || nf >= 4 {
						szs = []int{0, 1, 7, 126}
					}
					var gp string
					for i := 0; i < nf; i++ {
						n := pick(szs)
						if nf < 3 || i == 1 || th && nf == 3 {
							gp = pick(gaps)
						}
						d := payload(op, i+1, n)
						all = append(all, d...)
						o := byte(opCont)
						if i == 0 {
							o = op
						}
						stream = cat(stream, gap(gp, i), frameM(i == nf-1, o, d, keys[i%len(keys)]))
					}
					stream = cat(stream, ping([]byte("z")), text("after"))
					u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 16})}))
					p := newPeer("c").upgrade(u)
					p.fc.feed(chunks(stream, pick([]int{0, 9}))...)
					p.expectMsg(a, cmsg{op, all}, "fragmented message")
					p.expectMsg(a, cmsg{opText, []byte("after")}, "message after")
					p.expectOpen("after valid messages")
					mc.Outcome("%d", len(all))
				})
			}
			// 4. every pair of network split points
			split := cat(frame(false, opText, []byte("héll")), ping([]byte("pp")), frame(true, opCont, []byte("o!")), bin(pat(2, 130)), text("{\"a\":[1,2]}"), pong(nil), frame(true, opBin, nil), text("end"))
			for _, rb := range []int{0, 16, 130} {
				add(fmt.Sprintf("splits rbuf=%d", rb), func() {
					i := mc.Choose(len(split) + 1)
					j := i + mc.Choose(len(split)+1-i)
					if !th && rb != 16 && (i*7+j)%3 != 0 {
						return
					}
					a := pick([]rapi{{"message", 0}, {"next", 4}})
					u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
					p := newPeer("c").upgrade(u)
					p.fc.feed(split[:i], split[i:j], split[j:])
					p.expectMsg(a, cmsg{opText, []byte("héllo!")}, "m1")
					p.expectMsg(a, cmsg{opBin, pat(2, 130)}, "m2")
					p.expectMsg(rapi{"json", 0}, cmsg{opText, []byte("{\"a\":[1,2]}")}, "m3")
					p.expectMsg(a, cmsg{opBin, nil}, "m4")
					p.expectMsg(a, cmsg{opText, []byte("end")}, "m5")
					p.expectOpen("after valid messages")
				})
			}
			// 5. every truncation point
			type tm struct {
				m   cmsg
				end int
			}
			var tr []byte
			var tms []tm
			addM := func(m cmsg, fr ...[]byte) {
				tr = cat(append([][]byte{tr}, fr...)...)
				tms = append(tms, tm{m, len(tr)})
			}
			addM(cmsg{opText, []byte("one")}, text("one"))
			addM(cmsg{opBin, []byte("abcdef")}, frame(false, opBin, []byte("ab")), frame(false, opCont, nil), ping([]byte("x")), frame(true, opCont, []byte("cdef")))
			addM(cmsg{opBin, pat(1, 130)}, bin(pat(1, 130)))
			addM(cmsg{opText, nil}, text(""))
			addM(cmsg{opText, []byte("last")}, frame(false, opText, []byte("last")), frame(true, opCont, nil))
			add("truncation", func() {
				cut := mc.Choose(len(tr) + 1)
				a := pick([]rapi{{"message", 0}, {"typed", 0}, {"readall", 0}, {"next", 1}, {"next", 3}, {"next", 500}})
				end := pick([]string{"eof", "err"})
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: pick([]int{0, 16})}))
				p := newPeer("c").upgrade(u)
				p.fc.feed(chunks(tr[:cut], pick([]int{0, 4}))...)
				if end == "eof" {
					p.fc.feedEOF()
				} else {
					p.fc.feedErr(errIO)
				}
				for i, t := range tms {
					if t.end > cut {
						break
					}
					p.expectMsg(a, t.m, fmt.Sprintf("message %d before the cut", i))
				}
				op := byte(opText)
				if cut < len(tr) {
					for _, t := range tms {
						if t.end > cut {
							op = t.m.op
							break
						}
					}
				}
				_, _, err := a.read(p.conn, op)
				mustFatal(fmt.Sprintf("read of a message cut at byte %d", cut), err)
				if !p.fc.closed {
					mc.Failf("transport still open after a fatal read error")
				}
				_, _, err = a.read(p.conn, op)
				mustFatal("read after the stream ended", err)
			})
			// 6. sequences of messages with a different read call each
			shapes := []struct {
				m  cmsg
				fr []byte
			}{
				{cmsg{opText, []byte("plain")}, text("plain")},
				{cmsg{opBin, nil}, bin(nil)},
				{cmsg{opText, []byte("[1,{\"k\":\"v\"}]")}, cat(frame(false, opText, []byte("[1,{\"k")), ping([]byte("q")), frame(true, opCont, []byte("\":\"v\"}]")))},
				{cmsg{opBin, pat(1, 126)}, bin(pat(1, 126))},
				{cmsg{opBin, pat(5, 20)}, cat(frame(false, opBin, pat(5, 20)), frame(true, opCont, nil))},
			}
			ways := []rapi{{"message", 0}, {"typed", 0}, {"next", 2}, {"next", 4096}, {"json", 0}}
			depth := 3
			if th {
				depth = 4
			}
			add("sequences", func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: 20}))
				p := newPeer("c").upgrade(u)
				for i := 0; i < depth; i++ {
					s := shapes[mc.Choose(len(shapes))]
					w := ways[mc.Choose(len(ways))]
					if w.name == "json" && s.m.data == nil || w.name == "json" && s.m.data[0] != '[' {
						w = rapi{"readall", 0}
					}
					p.fc.feed(s.fr)
					p.expectMsg(w, s.m, fmt.Sprintf("message %d (%v)", i, w))
				}
				p.expectOpen("after valid messages")
			})
			return out
		},
	})
}

// Reg registers a property with the checker.
func Reg(p *mc.Property) {
	f := p.Scenarios
	p.Scenarios = func(tier string) []mc.Scenario {
		l := f(tier)
		if more := scale[p.ID]; more != nil {
			for _, s := range more(tier == "thorough") {
				s.Once = true
				l = append(l, s)
			}
		}
		if more := legal[p.ID]; more != nil {
			l = append(l, more(tier == "thorough")...)
		}
		return l
	}
	mc.Register(p)
}
