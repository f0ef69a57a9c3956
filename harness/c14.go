package harness

import (
	"bytes"
	"fmt"

	"vh/mc"
	"vh/snapws"
)

// iso is one connection of a family sharing an upgrader. Everything the
// application sends to it is made of its own letter.
type iso struct {
	p      *peer
	id     int
	n      int
	w      *snapws.ConnWriter
	old    *snapws.ConnWriter // finished
	cur    []byte             // written to w
	done   []string           // messages whose send returned nil
	maybe  []string           // begun, outcome not known to be a success
	closed bool
	reads  [][]byte
	copies [][]byte
}

// text returns n fresh bytes only this connection may receive: its letter, then a
// running digit so that no two messages are equal.
func (c *iso) text(n int) []byte {
	c.n++
	b := bytes.Repeat([]byte{byte('A' + c.id)}, n)
	for i := range b {
		if i%3 == 1 {
			b[i] = byte('a' + c.id)
		}
		if i%7 == 2 {
			b[i] = byte('A' + c.id)
		}
	}
	return append(b, fmt.Sprintf("%c%d", 'A'+c.id, c.n)...)
}

func (c *iso) name() string { return fmt.Sprintf("conn %c", 'A'+c.id) }

func (c *iso) send(n int) {
	d := c.text(n)
	keep := string(d)
	c.maybe = append(c.maybe, keep)
	if err := c.p.conn.SendBytes(bg, d); err == nil {
		c.done = append(c.done, keep)
	}
	for i := range d {
		d[i] = '!' // the caller may reuse its buffer
	}
}

func (c *iso) begin() {
	w, err := c.p.conn.NextWriter(bg, opBin)
	if err != nil {
		return
	}
	c.w, c.cur = w, nil
}

func (c *iso) write(n int) {
	if c.w == nil {
		return
	}
	d := c.text(n)
	k, _ := c.w.Write(d)
	c.cur = append(c.cur, d[:k]...)
	for i := range d {
		d[i] = '!'
	}
}

func (c *iso) flush() {
	if c.w != nil {
		c.w.Flush()
	}
}

func (c *iso) end() {
	if c.w == nil {
		return
	}
	c.maybe = append(c.maybe, string(c.cur))
	if err := c.w.Close(); err == nil {
		c.done = append(c.done, string(c.cur))
	}
	c.old, c.w = c.w, nil
}

// stale uses a finished writer again, which must have no effect.
func (c *iso) stale() {
	c.old.Write([]byte("stale"))
	c.old.Flush()
	c.old.Close()
}

func (c *iso) read() {
	c.p.fc.feed(bin(c.text(9)))
	_, d, err := c.p.conn.ReadMessage()
	if err == nil {
		c.reads = append(c.reads, d)
		c.copies = append(c.copies, append([]byte(nil), d...))
	}
}

// own: every byte the client gets in a message was sent to it.
func (c *iso) judge(extra map[string]bool, concurrent bool) {
	w := c.p.wire()
	chk := func(b []byte) {
		for _, x := range b {
			if x >= '0' && x <= '9' || x == byte('A'+c.id) || x == byte('a'+c.id) {
				continue
			}
			mc.Failf("the client of %s receives foreign bytes: %q", c.name(), clip(b))
		}
	}
	di := 0
	for _, m := range w.msgs {
		if extra[string(m.data)] {
			continue
		}
		chk(m.data)
		ok := false
		for _, s := range c.maybe {
			ok = ok || s == string(m.data)
		}
		if !ok {
			mc.Failf("the client of %s receives %q, which was never sent", c.name(), clip(m.data))
		}
		if di < len(c.done) && c.done[di] == string(m.data) {
			di++
		}
	}
	if di < len(c.done) && !concurrent {
		mc.Failf("the client of %s got %d of %d sent messages, next is %q; wire %q", c.name(), di, len(c.done), clip([]byte(c.done[di])), clip(c.p.fc.out[c.p.ws:]))
	}
	if w.open != nil {
		chk(w.open.data)
		ok := bytes.HasPrefix(c.cur, w.open.data)
		for _, s := range c.maybe {
			ok = ok || bytes.HasPrefix([]byte(s), w.open.data)
		}
		if !ok {
			mc.Failf("the client of %s receives %q inside a message that begins %q", c.name(), clip(w.open.data), clip(c.cur))
		}
	}
	for i := range c.reads {
		if !bytes.Equal(c.reads[i], c.copies[i]) {
			mc.Failf("%s: a message read earlier changed to %q, was %q", c.name(), clip(c.reads[i]), clip(c.copies[i]))
		}
	}
	for _, p := range w.closes {
		if len(p) > 2 && string(p[2:]) != "Normal close" {
			mc.Failf("%s: close reason %q", c.name(), clip(p))
		}
	}
}

func isoOptions(mode string) *snapws.Upgrader {
	o := &snapws.Options{WriteBufferSize: 24}
	switch mode {
	case "http buffers":
		o.WriteBufferSize, o.ReadBufferSize = 64, 128
	case "pooling off":
		o.DisableWriteBuffersPooling = true
	}
	return snapws.NewUpgrader(quiet(o))
}

func isoOpen(u *snapws.Upgrader, id int) *iso {
	c := &iso{p: newPeer(fmt.Sprintf("client %c", 'A'+id)), id: id}
	c.p.upgradeSz(u, 128, 64)
	return c
}

func init() {
	Reg(&mc.Property{
		ID:   "C14",
		Rule: "all operation sequences up to the depth over connections of one upgrader (open another, begin, write, flush, end and re-use a message writer, send, read, close; also after closing), for pooled, taken-over and private buffers; all schedules up to the deviation bound of goroutines holding writers, being closed and sending late while further connections open and send, alone, in rooms and under broadcasts. Each connection uses its own alphabet, so a foreign byte on any wire or in any retained message is visible.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			modes := []string{"pooled", "http buffers", "pooling off"}
			for _, mode := range modes {
				depth := 6
				if mode != "pooled" {
					depth = 5
				}
				if th {
					depth++
				}
				out = append(out, mc.Scenario{Name: "sequences " + mode, Bound: 0, Body: func() {
					u := isoOptions(mode)
					cs := []*iso{isoOpen(u, 0)}
					for i := 0; i < depth; i++ {
						// ops: stop, open another, then per connection
						ops := []func(){}
						if len(cs) < 3 {
							ops = append(ops, func() { cs = append(cs, isoOpen(u, len(cs))) })
						}
						for _, c := range cs {
							if c.w == nil && !c.closed {
								ops = append(ops, c.begin, func() { c.send(13) })
							}
							if c.w != nil {
								ops = append(ops, func() { c.write(5) }, func() { c.write(25) }, c.flush, c.end)
							}
							if c.old != nil {
								ops = append(ops, c.stale)
							}
							if !c.closed {
								ops = append(ops, func() { c.p.conn.Close(); c.closed = true })
							} else if c.w == nil {
								ops = append(ops, func() { c.send(13) })
							}
						}
						ops[mc.Choose(len(ops))]()
					}
					for _, c := range cs {
						if c.w == nil && !c.closed {
							c.send(30)
							c.read()
						}
					}
					mc.Quiesce()
					for _, c := range cs {
						c.judge(nil, false)
					}
				}})
			}
			// a connection dies while its writer is held, others reuse what it had
			type part struct {
				name string
				f    func(u *snapws.Upgrader, a *iso, fresh func() *iso)
			}
			parts := []part{
				{"streamer", func(u *snapws.Upgrader, a *iso, fresh func() *iso) {
					a.begin()
					a.write(4)
					a.flush()
					a.write(12)
					a.end()
				}},
				{"sender", func(u *snapws.Upgrader, a *iso, fresh func() *iso) { a.send(26); a.send(3) }},
				{"closer", func(u *snapws.Upgrader, a *iso, fresh func() *iso) { a.p.conn.Close() }},
				{"pinger", func(u *snapws.Upgrader, a *iso, fresh func() *iso) { a.p.conn.Ping() }},
				{"opener", func(u *snapws.Upgrader, a *iso, fresh func() *iso) { b := fresh(); b.begin(); b.write(14); b.end() }},
				{"opener and closer", func(u *snapws.Upgrader, a *iso, fresh func() *iso) { b := fresh(); b.send(14); b.p.conn.Close() }},
				{"late", func(u *snapws.Upgrader, a *iso, fresh func() *iso) {
					a.p.conn.Close()
					b := fresh()
					a.write(9)
					a.flush()
					b.send(15)
				}},
				{"client closes", func(u *snapws.Upgrader, a *iso, fresh func() *iso) {
					a.p.fc.feed(closeFrame(1000, ""))
					a.p.conn.ReadMessage()
				}},
			}
			mk := func(mode string, held bool, sel ...part) func() {
				return func() {
					u := isoOptions(mode)
					a := isoOpen(u, 0)
					a.p.fc.split = true
					cs := []*iso{a}
					fresh := func() *iso {
						id := len(cs)
						cs = append(cs, nil)
						c := &iso{p: newPeer(fmt.Sprintf("client %c", 'A'+id)), id: id}
						cs[id] = c
						c.p.upgradeSz(u, 128, 64)
						c.p.fc.split = true
						return c
					}
					if held {
						a.begin()
						a.write(6)
					}
					var hs []*mc.Handle
					for _, p := range sel {
						hs = append(hs, mc.Spawn(p.name, func() { p.f(u, a, fresh) }))
					}
					mc.Join(hs...)
					d := fresh()
					d.send(17)
					if held {
						a.write(3)
						a.flush()
					}
					mc.Quiesce()
					for _, c := range cs {
						c.judge(nil, true)
					}
					mc.Outcome("%d", len(cs[0].done))
				}
			}
			for _, mode := range modes {
				for i, p := range parts {
					for j, q := range parts {
						if j <= i {
							continue
						}
						for _, held := range []bool{false, true} {
							// a writer belongs to one goroutine
							if held && (p.name == "streamer" || q.name == "streamer" || p.name == "sender" || q.name == "sender") {
								continue
							}
							if !held && p.name == "streamer" && q.name == "late" {
								continue
							}
							b := 2 + b2i(th)
							out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %s + %s held %v", mode, p.name, q.name, held), Bound: b, Body: mk(mode, held, p, q)})
						}
					}
				}
				out = append(out, mc.Scenario{Name: mode + " stream close open", Bound: 2 + b2i(th), Body: mk(mode, false, parts[0], parts[2], parts[4])})
				out = append(out, mc.Scenario{Name: mode + " send close open", Bound: 2 + b2i(th), Body: mk(mode, false, parts[1], parts[7], parts[5])})
				// broadcasts share one frame between the recipients
				for _, kind := range []string{"manager", "room"} {
					for _, ender := range []bool{false, true} {
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s broadcast %s close %v", mode, kind, ender), Bound: 2 + b2i(th), Body: func() {
							u := isoOptions(mode)
							m := snapws.NewManager[int](u)
							rm := snapws.NewRoomManager[int](u)
							var cs []*iso
							rooms := []*snapws.Room[int]{rm.Add(0), rm.Add(1)}
							for i := 0; i < 3; i++ {
								c := &iso{p: newPeer(fmt.Sprintf("client %c", 'A'+i)), id: i}
								if kind == "manager" {
									k, err := m.Connect(i, response(c.p.fc, 128, 64, nil), request())
									mustOK("Connect", err)
									c.p.conn = k.Conn
								} else {
									k, _, err := rm.Connect(response(c.p.fc, 128, 64, nil), request(), i/2)
									mustOK("Connect", err)
									c.p.conn = k
								}
								c.p.shaken()
								c.p.fc.split = true
								cs = append(cs, c)
							}
							got := []map[string]bool{{}, {}, {}}
							bc := func(s string, r int) {
								d := []byte(s)
								if kind == "manager" {
									m.BroadcastBytes(bg, d, 2)
									got[0][s], got[1][s] = true, true
								} else {
									rooms[r].BroadcastBytes(bg, d)
									for i := 0; i < 3; i++ {
										if i/2 == r {
											got[i][s] = true
										}
									}
								}
								for i := range d {
									d[i] = '?'
								}
							}
							hs := []*mc.Handle{
								mc.Spawn("broadcaster", func() { bc("broadcast-one-long-enough", 0); bc("two", 1) }),
								mc.Spawn("sender", func() { cs[0].send(20); cs[2].send(11) }),
							}
							if ender {
								hs = append(hs, mc.Spawn("closer", func() {
									cs[1].p.conn.Close()
									d := isoOpen(u, 3)
									cs = append(cs, d)
									got = append(got, nil)
									d.send(19)
								}))
							}
							mc.Join(hs...)
							mc.Quiesce()
							for i, c := range cs {
								c.judge(got[i], c.closed)
							}
						}})
					}
				}
			}
			return out
		},
	})
}
