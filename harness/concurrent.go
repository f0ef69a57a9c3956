package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// mix is one managed connection used by several goroutines at once.
type mix struct {
	u        *snapws.Upgrader
	m        *snapws.Manager[string]
	p        *peer
	hooks    int // disconnect hook calls
	sent     []*sentMsg
	open     map[string]bool // payload prefixes of messages that were never finished
	inOK     []string        // messages the reader got
	strict   bool            // every operation must succeed
	readE    error
	readDone bool
}

type sentMsg struct {
	actor string
	op    byte
	data  string
	err   error
	done  bool // the call returned
	batch bool
	bcast bool
	hit   bool // its transport call was made to fail
}

type mixOpts struct {
	o       snapws.Options
	batch   bool
	split   bool
	strict  bool
	onClose func(x *mix)
}

const flushEvery = 50 * time.Millisecond

func newMix(mo mixOpts) *mix {
	x := &mix{open: map[string]bool{}, strict: mo.strict}
	o := mo.o
	o.OnDisconnect = func(c *snapws.Conn) {
		x.hooks++
		if mo.onClose != nil {
			mo.onClose(x)
		}
	}
	if o.WriteBufferSize == 0 {
		o.WriteBufferSize = 24 // 10 bytes per fragment
	}
	if mo.batch && o.WriteWait == 0 {
		o.WriteWait = time.Hour // early clock advances are for the flush ticks
	}
	x.u = snapws.NewUpgrader(quiet(&o))
	if mo.batch {
		x.u.EnablePrefixBatching(bg, flushEvery)
	}
	x.m = snapws.NewManager[string](x.u)
	x.p = newPeer("c")
	mc0, err := x.m.Connect("k", response(x.p.fc, 4096, 4096, nil), request())
	mustOK("Connect", err)
	x.p.conn = mc0.Conn
	x.p.shaken()
	x.p.fc.split = mo.split
	return x
}

func (x *mix) rec(actor string, op byte, data string, f func() error) {
	s := &sentMsg{actor: actor, op: op, data: data}
	x.sent = append(x.sent, s)
	s.err = f()
	s.done = true
	if s.err != nil && x.strict {
		mc.Failf("%s: sending failed: %v", actor, s.err)
	}
}

// act runs one kind of application goroutine. id makes payloads unique.
func (x *mix) act(kind string, id int) {
	c := x.p.conn
	name := fmt.Sprintf("%s%d", kind, id)
	switch kind {
	case "bytes":
		for i, n := range []int{3, 22} {
			d := name + ":" + string(tpat(i+id, n))
			x.rec(name, opBin, d, func() error { return c.SendBytes(bg, []byte(d)) })
		}
	case "short":
		d := name + "!"
		x.rec(name, opText, d, func() error { return c.SendString(bg, []byte(d)) })
	case "json":
		d := fmt.Sprintf("{\"%s\":\"%s\"}\n", name, tpat(id, 14))
		x.rec(name, opText, d, func() error { return c.SendJSON(bg, map[string]string{name: string(tpat(id, 14))}) })
	case "stream":
		parts := []string{name + ":", string(tpat(id, 13)), "end"}
		x.rec(name, opText, strings.Join(parts, ""), func() error {
			w, err := c.NextWriter(bg, opText)
			if err != nil {
				return err
			}
			var first error
			for i, s := range parts {
				if _, err := w.Write([]byte(s)); err != nil && first == nil {
					first = err
				}
				if i == 0 {
					if err := w.Flush(); err != nil && first == nil {
						first = err
					}
				}
			}
			if err := w.Close(); err != nil && first == nil {
				first = err
			}
			if err := w.Close(); err != nil { // as a deferred one would
				mc.Failf("the second Close of a writer returns %v", err)
			}
			return first
		})
	case "open":
		// a message that is begun and never finished
		w, err := c.NextWriter(bg, opText)
		if err != nil {
			return
		}
		x.open[name+":"] = true
		w.Write([]byte(name + ":"))
		w.Flush()
		w.Write([]byte("more"))
	case "bcast":
		for i := 0; i < 2; i++ {
			d := fmt.Sprintf("%s.%d:%s", name, i, tpat(id, 12))
			s := &sentMsg{actor: name, op: opText, data: d, bcast: true}
			x.sent = append(x.sent, s)
			n, err := x.m.BroadcastString(bg, []byte(d))
			s.done = true
			s.err = err
			if x.strict && (n != 1 || err != nil) {
				mc.Failf("%s: broadcast to one open connection returned %d, %v", name, n, err)
			}
			if n == 0 && err == nil {
				s.err = fmt.Errorf("not queued")
			}
		}
	case "batch":
		for i := 0; i < 2; i++ {
			d := fmt.Sprintf("%s.%d:%s", name, i, tpat(id, 4))
			s := &sentMsg{actor: name, op: opBin, data: d, batch: true}
			x.sent = append(x.sent, s)
			s.err = c.Batch([]byte(d))
			s.done = true
			if x.strict {
				mustOK(name+": Batch", s.err)
			}
		}
	case "ping":
		err := c.Ping()
		if x.strict {
			mustOK("Ping", err)
		}
	case "reader":
		x.readLoop(3)
	case "meta":
		c.MetaData.Store("k"+name, id)
		c.MetaData.Load("k" + name)
	default:
		panic("actor " + kind)
	}
}

func (x *mix) readLoop(n int) {
	for i := 0; i < n; i++ {
		_, d, err := x.p.conn.ReadMessage()
		if err != nil {
			x.readE = err
			break
		}
		x.inOK = append(x.inOK, string(d))
	}
	x.readDone = true
}

// judge compares the client's view with what the application did.
func (x *mix) judge(w *wire) {
	count := map[string]int{}
	pos := map[string]int{}
	n := 0
	add := func(op byte, d string) {
		k := fmt.Sprintf("%d|%s", op, d)
		count[k]++
		pos[k] = n
		n++
	}
	for _, m := range w.msgs {
		if m.op == opBin && len(m.data) >= 4 && m.data[0] == 0 {
			// a batch of length-prefixed records
			b := m.data
			for len(b) > 0 {
				if len(b) < 4 {
					mc.Failf("truncated batch record % x", clip(m.data))
				}
				l := int(binary.BigEndian.Uint32(b))
				if len(b) < 4+l {
					mc.Failf("truncated batch record % x", clip(m.data))
				}
				add(opBin, string(b[4:4+l]))
				b = b[4+l:]
			}
			continue
		}
		add(m.op, string(m.data))
	}
	known := 0
	last := map[string]int{}
	for _, s := range x.sent {
		k := fmt.Sprintf("%d|%s", s.op, s.data)
		c := count[k]
		known += c
		if c > 1 {
			mc.Failf("%s: message %q arrived %d times", s.actor, s.data, c)
		}
		if c == 0 && s.done && s.err == nil && !s.batch && !s.bcast {
			mc.Failf("%s: message %q was sent without error but never arrived; client got %q", s.actor, s.data, w.msgs)
		}
		if c == 0 && s.done && s.err == nil && x.strict {
			mc.Failf("%s: accepted message %q never arrived; client got %q", s.actor, s.data, w.msgs)
		}
		if c == 1 {
			if l, ok := last[s.actor]; ok && pos[k] < l {
				mc.Failf("%s: message %q arrived before an earlier one", s.actor, s.data)
			}
			last[s.actor] = pos[k]
		}
	}
	if known != n {
		mc.Failf("client got %d messages, %d of them were sent: %q", n, known, w.msgs)
	}
	if w.open != nil {
		ok := false
		for k := range x.open {
			ok = ok || strings.HasPrefix(string(w.open.data), k) || strings.HasPrefix(k, string(w.open.data))
		}
		for _, s := range x.sent {
			ok = ok || s.err != nil && strings.HasPrefix(s.data, string(w.open.data))
		}
		if !ok {
			mc.Failf("unfinished message %q on the wire", w.open.data)
		}
	}
}

// settle lets n flush intervals pass; everything runnable runs in between.
func settle(n int) {
	for i := 0; i < n; i++ {
		mc.Quiesce()
		mc.SleepNs(flushEvery.Nanoseconds())
	}
	mc.Quiesce()
}

// pairs enumerates unordered pairs (with repetition) of kinds.
func pairs(kinds []string) [][]string {
	var out [][]string
	for i, a := range kinds {
		for _, b := range kinds[i:] {
			out = append(out, []string{a, b})
		}
	}
	return out
}

func triples(kinds []string) [][]string {
	var out [][]string
	for i, a := range kinds {
		for j := i; j < len(kinds); j++ {
			for k := j; k < len(kinds); k++ {
				out = append(out, []string{a, kinds[j], kinds[k]})
			}
		}
	}
	return out
}

func has(l []string, k string) bool {
	for _, s := range l {
		if s == k {
			return true
		}
	}
	return false
}

func hasDup(l []string, k string) bool {
	n := 0
	for _, s := range l {
		if s == k {
			n++
		}
	}
	return n > 1
}

func init() {
	Reg(&mc.Property{
		ID:   "C08",
		Rule: "every pair (and triple) of concurrent senders of the kinds convenience send, JSON, streaming writer with flush, broadcast, batch, server ping, reader answering client pings; all schedules up to the deviation bound, with transport writes split in two; the client's view is parsed strictly and matched against what was sent.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			kinds := []string{"bytes", "json", "stream", "bcast", "batch", "ping", "reader"}
			run := func(as []string, split bool) func() {
				return func() {
					x := newMix(mixOpts{batch: has(as, "batch"), split: split, strict: true})
					var pings [][]byte
					if has(as, "reader") {
						pings = [][]byte{pat(1, 5), pat(2, 60)}
						x.p.fc.feed(ping(pings[0]), frame(false, opText, []byte("a")), ping(pings[1]), frame(true, opCont, []byte("b")), text("c"), bin(nil))
					}
					var hs []*mc.Handle
					for i, a := range as {
						hs = append(hs, mc.Spawn(a, func() { x.act(a, i) }))
					}
					mc.Join(hs...)
					if has(as, "batch") {
						settle(6)
					}
					mc.Quiesce()
					w := x.p.expectOpen("concurrent senders")
					if len(w.tail) > 0 {
						mc.Failf("incomplete frame % x on the wire", clip(w.tail))
					}
					x.judge(w)
					if w.open != nil {
						mc.Failf("unfinished message on the wire")
					}
					np := 0
					if has(as, "ping") {
						np = 1
					}
					if len(w.pings) != np {
						mc.Failf("%d pings, want %d", len(w.pings), np)
					}
					for _, p := range w.pings {
						if len(p) != 0 {
							mc.Failf("ping with payload % x", p)
						}
					}
					if len(w.pongs) != len(pings) {
						mc.Failf("%d pongs, want %d", len(w.pongs), len(pings))
					}
					for i := range pings {
						if !bytes.Equal(pings[i], w.pongs[i]) {
							mc.Failf("pong %d is % x, want % x", i, clip(w.pongs[i]), clip(pings[i]))
						}
					}
					if has(as, "reader") && fmt.Sprint(x.inOK) != "[ab c ]" {
						mc.Failf("reader got %q, err %v", x.inOK, x.readE)
					}
					mc.Outcome("%v", w.order)
				}
			}
			for _, as := range pairs(kinds) {
				if hasDup(as, "reader") || hasDup(as, "ping") {
					continue
				}
				b := 3
				if has(as, "batch") {
					b = 2
				}
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("pair %v", as), Bound: b, Cfg: mc.Config{TimeDev: has(as, "batch")}, Body: run(as, true)})
			}
			for _, as := range triples(kinds) {
				if hasDup(as, "reader") || hasDup(as, "ping") {
					continue
				}
				if !th && (as[0] == as[1] || as[1] == as[2]) {
					continue
				}
				b := 2
				if has(as, "batch") {
					b = 1
				}
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: fmt.Sprintf("triple %v", as), Bound: b, Cfg: mc.Config{TimeDev: has(as, "batch")}, Body: run(as, true)})
			}
			return out
		},
	})
	regC09()
}

var _ = context.Background
var _ = net.ErrClosed
