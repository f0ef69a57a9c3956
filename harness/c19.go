package harness

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// batcher is an upgrader with batching and what its connections should receive.
type batcher struct {
	u     *snapws.Upgrader
	how   string
	ps    []*peer
	calls []sendCall // of the custom sender
	pre   []byte
	suf   []byte
	fixes []fixCall

	custom func(b *batcher, c *snapws.Conn, msgs [][]byte) error
}

func (b *batcher) enable(ctx context.Context) {
	switch b.how {
	case "json":
		b.u.EnableJSONBatching(ctx, flushEvery)
	case "length":
		b.u.EnablePrefixBatching(ctx, flushEvery)
	case "custom":
		b.u.EnableBatching(ctx, flushEvery, func(ctx context.Context, c *snapws.Conn, msgs [][]byte) error {
			if ctx.Value(bctxKey{}) != "flusher" {
				mc.Failf("the custom sender gets another context than the flusher's")
			}
			b.calls = append(b.calls, sendCall{c, strs(msgs)})
			if b.custom != nil {
				return b.custom(b, c, msgs)
			}
			return nil
		})
	}
}

type sendCall struct {
	conn *snapws.Conn
	msgs []string
}

type fixCall struct {
	conn *snapws.Conn
	msgs []string
	what string
}

type bctxKey struct{}

var bctx = context.WithValue(bg, bctxKey{}, "flusher")

func strs(b [][]byte) []string {
	var l []string
	for _, m := range b {
		l = append(l, string(m))
	}
	return l
}

// newBatcher enables batching. fix: "", "prefix", "suffix", "both", "nil" (the
// functions return nil) and "empty".
func newBatcher(how, fix string, o snapws.Options, custom func(b *batcher, c *snapws.Conn, msgs [][]byte) error) *batcher {
	b := &batcher{how: how}
	if o.WriteWait == 0 {
		o.WriteWait = time.Hour
	}
	b.u = snapws.NewUpgrader(quiet(&o))
	b.custom = custom
	b.enable(bctx)
	if fix == "prefix" || fix == "both" {
		b.pre = []byte(`"head"`)
	}
	if fix == "suffix" || fix == "both" {
		b.suf = []byte(`{"tail":1}`)
	}
	if fix == "empty" && how == "length" {
		b.pre, b.suf = []byte{}, []byte{}
	}
	if b.pre != nil || fix == "nil" {
		b.u.Flusher.BatchPrefixFunc = func(c *snapws.Conn, m [][]byte) []byte {
			b.fixes = append(b.fixes, fixCall{c, strs(m), "prefix"})
			return b.pre
		}
	}
	if b.suf != nil || fix == "nil" {
		b.u.Flusher.BatchSuffixFunc = func(c *snapws.Conn, m [][]byte) []byte {
			b.fixes = append(b.fixes, fixCall{c, strs(m), "suffix"})
			return b.suf
		}
	}
	return b
}

func (b *batcher) open() *peer {
	p := newPeer(fmt.Sprintf("client%d", len(b.ps)))
	p.upgrade(b.u)
	b.ps = append(b.ps, p)
	return p
}

// encode is what one batch looks like on the wire.
func (b *batcher) encode(msgs []string) string {
	var items []string
	if b.pre != nil {
		items = append(items, string(b.pre))
	}
	items = append(items, msgs...)
	if b.suf != nil {
		items = append(items, string(b.suf))
	}
	if b.how == "json" {
		return "[" + strings.Join(items, ",") + "]"
	}
	var out []byte
	for _, s := range items {
		out = binary.BigEndian.AppendUint32(out, uint32(len(s)))
		out = append(out, s...)
	}
	return string(out)
}

// decode splits what connection i received into batches of messages.
func (b *batcher) decode(i int) [][]string {
	var out [][]string
	p := b.ps[i]
	if b.how == "custom" {
		for _, c := range b.calls {
			if c.conn == p.conn {
				out = append(out, c.msgs)
			}
		}
		return out
	}
	for _, m := range p.wire().msgs {
		if m.op != opBin {
			continue // not a batch
		}
		var items []string
		if b.how == "json" {
			var raw []json.RawMessage
			if err := json.Unmarshal(m.data, &raw); err != nil {
				mc.Failf("client %d gets a batch that is no JSON array: %q", i, clip(m.data))
			}
			for _, r := range raw {
				items = append(items, string(r))
			}
		} else {
			d := m.data
			for len(d) > 0 {
				if len(d) < 4 || len(d)-4 < int(binary.BigEndian.Uint32(d)) {
					mc.Failf("client %d gets a broken length-prefixed batch % x", i, clip(m.data))
				}
				n := int(binary.BigEndian.Uint32(d))
				items = append(items, string(d[4:4+n]))
				d = d[4+n:]
			}
		}
		if b.pre != nil {
			if len(items) == 0 || items[0] != string(b.pre) {
				mc.Failf("client %d: batch %q does not begin with the prefix", i, clip(m.data))
			}
			items = items[1:]
		}
		if b.suf != nil {
			if len(items) == 0 || items[len(items)-1] != string(b.suf) {
				mc.Failf("client %d: batch %q does not end with the suffix", i, clip(m.data))
			}
			items = items[:len(items)-1]
		}
		if b.encode(items) != string(m.data) {
			mc.Failf("client %d: batch is %q, want %q", i, clip(m.data), b.encode(items))
		}
		out = append(out, items)
	}
	return out
}

func sizes(l []string) int {
	n := 0
	for _, s := range l {
		n += len(s)
	}
	return n
}

// jmsg is a JSON value of n >= 3 bytes, unique by id.
func jmsg(id, n int) string {
	s := fmt.Sprintf("%d", id)
	s += strings.Repeat("x", max(0, n-2-len(s)))
	return `"` + s + `"`
}

func init() {
	Reg(&mc.Property{
		ID:   "C19",
		Rule: "every format with every prefix/suffix configuration and message sets of every small size including empty ones, over several write-buffer sizes; all histories up to the depth of batching messages of several sizes, letting time pass and sending other messages, compared batch by batch with a reference batcher in virtual time; concurrent batchers, senders, batch broadcasts, flush ticks at every moment, slow and broken clients under all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			hows := []string{"json", "length", "custom"}
			for _, how := range hows {
				for _, fix := range []string{"", "prefix", "suffix", "both", "nil", "empty"} {
					if how == "custom" && fix != "" {
						continue
					}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("format %s fixes %q", how, fix), Bound: 0, Body: func() {
						n := 1 + mc.Choose(4)
						kind := mc.Choose(6)
						ws := 0
						if kind < 4 {
							ws = []int{0, 16, 24, 300}[mc.Choose(4)]
						} else {
							ws = []int{0, 70000}[mc.Choose(2)]
						}
						if kind == 5 {
							n *= 130
						}
						b := newBatcher(how, fix, snapws.Options{WriteBufferSize: ws}, nil)
						p := b.open()
						other := b.open()
						var want []string
						for i := 0; i < n; i++ {
							switch kind {
							case 0: // raw
								s := jmsg(i, 3+7*i)
								want = append(want, s)
								mustOK("Batch", p.conn.Batch([]byte(s)))
							case 1: // values
								v := map[string]any{"i": i, "s": "a<b&é\"\n"}
								j, _ := json.Marshal(v)
								want = append(want, string(j))
								mustOK("BatchJSON", p.conn.BatchJSON(v))
							case 2: // long
								s := jmsg(i, 140+i*70)
								want = append(want, s)
								mustOK("Batch", p.conn.Batch([]byte(s)))
							case 4: // very long
								s := "\"" + string(tpat(i, []int{65533, 65534, 70000, 131072}[i])) + "\""
								want = append(want, s)
								mustOK("Batch", p.conn.Batch([]byte(s)))
							case 5: // many
								want = append(want, fmt.Sprint(i))
								mustOK("Batch", p.conn.Batch([]byte(want[i])))
							case 3: // binary and empty
								s := string(pat(i, i*2))
								if how == "json" {
									s = fmt.Sprint(i)
								}
								want = append(want, s)
								mustOK("Batch", p.conn.Batch([]byte(s)))
							}
						}
						mc.Quiesce()
						if len(p.wire().msgs) != 0 || len(b.calls) != 0 {
							mc.Failf("a batch was sent before the flush interval")
						}
						if err := p.conn.BatchJSON(make(chan int)); err == nil {
							mc.Failf("BatchJSON of an unmarshallable value succeeds")
						}
						settle(2)
						got := b.decode(0)
						if len(got) != 1 || fmt.Sprintf("%q", got[0]) != fmt.Sprintf("%q", want) {
							mc.Failf("batched %q, client gets %q", want, got)
						}
						if how != "custom" && string(p.wire().msgs[0].data) != b.encode(want) {
							mc.Failf("batch is %q, want %q", clip(p.wire().msgs[0].data), b.encode(want))
						}
						for _, c := range b.fixes {
							if c.conn != p.conn || fmt.Sprintf("%q", c.msgs) != fmt.Sprintf("%q", want) {
								mc.Failf("the %s function gets %q, want %q", c.what, c.msgs, want)
							}
						}
						if len(other.wire().msgs) != 0 || len(b.decode(1)) != 0 {
							mc.Failf("another connection gets the batch")
						}
						// the next batch starts afresh
						mustOK("Batch", other.conn.Batch([]byte("7")))
						mustOK("Batch", p.conn.Batch([]byte("8")))
						settle(2)
						if g := b.decode(0); len(g) != 2 || fmt.Sprint(g[1]) != "[8]" {
							mc.Failf("second batch is %q", g)
						}
						if g := b.decode(1); len(g) != 1 || fmt.Sprint(g[0]) != "[7]" {
							mc.Failf("other connection's batch is %q", g)
						}
						p.expectOpen("batching")
					}})
				}
				// histories in virtual time against the reference
				for _, max := range []int{12, 0} {
					depth := 6 + b2i(th)
					if max == 0 {
						depth = 5 + b2i(th)
					}
					out = append(out, mc.Scenario{Name: fmt.Sprintf("histories %s limit %d", how, max), Bound: 0, Body: func() {
						b := newBatcher(how, "", snapws.Options{MaxBatchSize: max}, nil)
						lim := max
						if max == 0 {
							lim = 1 << 20
						}
						b.open()
						b.open()
						var cur [2][]string
						var want [2][][]string
						flush := func(i int) {
							if len(cur[i]) > 0 {
								want[i] = append(want[i], cur[i])
								cur[i] = nil
							}
						}
						id := 0
						batch := func(i, n int) {
							s := jmsg(id%10, n)
							id++
							if sizes(cur[i])+n > lim {
								flush(i)
							}
							cur[i] = append(cur[i], s)
							mustOK("Batch", b.ps[i].conn.Batch([]byte(s)))
							mc.Quiesce()
						}
						check := func() {
							mc.Quiesce()
							for i := range want {
								if g := b.decode(i); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want[i]) {
									mc.Failf("client %d got batches %q at %dms, want %q (limit %d)", i, g, mc.NowNs()/1e6, want[i], lim)
								}
							}
						}
						for i := 0; i < depth; i++ {
							switch mc.Choose(7) {
							case 0:
								batch(0, 3)
							case 1:
								batch(0, 6)
							case 2:
								batch(0, 12)
							case 3:
								batch(0, 13)
							case 4:
								batch(1, 6)
							case 5:
								// to the next tick
								at := (mc.NowNs()/flushEvery.Nanoseconds() + 1) * flushEvery.Nanoseconds()
								mc.SleepNs(at - mc.NowNs())
								flush(0)
								flush(1)
							case 6:
								// not reaching a tick
								left := flushEvery.Nanoseconds() - mc.NowNs()%flushEvery.Nanoseconds()
								mc.SleepNs(left / 2)
							}
							check()
						}
						at := (mc.NowNs()/flushEvery.Nanoseconds() + 1) * flushEvery.Nanoseconds()
						mc.SleepNs(at - mc.NowNs())
						flush(0)
						flush(1)
						check()
					}})
				}
				// a client or sender that is slow for several intervals
				out = append(out, mc.Scenario{Name: "slow " + how, Bound: 1 + b2i(th), Body: func() {
					blocked := true
					b := newBatcher(how, "both", snapws.Options{MaxBatchSize: 12, WriteBufferSize: 24}, func(b *batcher, c *snapws.Conn, m [][]byte) error {
						if c == b.ps[0].conn {
							mc.Block("slow sender", func() bool { return !blocked })
						}
						return fmt.Errorf("ignored")
					})
					p, q := b.open(), b.open()
					p.fc.stall = true
					var want []string
					for i := 0; i < 7; i++ {
						s := jmsg(i, 4+i%3)
						want = append(want, s)
						mustOK("Batch", p.conn.Batch([]byte(s)))
						mustOK("Batch", q.conn.Batch([]byte(s)))
						if i%3 == 2 {
							settle(1)
						}
					}
					settle(2)
					flat := func(i int) string {
						var l []string
						for _, m := range b.decode(i) {
							if len(m) > 1 && sizes(m) > 12 {
								mc.Failf("batch %q exceeds the maximum", m)
							}
							l = append(l, m...)
						}
						return fmt.Sprintf("%q", l)
					}
					if flat(1) != fmt.Sprintf("%q", want) {
						mc.Failf("client 1 gets %s although only client 0 is slow, batched %q", flat(1), want)
					}
					blocked = false
					p.fc.stall = false
					settle(2)
					if flat(0) != fmt.Sprintf("%q", want) {
						mc.Failf("slow client gets %s, batched %q", flat(0), want)
					}
					p.expectOpen("slow")
					q.works("slow")
				}})
			}
			// very many batches pile up for a slow client
			for _, how := range hows {
				out = append(out, mc.Scenario{Name: "pile " + how, Bound: 0, Cfg: mc.Config{MaxSteps: 200000}, Body: func() {
					blocked := true
					n := pick([]int{5, 9, 17, 33, 65, 129, 257, 300, 1030})
					by := pick([]string{"size", "ticks", "both"})
					b := newBatcher(how, "", snapws.Options{MaxBatchSize: 12, WriteWait: time.Hour}, func(b *batcher, c *snapws.Conn, m [][]byte) error {
						if c == b.ps[0].conn {
							mc.Block("slow sender", func() bool { return !blocked })
						}
						return nil
					})
					p, q := b.open(), b.open()
					p.fc.stall = true
					var want []string
					for i := 0; i < n; i++ {
						s := jmsg(i, 8)
						want = append(want, s)
						mustOK("Batch", p.conn.Batch([]byte(s)))
						mustOK("Batch", q.conn.Batch([]byte(s)))
						mc.Quiesce()
						if by == "ticks" || by == "both" && i%3 == 2 {
							settle(1)
						}
					}
					settle(2)
					blocked = false
					p.fc.stall = false
					settle(2)
					for i := range 2 {
						var got []string
						for _, m := range b.decode(i) {
							if len(m) > 1 && sizes(m) > 12 {
								mc.Failf("batch %q exceeds the maximum", m)
							}
							got = append(got, m...)
						}
						for k := 0; k < len(want) || k < len(got); k++ {
							if k >= len(want) || k >= len(got) || got[k] != want[k] {
								mc.Failf("client %d (0 is slow) gets %d messages, batched %d; they differ from message %d on", i, len(got), len(want), k)
							}
						}
					}
				}})
			}
			// concurrency; every batcher numbers its own messages
			acts := []string{"small", "big", "other conn", "send", "stream", "broadcast", "new conn", "close other", "ticks", "oversize"}
			run := func(how string, as []string, broken bool) func() {
				return func() {
					b := newBatcher(how, "", snapws.Options{MaxBatchSize: 20, WriteBufferSize: 32}, func(b *batcher, c *snapws.Conn, msgs [][]byte) error {
						return c.SendString(bg, bytes.Join(msgs, []byte("|")))
					})
					m := snapws.NewManager[int](b.u)
					join := func() *peer {
						id := len(b.ps)
						p := newPeer(fmt.Sprintf("client%d", id))
						b.ps = append(b.ps, p)
						k, err := m.Connect(id, response(p.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
						p.conn = k.Conn
						p.shaken()
						return p
					}
					p, q := join(), join()
					p.fc.split = true
					seq := map[string][]string{} // batcher -> accepted messages for p
					qseq := map[string][]string{}
					var hs []*mc.Handle
					for t, a := range as {
						who := fmt.Sprintf("%d", t)
						msg := func(i, n int) string {
							s := fmt.Sprintf(`"%s.%d`, who, i)
							for len(s) < n-1 {
								s += "-"
							}
							return s + `"`
						}
						hs = append(hs, mc.Spawn(a, func() {
							batch := func(c *snapws.Conn, to map[string][]string, s string) {
								to[who] = append(to[who], s)
								err := c.Batch([]byte(s))
								if c == p.conn || !has(as, "close other") {
									mustOK("Batch", err)
								}
							}
							switch a {
							case "small":
								for i := 0; i < 3; i++ {
									batch(p.conn, seq, msg(i, 6))
								}
							case "big":
								batch(p.conn, seq, msg(0, 15))
								batch(p.conn, seq, msg(1, 15))
							case "oversize":
								batch(p.conn, seq, msg(0, 40))
								batch(p.conn, seq, msg(1, 6))
							case "other conn":
								batch(q.conn, qseq, msg(0, 12))
								batch(q.conn, qseq, msg(1, 12))
							case "send":
								mustOK("SendString", p.conn.SendString(bg, []byte("plain text message")))
							case "stream":
								w, err := p.conn.NextWriter(bg, opText)
								mustOK("NextWriter", err)
								w.Write([]byte("piece"))
								mustOK("Flush", w.Flush())
								w.Write([]byte("meal"))
								mustOK("Close", w.Close())
							case "broadcast":
								for i := 0; i < 2; i++ {
									s := msg(i, 8)
									seq[who] = append(seq[who], s)
									qseq[who] = append(qseq[who], s)
									n, err := m.BatchBroadcast(bg, []byte(s))
									if n < 2 || err != nil {
										mc.Failf("BatchBroadcast to %d connections returns %d, %v", len(b.ps), n, err)
									}
								}
							case "new conn":
								c := join()
								mustOK("Batch", c.conn.Batch([]byte(`"new"`)))
							case "close other":
								q.conn.Close()
							case "ticks":
								mc.SleepNs(flushEvery.Nanoseconds())
								batch(p.conn, seq, msg(0, 6))
								mc.SleepNs(flushEvery.Nanoseconds())
								batch(p.conn, seq, msg(1, 6))
							}
						}))
					}
					mc.Join(hs...)
					settle(3)
					check := func(i int, seq map[string][]string, open bool) {
						var got []string
						var bs [][]string
						if how == "custom" {
							bs = b.decode(i)
							for _, g := range bs {
								want := strings.Join(g, "|")
								found := false
								for _, m := range b.ps[i].wire().msgs {
									found = found || string(m.data) == want
								}
								if open && !found {
									mc.Failf("the custom sender's message %q did not arrive", want)
								}
							}
						} else {
							bs = b.decode(i)
						}
						for _, g := range bs {
							if len(g) == 0 {
								mc.Failf("empty batch")
							}
							if len(g) > 1 && sizes(g) > 20 {
								mc.Failf("batch %q exceeds the maximum size", g)
							}
							got = append(got, g...)
						}
						n := 0
						for who, s := range seq {
							n += len(s)
							var mine []string
							for _, g := range got {
								if strings.HasPrefix(g, `"`+who+".") {
									mine = append(mine, g)
								}
							}
							if open && fmt.Sprint(mine) != fmt.Sprint(s) {
								mc.Failf("client %d gets %q of batcher %s, which batched %q", i, mine, who, s)
							}
							if !open {
								inOrder("closed client", mine, s, false)
							}
						}
						if open && n != len(got) {
							mc.Failf("client %d gets %d messages, %d were batched: %q", i, len(got), n, bs)
						}
					}
					p.expectOpen("batching")
					check(0, seq, true)
					check(1, qseq, !has(as, "close other"))
					for i := range b.ps[2:] {
						found := false
						for _, l := range b.decode(i + 2) {
							for _, s := range l {
								found = found || s == `"new"`
							}
						}
						if !found {
							mc.Failf("message batched on a new connection never arrives")
						}
					}
				}
			}
			for i, a := range acts {
				for _, c := range acts[i:] {
					if a == c && a != "small" && a != "big" && a != "broadcast" && a != "ticks" {
						continue
					}
					for _, how := range hows {
						b := 1
						if how == "length" {
							b = 2
						}
						if has([]string{a, c}, "close other") && has([]string{a, c}, "broadcast") {
							continue // the count depends on the order
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %s and %s", how, a, c), Bound: b + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run(how, []string{a, c}, false)})
					}
				}
			}
			for _, t := range [][]string{{"small", "big", "send"}, {"small", "small", "ticks"}, {"big", "broadcast", "stream"}, {"small", "new conn", "close other"}} {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("length %v", t), Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run("length", t, false)})
			}
			return out
		},
	})
}
