package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"time"

	"vh/mc"
	"vh/snapws"
)

// outUp opens a connection whose write buffer has the given size, hijacked with
// a buffer of bw bytes.
func outUp(wbs, bw int, nopool bool) *peer {
	u := snapws.NewUpgrader(quiet(&snapws.Options{WriteBufferSize: wbs, DisableWriteBuffersPooling: nopool}))
	return newPeer("c").upgradeSz(u, 4096, bw)
}

func (p *peer) lastMsgs(n int, why string) []wmsg {
	w := p.expectOpen(why)
	if w.open != nil || len(w.tail) > 0 {
		mc.Failf("%s: unfinished message or frame on the wire (open %v, tail %d bytes)", why, w.open != nil, len(w.tail))
	}
	if len(w.msgs) != n {
		mc.Failf("%s: %d messages on the wire, want %d", why, len(w.msgs), n)
	}
	return w.msgs
}

func expectPayload(why string, m wmsg, op byte, data []byte) {
	if m.op != op {
		mc.Failf("%s: message type %d, want %d", why, m.op, op)
	}
	if !bytes.Equal(m.data, data) {
		mc.Failf("%s: client receives %d bytes %q, sent %d bytes %q", why, len(m.data), clip(m.data), len(data), clip(data))
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C07",
		Rule: "input enumeration: every sequence of writes (sizes at the buffer boundaries), flushes and close up to a depth for every write-buffer size class (tiny to >64KiB, taken over from the HTTP server, pooled or private), every convenience send with every payload length 0..300 and around 65535, several messages in a row.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, body func()) { out = append(out, mc.Scenario{Name: name, Body: body}) }
			depth := 4
			if th {
				depth = 5
			}
			// oneMessage writes a message by a chosen sequence of operations
			oneMessage := func(p *peer, k, depth, seed int, why string) (byte, []byte, *snapws.ConnWriter, string) {
				op := byte(pick([]int{opText, opBin}))
				w, err := p.conn.NextWriter(bg, op)
				mustOK("NextWriter", err)
				var sizes []int
				for _, n := range []int{0, 1, k - 1, k, k + 1, 2 * k, 2*k + 1} {
					if n >= 0 && !slices.Contains(sizes, n) {
						sizes = append(sizes, n)
					}
				}
				var all []byte
				desc := ""
				for i := 0; i < depth; i++ {
					c := mc.Choose(len(sizes) + 2)
					if c == len(sizes)+1 {
						break // close now
					}
					if c == len(sizes) {
						mustOK("Flush", w.Flush())
						desc += "F "
						continue
					}
					n := max(sizes[c], 0)
					b := pat(seed+i, n)
					cp := append([]byte(nil), b...)
					m, err := w.Write(b)
					mustOK("Write", err)
					if m != n {
						mc.Failf("%s: Write of %d bytes returned %d", why, n, m)
					}
					if !bytes.Equal(b, cp) {
						mc.Failf("%s: Write changed the caller's bytes", why)
					}
					// the caller may reuse its buffer
					for j := range b {
						b[j] = 0xAA
					}
					all = append(all, cp...)
					desc += fmt.Sprintf("W%d ", n)
				}
				mustOK("writer Close", w.Close())
				return op, all, w, desc
			}
			refused := func(p *peer, w *snapws.ConnWriter, why string) {
				n := len(p.fc.out)
				if m, err := w.Write([]byte("late")); err == nil || m != 0 {
					mc.Failf("%s: closed writer accepted %d bytes, err %v", why, m, err)
				}
				if err := w.Flush(); err == nil {
					mc.Failf("%s: closed writer flushed", why)
				}
				w.Close()
				if len(p.fc.out) != n {
					mc.Failf("%s: closed writer wrote %d bytes", why, len(p.fc.out)-n)
				}
			}
			for _, wbs := range []int{1, 14, 15, 16, 20, 139, 140, 141, 300} {
				for _, bw := range []int{4096, wbs} {
					wbs, bw := wbs, bw
					if bw < 16 {
						continue
					}
					add(fmt.Sprintf("sequences buffer %d hijacked %d", wbs, bw), func() {
						k := wbs - 14
						if k <= 0 {
							k = wbs
						}
						p := outUp(wbs, bw, wbs%2 == 0)
						why := fmt.Sprintf("write buffer %d", wbs)
						d := depth
						if wbs != 15 && wbs != 20 {
							d--
						}
						op, all, w, desc := oneMessage(p, k, d, 1, why)
						m := p.lastMsgs(1, why+" "+desc)
						expectPayload(why+" "+desc, m[0], op, all)
						refused(p, w, why+" "+desc)
						mc.Outcome("%d", m[0].frags)
					})
				}
			}
			for _, wbs := range []int{4096, 65549, 65550, 70000} {
				wbs := wbs
				add(fmt.Sprintf("sequences large buffer %d", wbs), func() {
					p := outUp(wbs, 4096, mc.Choose(2) == 0)
					why := fmt.Sprintf("write buffer %d", wbs)
					op, all, w, desc := oneMessage(p, wbs-14, 2, 1, why)
					m := p.lastMsgs(1, why+" "+desc)
					expectPayload(why+" "+desc, m[0], op, all)
					refused(p, w, why+" "+desc)
				})
			}
			add("several messages", func() {
				wbs := pick([]int{15, 24, 140})
				p := outUp(wbs, 4096, false)
				var ws []*snapws.ConnWriter
				for i := 0; i < 3; i++ {
					d := 2
					if i == 1 && !th {
						d = 1
					}
					if i == 2 {
						d = 0
					}
					op, all, w, desc := oneMessage(p, wbs-14, d, i, "several")
					m := p.lastMsgs(i+1, "several "+desc)
					expectPayload(fmt.Sprintf("message %d %s", i, desc), m[i], op, all)
					ws = append(ws, w)
				}
				for _, w := range ws {
					refused(p, w, "old writer")
				}
				p.works("after several messages")
			})
			add("many frames", func() {
				n := pick([]int{127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 65537, 70000})
				how := pick([]string{"flush", "write", "one write"})
				wbs := 15
				if how == "flush" {
					wbs = pick([]int{16, 4096})
				}
				p := outUp(wbs, 4096, false)
				why := fmt.Sprintf("%d frames by %s", n, how)
				w, err := p.conn.NextWriter(bg, opText)
				mustOK("NextWriter", err)
				b := tpat(n, n)
				if how == "one write" {
					k, err := w.Write(b)
					mustOK("Write", err)
					if k != n {
						mc.Failf("%s: Write returns %d of %d", why, k, n)
					}
				} else {
					for i := range b {
						k, err := w.Write(b[i : i+1])
						mustOK("Write", err)
						if k != 1 {
							mc.Failf("%s: Write of a byte returns %d", why, k)
						}
						if how == "flush" {
							mustOK("Flush", w.Flush())
						}
					}
				}
				mustOK("Close", w.Close())
				expectPayload(why, p.lastMsgs(1, why)[0], opText, b)
				p.works(why)
			})
			out[len(out)-1].Cfg.MaxSteps = 4000000
			add("many messages", func() {
				n := pick([]int{255, 256, 257, 300, 65535, 65537})
				p := outUp(pick([]int{20, 4096}), 4096, mc.Choose(2) == 0)
				why := fmt.Sprintf("%d messages", n)
				for i := 0; i < n; i++ {
					mustOK("SendString", p.conn.SendString(bg, tpat(i, i%9)))
				}
				for i, m := range p.lastMsgs(n, why) {
					expectPayload(fmt.Sprintf("message %d of %d", i, n), m, opText, tpat(i, i%9))
				}
			})
			out[len(out)-1].Cfg.MaxSteps = 4000000
			add("old writer while another is open", func() {
				// a deferred second Close, or a late Write, must not touch the next message
				p := outUp(24, 4096, false)
				w1, err := p.conn.NextWriter(bg, opText)
				mustOK("NextWriter", err)
				w1.Write([]byte("one"))
				mustOK("Close", w1.Close())
				w2, err := p.conn.NextWriter(bg, opBin)
				mustOK("NextWriter", err)
				var want []byte
				for i := 0; i < 3; i++ {
					switch mc.Choose(6) {
					case 5:
						// the writer in use still excludes every other message
						ctx, cancel := mc.WithTimeout(bg, time.Millisecond)
						if err := p.conn.SendString(ctx, []byte("other")); err != context.DeadlineExceeded {
							mc.Failf("a send while a writer is open returns %v", err)
						}
						cancel()
					case 0:
						refused(p, w1, "writer of the previous message")
					case 1:
						w1.Close()
					case 2:
						b := pat(i, pick([]int{1, 10, 25}))
						_, err := w2.Write(b)
						mustOK("Write", err)
						want = append(want, b...)
					case 3:
						mustOK("Flush", w2.Flush())
					case 4:
						if n, err := w1.Write([]byte("zz")); err == nil || n != 0 {
							mc.Failf("closed writer accepted %d bytes while the next one is open", n)
						}
					}
				}
				mustOK("Close", w2.Close())
				m := p.lastMsgs(2, "old writer")
				expectPayload("first", m[0], opText, []byte("one"))
				expectPayload("second", m[1], opBin, want)
				p.works("afterwards")
			})
			lens := seq(0, 300)
			for _, c := range []int{4082, 65535, 65536 - 14, 65536} {
				for d := -3; d <= 3; d++ {
					lens = append(lens, c+d)
				}
			}
			add("sends of every length", func() {
				n := pick(lens)
				sizes := []int{20, 139, 140, 141, 4096, 65549, 65550, 66000}
				if n > 4200 {
					sizes = sizes[4:]
				} else if n > 300 {
					sizes = sizes[1:]
				}
				wbs := pick(sizes)
				p := outUp(wbs, pick([]int{4096, 141}), false)
				why := fmt.Sprintf("sending %d bytes with write buffer %d", n, wbs)
				switch mc.Choose(3) {
				case 0:
					mustOK(why, p.conn.SendBytes(bg, pat(n, n)))
					expectPayload(why, p.lastMsgs(1, why)[0], opBin, pat(n, n))
				case 1:
					mustOK(why, p.conn.SendString(bg, tpat(n, n)))
					expectPayload(why, p.lastMsgs(1, why)[0], opText, tpat(n, n))
				case 2:
					op := byte(pick([]int{opText, opBin}))
					mustOK(why, p.conn.SendMessage(bg, op, pat(n, n)))
					expectPayload(why, p.lastMsgs(1, why)[0], op, pat(n, n))
				}
				b := pat(1, 10)
				mustOK(why, p.conn.SendBytes(bg, b))
				expectPayload(why+", second", p.lastMsgs(2, why)[1], opBin, b)
			})
			add("SendJSON", func() {
				n := pick([]int{0, 1, 2, 5, 6, 30, 110, 120, 123, 124, 125, 126, 127, 4070, 4080, 4082, 65530, 65536})
				var v any
				switch mc.Choose(6) {
				case 0:
					v = map[string]any{"k": string(tpat(1, n)), "n": []int{1, 2, 3}}
				case 1:
					v = string(tpat(2, n))
				case 2:
					v = nil
				case 3:
					v = []any{true, 1.5, "<&>\u2028é"}
				case 4:
					v = target{A: n, B: string(tpat(3, n))}
				case 5:
					v = json.RawMessage(`[` + string(bytes.Repeat([]byte("1,"), n/2)) + `2]`)
				}
				sizes := []int{15, 20, 139, 4096, 65550}
				if n > 4000 {
					sizes = sizes[3:]
				}
				p := outUp(pick(sizes), 4096, false)
				mustOK("SendJSON", p.conn.SendJSON(bg, v))
				m := p.lastMsgs(1, "SendJSON")[0]
				want, _ := json.Marshal(v)
				var x, y any
				if m.op != opText {
					mc.Failf("SendJSON: message type %d", m.op)
				}
				if err := json.Unmarshal(m.data, &x); err != nil {
					mc.Failf("SendJSON: payload %q is not JSON: %v", clip(m.data), err)
				}
				json.Unmarshal(want, &y)
				if !reflect.DeepEqual(x, y) {
					mc.Failf("SendJSON: payload %q, want %q", clip(m.data), clip(want))
				}
			})
			add("marshal failure leaves nothing", func() {
				p := outUp(pick([]int{20, 4096}), 4096, false)
				var v any = make(chan int)
				switch mc.Choose(3) {
				case 1:
					v = map[string]any{"a": string(tpat(1, 100)), "b": func() {}}
				case 2:
					v = badJSON{}
				}
				err := p.conn.SendJSON(bg, v)
				if err == nil || isFatal(err) {
					mc.Failf("SendJSON of an unmarshallable value: %v", err)
				}
				p.lastMsgs(0, "after a marshalling error")
				p.works("after a marshalling error")
			})
			return out
		},
	})
}

type badJSON struct{}

var errBadJSON = errors.New("cannot marshal")

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errBadJSON }
