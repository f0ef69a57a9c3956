package harness

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// bucket is the reference token bucket, in eighths of a second.
type bucket struct {
	mps, burst int
	tokens     int // in units of 1/8 token
	last       int // in eighths of a second
}

const eighth = sec / 8

func newBucket(mps, burst int) *bucket {
	return &bucket{mps: mps, burst: burst, tokens: burst * 8, last: int(mc.NowNs() / eighth)}
}

func (b *bucket) take() bool {
	now := int(mc.NowNs() / eighth)
	b.tokens = min(b.burst*8, b.tokens+(now-b.last)*b.mps)
	b.last = now
	if b.tokens < 8 {
		return false
	}
	b.tokens -= 8
	return true
}

var errLimit = errors.New("too many messages")

func init() {
	Reg(&mc.Property{
		ID:   "C21",
		Rule: "all histories up to the depth of waiting multiples of 1/8 s and receiving a message on either of two connections, over limiter parameters, message shapes (single frame, fragments, control frames around and inside, empty), read calls and hook behaviours, compared message by message with a reference token bucket in virtual time; several connections reading, opening and closing concurrently under all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			// shape returns the frames of a message and the number of pings in it
			shape := func(i int, d []byte) ([]byte, int) {
				n := len(d)
				switch i {
				case 0:
					return frame(true, opText, d), 0
				case 1:
					return cat(frame(false, opText, d[:n/3]), frame(false, opCont, nil), frame(false, opCont, d[n/3:n/2]), frame(true, opCont, d[n/2:])), 0
				case 2:
					return cat(ping([]byte("a")), pong([]byte("b")), frame(false, opText, d[:n/2]), ping([]byte("c")), pong(nil), ping(nil), frame(true, opCont, d[n/2:]), ping([]byte("d"))), 4
				case 3:
					return cat(frame(false, opText, nil), ping(nil), frame(true, opCont, d)), 1
				}
				panic(i)
			}
			type lim struct{ mps, burst int }
			out = append(out, mc.Scenario{Name: "rates and bursts", Once: true, Bound: 0, Cfg: mc.Config{MaxSteps: 400000, Horizon: 1 << 60}, Body: func() {
				mps := pick([]int{1, 3, 7, 11, 30, 60, 90, 100, 300, 600, 700, 999, 1000, 1001, 1500, 5000, 100000})
				burst := pick([]int{1, 2, 60, 1000})
				u := snapws.NewUpgrader(quiet(nil))
				u.Limiter = snapws.NewRateLimiter(mps, burst)
				p := newPeer("a").upgrade(u)
				id := 0
				drain := func(want int, why string) {
					for n := 0; ; n++ {
						d := []byte(fmt.Sprint(id))
						id++
						p.fc.feed(text(string(d)))
						_, got, err := p.conn.ReadMessage()
						if err != nil && !isFatal(err) && n == want {
							return
						}
						if err != nil || n >= want || string(got) != string(d) {
							mc.Failf("%d per second, burst %d: %s: message %d of %d within the rate returns %q, %v", mps, burst, why, n, want, clip(got), err)
						}
					}
				}
				drain(burst, "at first")
				for i := 0; i < 2; i++ {
					// a hundredth of a token less or more than k of them
					k := pick([]int{1, 2, 59, 1000, 1500})
					less := mc.Choose(2) == 0
					at := int64(k*100+1) * (sec / 100) / int64(mps)
					want := k
					if less {
						at = int64(k*100-1) * (sec / 100) / int64(mps)
						want = k - 1
					}
					mc.SleepNs(at)
					drain(min(want, burst), fmt.Sprintf("after %v", time.Duration(at)))
					// what is left over does not count below
					if k <= burst {
						mc.SleepNs(int64(burst/mps+1) * sec)
						drain(burst, "after the burst has filled up")
					}
				}
			}})
			// a connection that is being closed isn't let past its limit
			for _, how := range []string{"close", "replaced", "shutdown", "client breaks"} {
				out = append(out, mc.Scenario{Name: "closing: " + how, Bound: 2 + b2i(th), Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					u.Limiter = snapws.NewRateLimiter(1, 2)
					hits := 0
					u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { hits++; return nil }
					m := snapws.NewManager[int](u)
					p := newPeer("a")
					k, err := m.Connect(1, response(p.fc, 4096, 4096, nil), request())
					mustOK("Connect", err)
					p.conn = k.Conn
					empty := mc.Choose(2) == 1
					for i := range 5 {
						d := fmt.Sprint(i)
						if empty {
							d = ""
						}
						p.fc.feed(text(d))
					}
					got := 0
					rd := mc.Spawn("reader", func() {
						for {
							_, _, err := p.conn.ReadMessage()
							if isFatal(err) {
								return
							}
							if err == nil {
								got++
							}
						}
					})
					switch how {
					case "close":
						p.conn.Close()
					case "shutdown":
						m.Shutdown()
					case "replaced":
						q := newPeer("b")
						_, err := m.Connect(1, response(q.fc, 4096, 4096, nil), request())
						mustOK("Connect", err)
					case "client breaks":
						p.fc.feedEOF()
					}
					mc.Join(rd)
					if got > 2 || got+hits > 5 {
						mc.Failf("%s: %d of 5 messages are delivered within a burst of 2, the limit was hit %d times", how, got, hits)
					}
					mc.Outcome("%d %d", got, hits)
				}})
			}
			lims := []lim{{1, 1}, {2, 1}, {2, 3}, {4, 2}, {0, 2}, {1, 0}, {8, 1}}
			for _, l := range lims {
				for _, hook := range []string{"none", "nil", "error", "second"} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%d per second burst %d hook %s", l.mps, l.burst, hook), Bound: 0, Body: func() {
						a := pick([]rapi{{"message", 0}, {"next", 3}, {"typed", 0}, {"json", 0}})
						sh := mc.Choose(4)
						rb := []int{0, 20}[mc.Choose(2)]
						u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: rb}))
						u.Limiter = snapws.NewRateLimiter(l.mps, l.burst)
						hits := []int{0, 0}
						ps := []*peer{newPeer("a"), newPeer("b")}
						if hook != "none" {
							u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error {
								for i, p := range ps {
									if p.conn == c {
										hits[i]++
										if hook == "error" || hook == "second" && hits[i] == 2 {
											return errLimit
										}
										return nil
									}
								}
								mc.Failf("the hook gets an unknown connection")
								return nil
							}
						}
						bs := []*bucket{nil, nil}
						for i, p := range ps {
							p.upgrade(u)
							bs[i] = newBucket(l.mps, l.burst)
						}
						want := []int{0, 0}
						pings := []int{0, 0}
						depth := 4 + b2i(th)
						for s := 0; s < depth; s++ {
							mc.SleepNs([]int64{0, 1, 4, 8}[mc.Choose(4)] * eighth)
							i := mc.Choose(2)
							p := ps[i]
							d := []byte(fmt.Sprintf(`{"n":%d,"pad":"%s"}`, s, tpat(s, s*9)))
							m, np := shape(sh, d)
							pings[i] += np - b2i(sh == 2) // the last is read with the next message
							p.fc.feed(chunks(m, 1+mc.Choose(1)*0+len(m)/2)...)
							ok := bs[i].take()
							if ok {
								p.expectMsg(a, cmsg{opText, d}, fmt.Sprintf("message %d at %dms within the rate", s, mc.NowNs()/1e6))
							} else {
								want[i]++
								_, got, err := a.read(p.conn, opText)
								if err == nil {
									mc.Failf("message %d at %dms exceeds the rate but is delivered: %q", s, mc.NowNs()/1e6, clip(got))
								}
								fatal := hook == "error" || hook == "second" && want[i] == 2
								if isFatal(err) != fatal {
									mc.Failf("refused message: error %v, fatal %v, hook %s", err, isFatal(err), hook)
								}
								if hook != "none" && hits[i] != want[i] {
									mc.Failf("the hook ran %d times for %d refused messages", hits[i], want[i])
								}
								if fatal {
									var f *snapws.FatalError
									if !errors.Is(err, errLimit) && !(errors.As(err, &f) && errors.Is(f.Err, errLimit)) {
										mc.Failf("the hook's error is not reported but %v", err)
									}
									p.expectClosed("hook error", 1008)
									if ps[1-i].fc.closed {
										mc.Failf("the other connection is closed, too")
									}
									return
								}
							}
							if w := p.wire(); len(w.pongs) < pings[i] {
								mc.Failf("%d pongs for %d pings", len(w.pongs), pings[i])
							}
							pings[i] += b2i(sh == 2)
							if hook != "none" && (hits[0] != want[0] || hits[1] != want[1]) {
								mc.Failf("the hook ran %v times, refused %v", hits, want)
							}
						}
						for _, p := range ps {
							if p.fc.closed {
								mc.Failf("connection closed by the limiter")
							}
						}
					}})
				}
			}
			// one token per message, however it is consumed
			out = append(out, mc.Scenario{Name: "ways of consuming", Bound: 0, Body: func() {
				u := snapws.NewUpgrader(quiet(&snapws.Options{ReadBufferSize: []int{0, 20}[mc.Choose(2)]}))
				u.Limiter = snapws.NewRateLimiter(0, 3)
				hits := 0
				u.Limiter.OnRateLimitHit = func(*snapws.Conn) error { hits++; return nil }
				p := newPeer("c").upgrade(u)
				sh := mc.Choose(4)
				for i := 0; i < 4; i++ {
					d := append([]byte("{ nonsense "), tpat(i, 40)...)
					m, _ := shape(sh, d)
					p.fc.feed(m)
					var err error
					switch mc.Choose(6) {
					case 0:
						_, _, err = p.conn.ReadMessage()
					case 1: // wrong type
						_, err = p.conn.ReadBinary()
						if err == nil || isFatal(err) {
							mc.Failf("type mismatch gives %v", err)
						}
						if i < 3 {
							err = nil
						}
					case 2: // not JSON
						var v any
						err = p.conn.ReadJSON(&v)
						if err == nil || isFatal(err) {
							mc.Failf("JSON error gives %v", err)
						}
						if i < 3 {
							err = nil
						}
					case 3: // not read at all
						_, _, err = p.conn.NextReader()
					case 4: // partly
						r, _, e := p.conn.NextReader()
						err = e
						if err == nil {
							_, e := r.Read(make([]byte, 5))
							mustOK("Read", e)
						}
					case 5:
						r, _, e := p.conn.NextReader()
						err = e
						if err == nil {
							_, e := readAllK(r, 7)
							mustOK("Read", e)
						}
					}
					if (err == nil) != (i < 3) || isFatal(err) || hits != b2i(i == 3) {
						mc.Failf("message %d of burst 3 gives %v, hook ran %d times", i, err, hits)
					}
				}
				p.fc.feed(text("one more"))
				if _, _, err := p.conn.ReadMessage(); err == nil || isFatal(err) || hits != 2 {
					mc.Failf("message 4 of burst 3 gives %v, hook ran %d times", err, hits)
				}
				mustOK("SendBytes", p.conn.SendBytes(bg, []byte("out")))
				if w := p.expectOpen("limited"); len(w.msgs) != 1 {
					mc.Failf("%d messages", len(w.msgs))
				}
			}})
			// what hooks may do
			for _, what := range []string{"send", "close", "close code", "close nil", "long error", "invalid utf8", "meta"} {
				out = append(out, mc.Scenario{Name: "hook: " + what, Bound: 1 + b2i(th), Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					u.Limiter = snapws.NewRateLimiter(1, 1)
					discs, hits := 0, 0
					u.OnDisconnect = func(*snapws.Conn) { discs++ }
					u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error {
						hits++
						switch what {
						case "send":
							mustOK("SendString in the hook", c.SendString(bg, []byte("slow down")))
						case "close":
							c.Close()
							return errLimit
						case "close code":
							c.CloseWithCode(snapws.CloseMessageTooBig, "mine")
							return errLimit
						case "close nil":
							c.Close()
						case "long error":
							return errors.New(strings.Repeat("long ", 40))
						case "invalid utf8":
							return errors.New("bad \xff")
						case "meta":
							c.MetaData.Store("hit", hits)
						}
						return nil
					}
					p := newPeer("c").upgrade(u)
					var h *mc.Handle
					if what != "meta" {
						h = mc.Spawn("sender", func() {
							if err := p.conn.SendBytes(bg, pat(1, 9)); err != nil && !isFatal(err) {
								mc.Failf("SendBytes: %v", err)
							}
						})
					}
					p.fc.feed(text("a"), frame(false, opText, []byte("b")), ping([]byte("in")), frame(true, opCont, []byte("c")))
					p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("a")}, "a")
					_, _, err := p.conn.ReadMessage()
					if err == nil || hits != 1 {
						mc.Failf("second message gives %v, the hook ran %d times", err, hits)
					}
					closes := map[string]int{"close": 1000, "close code": 1009, "long error": 1008, "invalid utf8": 1008, "close nil": 1000}[what]
					if h != nil {
						mc.Join(h)
					}
					if closes == 0 {
						if isFatal(err) {
							mc.Failf("fatal error %v", err)
						}
						mc.SleepNs(sec)
						p.fc.feed(text("d"))
						p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("d")}, "d")
						w := p.expectOpen("hook")
						if len(w.pongs) != 1 || len(w.msgs) != b2i(what != "meta")+b2i(what == "send") {
							mc.Failf("%d pongs, %d messages", len(w.pongs), len(w.msgs))
						}
						return
					}
					mustFatal("read after the hook closed the connection", func() error { _, _, err := p.conn.ReadMessage(); return err }())
					p.expectClosed("hook", closes)
					if discs != 1 || hits != 1 {
						mc.Failf("disconnect hook ran %d times, limit hook %d times", discs, hits)
					}
				}})
			}
			// connections and their buckets come and go
			for _, as := range pairs([]string{"reader", "connect", "close", "limited"}) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent %v", as), Bound: 2 + b2i(th), Body: func() {
					u := snapws.NewUpgrader(quiet(nil))
					u.Limiter = snapws.NewRateLimiter(0, 2)
					hits := map[*snapws.Conn]int{}
					u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { hits[c]++; return nil }
					use := func(p *peer, n int) {
						for i := 0; i < n; i++ {
							p.fc.feed(text(fmt.Sprint(i)))
							_, b, err := p.conn.ReadMessage()
							if i < 2 && (err != nil || string(b) != fmt.Sprint(i)) || i >= 2 && (err == nil || isFatal(err)) {
								mc.Failf("message %d of burst 2 gives %q, %v", i, b, err)
							}
						}
						if hits[p.conn] != max(0, n-2) {
							mc.Failf("the hook ran %d times for %d refused messages", hits[p.conn], n-2)
						}
					}
					var hs []*mc.Handle
					for i, a := range as {
						p := newPeer(fmt.Sprint(a, i))
						if a != "connect" {
							p.upgrade(u)
						}
						hs = append(hs, mc.Spawn(a, func() {
							switch a {
							case "reader":
								use(p, 2)
							case "limited":
								use(p, 4)
							case "connect":
								use(p.upgrade(u), 3)
							case "close":
								use(p, 2)
								p.conn.Close()
								use(newPeer("again").upgrade(u), 3)
							}
						}))
					}
					mc.Join(hs...)
					use(newPeer("late").upgrade(u), 3)
				}})
			}
			return out
		},
	})
}
