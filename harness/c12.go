package harness

import (
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// live is a connection with keepalive, a reading application and a client that
// reacts to pings.
type live struct {
	p        *peer
	pingAt   []int64 // when each ping was complete on the wire
	got      []string
	readErr  error
	readEnd  int64
	hooks    int
	rd       *mc.Handle
	lastSent int64 // last message or pong of the client
}

func newLive(o snapws.Options) *live {
	l := &live{p: newPeer("c"), readEnd: -1}
	o.OnDisconnect = func(*snapws.Conn) { l.hooks++ }
	u := snapws.NewUpgrader(&o)
	l.p.upgrade(u)
	return l
}

func (l *live) pingsSeen() int {
	w, err := parseWire(l.p.fc.out[l.p.ws:])
	if err != nil {
		mc.Failf("client receives %v", err)
	}
	for _, b := range w.pings {
		if len(b) != 0 {
			mc.Failf("keepalive ping carries a payload: % x", b)
		}
	}
	return len(w.pings)
}

func (l *live) read() {
	l.rd = mc.Spawn("reader", func() {
		for {
			_, d, err := l.p.conn.ReadMessage()
			if err != nil {
				l.readErr, l.readEnd = err, mc.NowNs()
				return
			}
			l.got = append(l.got, string(d))
		}
	})
}

func (l *live) pong() {
	l.p.fc.feed(pong(nil))
	l.lastSent = mc.NowNs()
}

// answer waits for the n-th ping (1 is the first) and reports false if the
// connection ends instead.
func (l *live) waitPing(n int) bool {
	mc.Block("client waits for a ping", func() bool { return l.p.fc.closed || l.pingsSeen() >= n })
	if l.pingsSeen() < n {
		return false
	}
	for len(l.pingAt) < n {
		l.pingAt = append(l.pingAt, mc.NowNs())
	}
	return true
}

func (l *live) alive(why string) {
	if l.p.fc.closed || l.hooks != 0 || l.readEnd >= 0 {
		mc.Failf("%s: a live client was disconnected at %.3fs (hooks %d, read error %v)", why, float64(l.p.fc.closeAt)/1e9, l.hooks, l.readErr)
	}
	l.p.expectOpen(why)
}

func init() {
	Reg(&mc.Property{
		ID:   "C12",
		Rule: "keepalive in virtual time: clients answering each ping after every choice of delay (including while the ping is still being written), clients that stop answering after every number of pongs or messages or in the middle of a frame, manual pings at every relation to the keepalive tick, traffic in both directions, unsolicited pongs; several interval/timeout settings; all schedules up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			add := func(name string, b int, body func()) {
				b++
				if th {
					b++
				}
				out = append(out, mc.Scenario{Name: name, Bound: b, Body: body})
			}
			type set struct{ p, r time.Duration }
			sets := []set{{10 * time.Second, 14 * time.Second}, {10 * time.Second, 35 * time.Second}, {0, 0}, {time.Second, 61 * time.Second}}
			for _, s := range sets {
				s := s
				P, R := int64(s.p), int64(s.r)
				if s.p == 0 {
					P, R = 50*sec, 60*sec
				}
				opts := snapws.Options{PingEvery: s.p, ReadWait: s.r}
				name := fmt.Sprintf("interval %ds timeout %ds", P/sec, R/sec)
				periods := 4
				add(name+" answering", 1, func() {
					l := newLive(opts)
					l.read()
					slack := min(R-P-1, P-1)
					mc.Spawn("client", func() {
						for n := 1; l.waitPing(n); n++ {
							switch mc.Choose(4) {
							case 1:
								mc.SleepNs(slack)
							case 2:
								mc.SleepNs(slack / 2)
								l.p.fc.feed(pong([]byte("x"))) // answers nothing
							case 3:
								mc.SleepNs(slack / 2)
								l.p.fc.feed(ping([]byte("y")), text("m"))
							}
							l.pong()
						}
					})
					mc.SleepNs(int64(periods)*P + P/2)
					mc.Quiesce()
					l.alive(name)
					if n := l.pingsSeen(); n != periods {
						mc.Failf("%s: %d pings in %d periods", name, n, periods)
					}
					for i, t := range l.pingAt {
						if t != int64(i+1)*P {
							mc.Failf("%s: ping %d sent at %.3fs", name, i+1, float64(t)/1e9)
						}
					}
					mc.Outcome("%d", len(l.got))
				})
				add(name+" silent", 2, func() {
					l := newLive(opts)
					l.read()
					// the client answers a few pings, sends a few messages, then
					// nothing, or stops in the middle of a frame
					k, m, cut := mc.Choose(3), []int{0, 1, 2, 5}[mc.Choose(4)], mc.Choose(3)
					mc.Spawn("client", func() {
						for n := 1; n <= k; n++ {
							if !l.waitPing(n) {
								return
							}
							l.pong()
						}
						for i := 0; i < m; i++ {
							mc.SleepNs(P / 3)
							l.p.fc.feed(text("m"))
							l.lastSent = mc.NowNs()
						}
						switch cut {
						case 1:
							l.p.fc.feed(text("abcdef")[:7])
						case 2:
							l.p.fc.feed(frame(false, opText, []byte("abc")))
						}
					})
					mc.Join(l.rd)
					mc.Quiesce()
					if !isFatal(l.readErr) {
						mc.Failf("%s: the read of a dead client returns %v", name, l.readErr)
					}
					if l.readEnd > l.lastSent+R {
						mc.Failf("%s: client silent since %.3fs, read returned at %.3fs", name, float64(l.lastSent)/1e9, float64(l.readEnd)/1e9)
					}
					if l.readEnd < l.lastSent+R && R < P*3/2 {
						mc.Failf("%s: client silent since %.3fs, disconnected too early at %.3fs", name, float64(l.lastSent)/1e9, float64(l.readEnd)/1e9)
					}
					if !l.p.fc.closed || l.hooks != 1 {
						mc.Failf("%s: dead client: transport closed %v, hooks %d", name, l.p.fc.closed, l.hooks)
					}
					if len(l.got) != m {
						mc.Failf("%s: %d messages, want %d", name, len(l.got), m)
					}
					// one outstanding ping at a time
					if n := l.pingsSeen(); n > k+1 {
						mc.Failf("%s: %d pings although only %d were answered", name, n, k)
					}
					mc.Outcome("%d %d", k, m)
				})
			}
			// a pong that comes late, but within the timeout
			add("late pong", 1, func() {
				P, R := 10*sec, 45*sec
				l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
				l.read()
				d := []int64{sec, 9 * sec, 11 * sec, 25 * sec, 34 * sec}
				var want []int64
				next := P
				mc.Spawn("client", func() {
					for n := 1; l.waitPing(n); n++ {
						want = append(want, next)
						if n <= 3 {
							mc.SleepNs(pick(d))
						}
						l.pong()
						next = (mc.NowNs()/P + 1) * P
					}
				})
				mc.SleepNs(130 * sec)
				mc.Quiesce()
				l.alive("late pong")
				for i := range want {
					if l.pingAt[i] != want[i] {
						mc.Failf("ping %d sent at %.3fs, want %.3fs", i+1, float64(l.pingAt[i])/1e9, float64(want[i])/1e9)
					}
				}
			})
			// the pong overtakes the end of the ping's write
			for _, split := range []bool{false, true} {
				add(fmt.Sprintf("immediate pong split=%v", split), 3, func() {
					P, R := 10*sec, 14*sec
					l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
					l.p.fc.split = split
					l.p.fc.onWrite = func(b []byte) {
						if b[0] == 0x89 {
							l.p.fc.feed(pong(nil))
							l.lastSent = mc.NowNs()
						}
					}
					l.read()
					mc.SleepNs(3*P + P/2)
					mc.Quiesce()
					l.alive("immediate pong")
					if n := l.pingsSeen(); n != 3 {
						mc.Failf("immediate pong: %d pings in 3 periods", n)
					}
				})
			}
			// the application pings too
			for _, off := range []int64{0, 1, 9 * sec, 10 * sec, 11 * sec} {
				add(fmt.Sprintf("manual ping at %.1fs", float64(off)/1e9), 2, func() {
					P, R := 10*sec, 14*sec
					l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R)})
					l.p.fc.split = true
					l.read()
					delay := pick([]int64{0, 2 * sec})
					mc.Spawn("client", func() {
						for n := 1; l.waitPing(n); n++ {
							mc.SleepNs(delay)
							l.pong()
						}
					})
					ok, dup := 0, 0
					h := mc.Spawn("manual", func() {
						mc.SleepNs(off)
						for i := 0; i < 3; i++ {
							switch err := l.p.conn.Ping(); err {
							case nil:
								ok++
							case snapws.ErrPingAlreadySent:
								dup++
							default:
								mc.Failf("Ping: %v", err)
							}
							mc.SleepNs(4 * sec)
						}
					})
					mc.Join(h)
					mc.SleepNs(30*sec + P/2 - mc.NowNs())
					mc.Quiesce()
					l.alive("manual pings")
					if n := l.pingsSeen(); n < 3 || n > 6 || n < ok {
						mc.Failf("%d pings in 3 periods with %d manual ones", n, ok)
					}
					mc.Outcome("%d %d %d", ok, dup, l.pingsSeen())
				})
			}
			add("two manual pingers", 3, func() {
				l := newLive(snapws.Options{PingEvery: time.Hour, ReadWait: 2 * time.Hour})
				l.p.fc.split = true
				res := make([]error, 2)
				var hs []*mc.Handle
				for i := range res {
					hs = append(hs, mc.Spawn("pinger", func() { res[i] = l.p.conn.Ping() }))
				}
				mc.Join(hs...)
				if n := l.pingsSeen(); n != 1 {
					mc.Failf("two concurrent pings: %d on the wire, results %v", n, res)
				}
				if (res[0] == nil) == (res[1] == nil) || res[0] != nil && res[0] != snapws.ErrPingAlreadySent || res[1] != nil && res[1] != snapws.ErrPingAlreadySent {
					mc.Failf("two concurrent pings: results %v", res)
				}
				l.read()
				l.p.fc.feed(pong([]byte("no")), pong(nil))
				mc.Quiesce()
				mustOK("Ping after the pong", l.p.conn.Ping())
				if n := l.pingsSeen(); n != 2 {
					mc.Failf("ping after the pong: %d on the wire", n)
				}
				l.alive("two pingers")
			})
			// traffic does not stop the keepalive
			add("traffic", 1, func() {
				P, R := 10*sec, 14*sec
				l := newLive(snapws.Options{PingEvery: time.Duration(P), ReadWait: time.Duration(R), WriteBufferSize: 24})
				l.p.fc.split = true
				l.read()
				mode := mc.Choose(3)
				mc.Spawn("client", func() {
					for n := 1; l.waitPing(n); n++ {
						l.pong()
					}
				})
				if mode == 0 {
					// a message is being streamed all the time
					w, err := l.p.conn.NextWriter(bg, opText)
					mustOK("NextWriter", err)
					mc.Spawn("streamer", func() {
						for i := 0; i < 6; i++ {
							_, err := w.Write([]byte("abcdefgh"))
							mustOK("Write", err)
							mustOK("Flush", w.Flush())
							mc.SleepNs(5 * sec)
						}
						mustOK("Close", w.Close())
					})
				}
				if mode == 1 {
					// the client streams a message
					mc.Spawn("client2", func() {
						l.p.fc.feed(frame(false, opText, []byte("a")))
						for i := 0; i < 6; i++ {
							mc.SleepNs(5 * sec)
							l.p.fc.feed(frame(false, opCont, []byte("b")))
						}
						l.p.fc.feed(frame(true, opCont, nil))
					})
				}
				if mode == 2 {
					mc.Spawn("sender", func() {
						for i := 0; i < 6; i++ {
							mustOK("send", l.p.conn.SendString(bg, tpat(i, 22)))
							mc.SleepNs(5 * sec)
						}
					})
				}
				mc.SleepNs(35 * sec)
				mc.Quiesce()
				l.alive("traffic")
				if n := l.pingsSeen(); n != 3 {
					mc.Failf("traffic mode %d: %d pings in 3 periods", mode, n)
				}
				if mode == 1 && strings.Join(l.got, ",") != "abbbbbb" {
					mc.Failf("streamed message read as %q", l.got)
				}
			})
			return out
		},
	})
}
