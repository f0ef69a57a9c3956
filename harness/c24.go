package harness

import (
	"context"
	"fmt"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// crowd is a small server whose every part is used at once.
type crowd struct {
	u  *snapws.Upgrader
	m  *snapws.Manager[int]
	rm *snapws.RoomManager[int]
	ps []*peer
	// an upgraded connection that nobody manages yet
	fresh *peer
}

func newCrowd(o snapws.Options, how string, limiter bool) *crowd {
	c := &crowd{}
	o.WriteWait = time.Hour
	if o.WriteBufferSize == 0 {
		o.WriteBufferSize = 32
	}
	o.OnConnect = func(*snapws.Conn) {}
	o.OnDisconnect = func(k *snapws.Conn) { k.MetaData.Store("gone", true) }
	c.u = snapws.NewUpgrader(quiet(&o))
	switch how {
	case "json":
		c.u.EnableJSONBatching(bg, flushEvery)
	case "length":
		c.u.EnablePrefixBatching(bg, flushEvery)
	}
	if limiter {
		c.u.Limiter = snapws.NewRateLimiter(1, 2)
		c.u.Limiter.OnRateLimitHit = func(k *snapws.Conn) error { k.MetaData.Store("hit", 1); return nil }
	}
	c.m = snapws.NewManager[int](c.u)
	c.m.OnRegister = func(k *snapws.ManagedConn[int]) { k.MetaData.Store("key", k.Key) }
	c.m.OnUnregister = func(k *snapws.ManagedConn[int]) { k.MetaData.Load("key") }
	c.rm = snapws.NewRoomManager[int](c.u)
	c.rm.DefaultOnJoin = func(r *snapws.Room[int], k *snapws.Conn, _ ...any) { k.MetaData.Store("room", r.Key) }
	c.rm.DefaultOnLeave = func(r *snapws.Room[int], k *snapws.Conn, _ ...any) { k.MetaData.Delete("room") }
	c.rm.Add(1)
	c.rm.Add(2)
	for i := 0; i < 2; i++ {
		c.join(i)
	}
	return c
}

// unmanaged upgrades a connection without adding it anywhere.
func (c *crowd) unmanaged() {
	c.fresh = newPeer("fresh")
	k, err := c.u.Upgrade(response(c.fresh.fc, 4096, 4096, nil), request())
	if err != nil {
		mc.Failf("Upgrade: %v", err)
	}
	c.fresh.conn = k
}

func (c *crowd) join(key int) *peer {
	p := newPeer(fmt.Sprintf("client%d", len(c.ps)))
	c.ps = append(c.ps, p)
	k, err := c.m.Connect(key, response(p.fc, 4096, 4096, nil), request())
	if err != nil {
		mc.Failf("Connect: %v", err)
	}
	p.conn = k.Conn
	if r := c.rm.Get(1); r != nil { // the rooms may have been shut down
		r.Add(p.conn, key)
	}
	return p
}

// raceOps are the operations documented as safe for concurrent use. p is the
// connection most of them work on, q another one.
var raceOps = []string{
	"bytes", "string", "json", "stream", "ping", "close", "close code", "meta", "batch", "batch json", "send expiring",
	"reader", "reader parts", "client close", "client breaks",
	"broadcast", "broadcast json", "batch broadcast", "get and list", "connect", "replace", "shutdown",
	"room broadcast", "room batch", "room add", "room remove", "room move", "room list", "room close", "room connect", "room remove all", "rooms shutdown", "rooms list",
	"flusher close", "info",
}

func (c *crowd) do(op string, id int) {
	p, q := c.ps[0].conn, c.ps[1].conn
	switch op {
	case "bytes":
		d := pat(id, 40)
		p.SendBytes(bg, d)
		d[0]++ // the caller owns the data again
		p.SendBytes(bg, d)
	case "string":
		p.SendString(bg, tpat(id, 15))
		q.SendString(bg, tpat(id, 15))
	case "json":
		p.SendJSON(bg, map[string]int{"a": id})
		p.SendJSON(bg, make(chan int))
	case "stream":
		w, err := p.NextWriter(bg, opText)
		if err != nil {
			return
		}
		d := tpat(id, 30)
		w.Write(d)
		d[0]++
		w.Flush()
		w.Write(d)
		w.Close()
		w.Close()
	case "send expiring":
		ctx, cancel := mc.WithCancel(bg)
		mc.Spawn("cancel", cancel)
		p.SendBytes(ctx, pat(id, 40))
		if w, err := p.NextWriter(ctx, opBin); err == nil {
			w.Write(pat(id, 30))
			w.Close()
		}
	case "ping":
		p.Ping()
		p.Ping()
	case "close":
		p.Close()
	case "close code":
		p.CloseWithCode(snapws.CloseGoingAway, "bye")
		p.Close()
	case "meta":
		p.MetaData.Store("x", id)
		p.MetaData.Load("x")
		p.MetaData.Range(func(k, v any) bool { return true })
		p.MetaData.Delete("x")
	case "batch":
		p.Batch(pat(id, 9))
		p.Batch(pat(id, 9))
		q.Batch(pat(id, 9))
	case "batch json":
		p.BatchJSON(id)
		mc.SleepNs(flushEvery.Nanoseconds())
		p.BatchJSON(id)
	case "reader":
		for {
			if _, _, err := p.ReadMessage(); isFatal(err) {
				return
			}
		}
	case "reader parts":
		for {
			r, _, err := p.NextReader()
			if err != nil {
				if isFatal(err) {
					return
				}
				continue
			}
			readAllK(r, 3)
		}
	case "client close":
		c.ps[0].fc.feed(closeFrame(1000, "done"))
		mc.Point("fed")
		p.ReadMessage()
	case "client breaks":
		c.ps[0].fc.feedEOF()
		p.ReadString()
	case "broadcast":
		d := tpat(id, 20)
		c.m.BroadcastString(bg, d)
		c.m.BroadcastBytes(bg, d, 1)
	case "broadcast json":
		c.m.BroadcastJSON(bg, map[string]int{"a": id})
	case "batch broadcast":
		c.m.BatchBroadcast(bg, tpat(id, 5))
		c.m.BatchBroadcastJSON(bg, id, 1)
	case "get and list":
		c.m.Get(0)
		c.m.GetAllConns()
		c.m.GetAllConnsAsConn(1)
	case "connect":
		c.join(100+id).conn.SendString(bg, []byte("new"))
	case "replace":
		c.join(0).conn.SendString(bg, []byte("new"))
	case "shutdown":
		c.m.Shutdown()
	case "room broadcast":
		if r := c.rm.Get(1); r != nil {
			r.BroadcastString(bg, tpat(id, 20))
			r.BroadcastJSON(bg, 7, q)
		}
	case "room batch":
		if r := c.rm.Get(1); r != nil {
			r.BatchBroadcast(bg, tpat(id, 5))
			r.BatchBroadcastJSON(bg, 7, q)
		}
	case "room add":
		c.rm.Add(2).Add(p, "arg")
	case "room remove":
		c.rm.Add(1).Remove(p, "arg")
	case "room move":
		c.rm.Add(1).Move(p, 2)
	case "room list":
		c.rm.Add(1).GetAllConns()
		c.rm.Add(1).GetAllConns(p)
	case "room close":
		c.rm.Add(1).Close()
	case "room connect":
		np := newPeer(fmt.Sprintf("room%d", id))
		k, _, err := c.rm.Connect(response(np.fc, 4096, 4096, nil), request(), 1, "arg")
		if err == nil {
			k.SendString(bg, []byte("new"))
		}
	case "room remove all":
		c.rm.Add(1).RemoveAll()
	case "rooms shutdown":
		c.rm.Shutdown()
	case "rooms list":
		c.rm.Get(1)
		c.rm.GetRoomKeys()
	case "flusher close":
		c.u.Flusher.Close()
		c.u.Flusher.IsClosed()
	case "fresh join":
		c.rm.Add(1).Add(c.fresh.conn, id)
	case "fresh join 2":
		c.rm.Add(2).Add(c.fresh.conn, id)
	case "fresh register":
		c.m.Register(50, &snapws.ManagedConn[int]{Conn: c.fresh.conn, Key: 50, Manager: c.m})
	case "fresh close":
		c.fresh.conn.Close()
	case "info":
		p.NetConn().RemoteAddr()
		p.NetConn()
	default:
		panic(op)
	}
}

var _ = context.Background

func init() {
	Reg(&mc.Property{
		ID:   "C24",
		Rule: "every pair of the operations documented as safe for concurrent use (with one reading goroutine, keepalive, flush ticks and hooks running), and selected triples, on a server with two managed connections in a room; all schedules up to the deviation bound. Each execution of the race-instrumented real code is judged by a happens-before race detector that sees exactly the synchronisation the code performs; buffers passed to the transport count as accessed by it.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			isReader := func(o string) bool {
				return o == "reader" || o == "reader parts" || o == "client close" || o == "client breaks"
			}
			run := func(ops []string, reads bool, o snapws.Options, how string, limiter bool) func() {
				return func() {
					c := newCrowd(o, how, limiter)
					c.ps[0].fc.split = true
					if strings.HasPrefix(ops[0], "fresh") {
						c.unmanaged()
					}
					var hs []*mc.Handle
					for i, op := range ops {
						hs = append(hs, mc.Spawn(fmt.Sprint(op, i), func() { c.do(op, i) }))
					}
					if reads {
						c.ps[0].fc.feed(text("hello there"), ping([]byte("abc")), frame(false, opBin, pat(1, 9)), pong(nil), ping(nil), frame(true, opCont, pat(2, 5)))
					}
					if reads && !isReader(ops[0]) && !isReader(ops[len(ops)-1]) {
						hs = append(hs, mc.Spawn("reader", func() { c.do("reader", 9) }))
					}
					settle(2)
					c.ps[0].conn.Close()
					mc.Join(hs...)
					settle(1)
					c.m.Shutdown()
					c.rm.Shutdown()
					settle(1)
				}
			}
			hows := []string{"json", "length"}
			for i, a := range raceOps {
				for j, b := range raceOps[i:] {
					if isReader(a) && isReader(b) {
						continue // one reader
					}
					reads := isReader(a) || isReader(b) || (i+j)%2 == 0
					out = append(out, mc.Scenario{Name: a + " and " + b, Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run([]string{a, b}, reads, snapws.Options{}, hows[(i+j)%2], (i+j)%3 == 0)})
				}
			}
			for _, t := range [][]string{
				{"bytes", "stream", "reader"}, {"bytes", "ping", "reader"}, {"batch", "broadcast", "reader"}, {"batch", "flusher close", "close"},
				{"room add", "room close", "close"}, {"room move", "rooms shutdown", "close"}, {"connect", "shutdown", "broadcast"}, {"replace", "broadcast", "close"},
				{"stream", "close", "client close"}, {"send expiring", "bytes", "close"}, {"json", "room broadcast", "client breaks"}, {"room connect", "room remove all", "rooms list"},
			} {
				for _, pe := range []time.Duration{0, time.Second} {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%v ping every %v", t, pe), Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run(t, true, snapws.Options{PingEvery: pe, WriteBufferSize: 64}, "length", false)})
				}
			}
			// a connection that several become interested in at once
			for _, t := range [][]string{
				{"fresh join", "fresh join 2"}, {"fresh join", "fresh register"}, {"fresh join", "fresh join"}, {"fresh join", "fresh close"}, {"fresh register", "fresh close"},
				{"fresh join", "fresh join 2", "room broadcast"}, {"fresh join", "fresh register", "broadcast"}, {"fresh register", "fresh join 2", "room batch"}, {"fresh join", "fresh register", "fresh close"},
			} {
				out = append(out, mc.Scenario{Name: fmt.Sprint(t), Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run(t, false, snapws.Options{}, "length", true)})
			}
			for _, a := range raceOps {
				// keepalive runs all the time; without pooling; another backpressure
				out = append(out, mc.Scenario{Name: a + " and keepalive", Bound: 1 + b2i(th), Cfg: mc.Config{TimeDev: true}, Body: run([]string{a}, true, snapws.Options{PingEvery: 30 * time.Millisecond, ReadWait: time.Hour, DisableWriteBuffersPooling: true, BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureClose}, "length", true)})
			}
			return out
		},
	})
}
