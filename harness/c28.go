package harness

import (
	"cmp"
	"context"
	"errors"
	"fmt"
	"net/http"
	"slices"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// hooks that call back into the library.

// caller is one connection and what its hooks and operations did to it.
type caller struct {
	p           *peer
	id          int
	key         int
	sent        []string // sent while it was open, without an error
	batched     []string // likewise
	cast        []string // broadcast to it, counted as accepted
	conns       int
	discs       int
	regs        map[int]int
	unregs      map[int]int
	joins       map[int]int
	leaves      map[int]int
	ended       bool // something closes it
	limited     int
	transported bool // its transport may die without a close frame
}

type hookWorld struct {
	u     *snapws.Upgrader
	m     *snapws.Manager[int]
	rm    *snapws.RoomManager[int]
	cs    []*caller
	alone bool // nothing runs concurrently with the trigger
	hook  string
	op    func(w *hookWorld, c *caller)
	busy  bool
	fired int
	shut  bool // a shutdown was called
	fcl   bool // the flusher was closed
	n     int
	got   [][]string          // custom send
	rooms []*snapws.Room[int] // every one that existed
}

func (w *hookWorld) find(c *snapws.Conn) *caller {
	for _, x := range w.cs {
		if c.NetConn() == x.p.fc {
			if x.p.conn == nil {
				x.p.conn = c
				x.p.shaken()
			}
			return x
		}
	}
	mc.Failf("a hook gets an unknown connection")
	return nil
}

// at runs when the library calls a hook.
func (w *hookWorld) at(hook string, c *caller) {
	if hook != w.hook || w.fired > 0 || !w.busy {
		return
	}
	w.fired++
	w.op(w, c)
}

func (w *hookWorld) closed(c *caller) bool { return c.p.fc.closed || len(c.p.wire().closes) > 0 }

func (w *hookWorld) fresh() *caller {
	c := &caller{p: newPeer(fmt.Sprintf("client%d", len(w.cs))), id: len(w.cs), regs: map[int]int{}, unregs: map[int]int{}, joins: map[int]int{}, leaves: map[int]int{}}
	w.cs = append(w.cs, c)
	return c
}

func (w *hookWorld) connect(key int) *caller {
	c := w.fresh()
	c.key = key
	for _, o := range w.cs {
		if o != c && o.key == key && o.regs[key] > 0 {
			o.ended, o.transported = true, true // replaced
		}
	}
	k, err := w.m.Connect(key, response(c.p.fc, 4096, 4096, nil), request())
	mustOK("Connect", err)
	if k.Conn != c.p.conn && c.p.conn != nil {
		mc.Failf("Connect returns another connection than the hooks got")
	}
	if c.p.conn == nil {
		c.p.conn = k.Conn
		c.p.shaken()
	}
	return c
}

func (w *hookWorld) enter(room int) *caller {
	c := w.fresh()
	c.key = -1
	k, r, err := w.rm.Connect(response(c.p.fc, 4096, 4096, nil), request(), room, "arg", room)
	mustOK("Connect to a room", err)
	if r.Key != room {
		mc.Failf("Connect to room %d returns room %d", room, r.Key)
	}
	if c.p.conn == nil {
		c.p.conn = k
		c.p.shaken()
	}
	return c
}

func (w *hookWorld) room(k int) *snapws.Room[int] { return w.rm.Add(k) }

// send sends with a kind of send and notes the outcome; dying connections may refuse.
func (w *hookWorld) send(c *caller, kind string) {
	if c == nil || c.p.conn == nil {
		return
	}
	w.n++
	d := fmt.Sprintf("\"%s %d %s\"", kind, w.n, tpat(w.n, 20))
	var err error
	switch kind {
	case "string":
		err = c.p.conn.SendString(bg, []byte(d))
	case "json":
		err = c.p.conn.SendJSON(bg, strings.Trim(d, "\""))
		d += "\n"
	case "stream":
		var x *snapws.ConnWriter
		if x, err = c.p.conn.NextWriter(bg, opText); err == nil {
			_, e1 := x.Write([]byte(d[:5]))
			e2 := x.Flush()
			_, e3 := x.Write([]byte(d[5:]))
			err = cmp.Or(e1, e2, e3, x.Close())
		}
	}
	if err == nil {
		c.sent = append(c.sent, d)
	} else if !c.ended && !w.shut {
		mc.Failf("%s to the open connection %d: %v", kind, c.id, err)
	} else if !isFatal(err) {
		mc.Failf("%s to the closed connection %d gives the non-fatal error %v", kind, c.id, err)
	}
}

func (w *hookWorld) batch(c *caller) {
	if c == nil || c.p.conn == nil {
		return
	}
	w.n++
	d := fmt.Sprintf("%d", 1000+w.n)
	err := c.p.conn.Batch([]byte(d))
	if err == nil {
		c.batched = append(c.batched, d)
	} else if !c.ended && !w.shut && !w.fcl {
		mc.Failf("batching on the open connection %d: %v", c.id, err)
	}
}

// end closes a connection.
func (w *hookWorld) end(c *caller) {
	if c == nil || c.p.conn == nil {
		return
	}
	c.ended = true
	c.p.conn.CloseWithCode(3000, "hook")
}

func newHookWorld(hook string, op func(w *hookWorld, c *caller), batch string) *hookWorld {
	w := &hookWorld{hook: hook, op: op}
	o := &snapws.Options{WriteBufferSize: 24, BroadcastChannelsSize: 4, WriteWait: time.Second, MaxBatchSize: 9}
	o.Middlwares = []snapws.Middlware{func(http.ResponseWriter, *http.Request) error { w.at("middleware", nil); return nil }}
	o.OnConnect = func(k *snapws.Conn) {
		c := w.find(k)
		if c.conns++; c.conns > 1 {
			mc.Failf("OnConnect runs twice for connection %d", c.id)
		}
		w.at("OnConnect", c)
	}
	o.OnDisconnect = func(k *snapws.Conn) {
		c := w.find(k)
		if c.discs++; c.discs > 1 {
			mc.Failf("OnDisconnect runs twice for connection %d", c.id)
		}
		if err := k.SendBytes(bg, []byte("gone")); err == nil || !isFatal(err) {
			mc.Failf("OnDisconnect runs for connection %d, sending on it gives %v", c.id, err)
		}
		w.at("OnDisconnect", c)
	}
	w.u = snapws.NewUpgrader(quiet(o))
	w.u.Limiter = snapws.NewRateLimiter(1, 2)
	w.u.Limiter.OnRateLimitHit = func(k *snapws.Conn) error {
		c := w.find(k)
		c.limited++
		w.at("OnRateLimitHit", c)
		if w.closed(c) {
			return errors.New("too fast")
		}
		return nil
	}
	w.m = snapws.NewManager[int](w.u)
	w.m.OnRegister = func(k *snapws.ManagedConn[int]) {
		c := w.find(k.Conn)
		c.regs[k.Key]++
		if w.alone && w.fired == 0 && w.m.Get(k.Key) != k {
			mc.Failf("OnRegister runs for connection %d, but its key leads elsewhere", c.id)
		}
		w.at("OnRegister", c)
	}
	w.m.OnUnregister = func(k *snapws.ManagedConn[int]) {
		c := w.find(k.Conn)
		c.unregs[k.Key]++
		if w.m.Get(k.Key) == k {
			mc.Failf("OnUnregister runs for connection %d, but it is still registered", c.id)
		}
		w.at("OnUnregister", c)
	}
	w.rm = snapws.NewRoomManager[int](w.u)
	lists := func(r *snapws.Room[int], k *snapws.Conn) bool {
		for _, x := range r.GetAllConns() {
			if x == k {
				return true
			}
		}
		return false
	}
	w.rm.DefaultOnJoin = func(r *snapws.Room[int], k *snapws.Conn, args ...any) {
		c := w.find(k)
		c.joins[r.Key]++
		if !slices.Contains(w.rooms, r) {
			w.rooms = append(w.rooms, r)
		}
		if w.alone && w.fired == 0 && !lists(r, k) {
			mc.Failf("OnJoin runs for connection %d, but it is not in room %d", c.id, r.Key)
		}
		if s, ok := snapws.GetArg[string](args, 0); len(args) > 0 && (!ok || s != "arg") {
			mc.Failf("OnJoin gets the arguments %v", args)
		}
		w.at("OnJoin", c)
	}
	w.rm.DefaultOnLeave = func(r *snapws.Room[int], k *snapws.Conn, args ...any) {
		c := w.find(k)
		c.leaves[r.Key]++
		if w.alone && w.fired == 0 && lists(r, k) {
			mc.Failf("OnLeave runs for connection %d, but it is still in room %d", c.id, r.Key)
		}
		w.at("OnLeave", c)
	}
	switch batch {
	case "json":
		w.u.EnableJSONBatching(bg, flushEvery)
	case "custom":
		w.u.EnableBatching(bg, flushEvery, func(_ context.Context, k *snapws.Conn, ms [][]byte) error {
			c := w.find(k)
			w.at("custom send", c)
			for _, m := range ms {
				w.got[c.id] = append(w.got[c.id], string(m))
			}
			return nil
		})
	}
	if batch != "" {
		w.u.Flusher.BatchPrefixFunc = func(k *snapws.Conn, ms [][]byte) []byte { w.at("prefix", w.find(k)); return []byte("0") }
		w.u.Flusher.BatchSuffixFunc = func(k *snapws.Conn, ms [][]byte) []byte { w.at("suffix", w.find(k)); return []byte("9") }
		w.got = make([][]string, 9)
	}
	for i := 0; i < 2; i++ {
		c := w.connect(i)
		w.room(0).Add(c.p.conn)
		w.room(1)
	}
	w.room(1).Add(w.cs[1].p.conn)
	return w
}

// settle checks what must hold when everything has come to rest.
func (w *hookWorld) settle(need bool) {
	mc.Quiesce()
	if w.u.Flusher != nil {
		settle(2)
	}
	if need && w.fired == 0 {
		mc.Failf("the hook %s did not run", w.hook)
	}
	w.busy = false
	for _, c := range w.cs {
		if c.p.conn != nil && c.p.fc.closed {
			c.p.conn.ReadMessage() // a replaced connection notices here
		}
	}
	mc.Quiesce()
	for _, c := range w.cs {
		if c.p.conn == nil {
			mc.Failf("connection %d was never handed out", c.id)
		}
		wr := c.p.wire()
		closed := w.closed(c)
		if closed && !c.ended && !w.shut {
			mc.Failf("connection %d was closed by nobody: % x", c.id, clip(c.p.fc.out[c.p.ws:]))
		}
		if closed && !c.transported {
			c.p.expectClosed("at the end")
		}
		if c.ended && !closed {
			mc.Failf("connection %d was closed, but is open", c.id)
		}
		if c.conns != 1 || c.discs != b2i(closed) {
			mc.Failf("connection %d (closed %v): OnConnect ran %d times, OnDisconnect %d times", c.id, closed, c.conns, c.discs)
		}
		reg := map[int]int{}
		for _, k := range w.m.GetAllConns() {
			if k.Conn == c.p.conn {
				reg[k.Key]++
				if w.m.Get(k.Key) != k {
					mc.Failf("connection %d is listed under key %d, which leads elsewhere", c.id, k.Key)
				}
			}
		}
		if closed && len(reg) > 0 {
			mc.Failf("the closed connection %d is registered: %v", c.id, reg)
		}
		for k := 0; k < 10; k++ {
			if c.unregs[k] > c.regs[k] || reg[k] > 0 && c.unregs[k] > 0 || reg[k] > 0 && c.regs[k] == 0 {
				mc.Failf("connection %d, key %d: registered %d, OnRegister %d, OnUnregister %d", c.id, k, reg[k], c.regs[k], c.unregs[k])
			}
		}
		for k := 0; k < 3; k++ {
			in := 0
			for _, r := range w.rooms {
				if r.Key != k {
					continue
				}
				for _, x := range r.GetAllConns() {
					if x == c.p.conn {
						in++
					}
				}
			}
			if in > 0 && closed {
				mc.Failf("the closed connection %d is in room %d", c.id, k)
			}
			if c.joins[k]-c.leaves[k] != in {
				mc.Failf("connection %d is listed %d times in room %d: OnJoin %d, OnLeave %d", c.id, in, k, c.joins[k], c.leaves[k])
			}
		}
		n := map[string]int{}
		for _, m := range wr.msgs {
			n[string(m.data)]++
		}
		items := map[string]int{}
		for _, m := range wr.msgs {
			if strings.HasPrefix(string(m.data), "[0,") && strings.HasSuffix(string(m.data), ",9]") {
				for _, x := range strings.Split(string(m.data[3:len(m.data)-3]), ",") {
					items[x]++
				}
			}
		}
		if w.got != nil {
			for _, x := range w.got[c.id] {
				items[x]++
			}
		}
		for _, s := range c.sent {
			if n[s] != 1 {
				mc.Failf("connection %d: %q was sent without an error and arrives %d times", c.id, s, n[s])
			}
		}
		if closed {
			if err := c.p.conn.SendBytes(bg, []byte("late")); err == nil {
				mc.Failf("the closed connection %d accepts a message", c.id)
			}
			continue
		}
		for _, s := range c.cast {
			if n[s] != 1 {
				mc.Failf("connection %d: %q was broadcast and arrives %d times", c.id, s, n[s])
			}
		}
		for _, s := range c.batched {
			if items[s] != 1 {
				mc.Failf("connection %d: %q was batched and arrives %d times: %v", c.id, s, items[s], wr.msgs)
			}
		}
		mc.SleepNs(3 * sec) // refills the limiter
		c.p.works("at the end")
	}
	// everything still works
	k := w.fresh()
	k.key = 9
	x, err := w.m.Connect(9, response(k.p.fc, 4096, 4096, nil), request())
	mustOK("Connect", err)
	k.p.conn = x.Conn
	w.room(8).Add(x.Conn)
	if n, err := w.room(8).BroadcastString(bg, []byte("last")); n != 1 || err != nil {
		mc.Failf("at the end a room broadcast reaches %d of 1, %v", n, err)
	}
	mc.Quiesce()
	if ms := k.p.wire().msgs; len(ms) != 1 || string(ms[0].data) != "last" {
		mc.Failf("at the end a new connection receives %v", ms)
	}
	k.p.conn.Close()
}

// everyone expects a broadcast at the open members.
func (w *hookWorld) cast(kind string) {
	w.n++
	d := fmt.Sprintf("%s %d", kind, w.n)
	var err error
	var n int
	var to []*caller
	if w.alone {
		for _, c := range w.cs {
			in := false
			if c.p.conn == nil {
				continue
			}
			if kind == "manager" || kind == "manager batch" {
				for _, k := range w.m.GetAllConns() {
					in = in || k.Conn == c.p.conn
				}
			} else {
				for _, k := range w.room(0).GetAllConns() {
					in = in || k == c.p.conn
				}
			}
			if in {
				to = append(to, c)
			}
		}
	}
	switch kind {
	case "manager":
		n, err = w.m.BroadcastString(bg, []byte(d))
	case "room":
		n, err = w.room(0).BroadcastBytes(bg, []byte(d))
	case "manager batch":
		d = fmt.Sprintf("%d", 1000+w.n)
		n, err = w.m.BatchBroadcast(bg, []byte(d))
	}
	if err != nil && !w.fcl && !w.shut {
		mc.Failf("broadcasting: %v", err)
	}
	if n == len(to) && err == nil {
		for _, c := range to {
			if kind == "manager batch" {
				if !w.fcl {
					c.batched = append(c.batched, d)
				}
			} else {
				c.cast = append(c.cast, d)
			}
		}
	}
}

func init() {
	type op struct {
		name  string
		f     func(w *hookWorld, c *caller)
		batch bool
	}
	self := func(f func(w *hookWorld, c *caller)) func(*hookWorld, *caller) {
		return func(w *hookWorld, c *caller) {
			if c != nil && c.p.conn != nil {
				f(w, c)
			}
		}
	}
	two := func(k string) func(*hookWorld, *caller) {
		return func(w *hookWorld, c *caller) { w.send(w.cs[1], k) }
	}
	ops := []op{
		{"send", self(func(w *hookWorld, c *caller) { w.send(c, "string") }), false},
		{"send JSON", self(func(w *hookWorld, c *caller) { w.send(c, "json") }), false},
		{"stream", self(func(w *hookWorld, c *caller) { w.send(c, "stream") }), false},
		{"ping", self(func(w *hookWorld, c *caller) {
			if err := c.p.conn.Ping(); err != nil && !c.ended && !w.shut {
				mc.Failf("Ping in a hook: %v", err)
			}
		}), false},
		{"close", self(func(w *hookWorld, c *caller) { w.end(c) }), false},
		{"batch", func(w *hookWorld, c *caller) { w.batch(c); w.batch(c); w.batch(w.cs[1]) }, true},
		{"send to another", two("string"), false},
		{"stream to another", two("stream"), false},
		{"close another", func(w *hookWorld, c *caller) { w.end(w.cs[1]) }, false},
		{"look up", func(w *hookWorld, c *caller) {
			w.m.Get(0)
			w.m.GetAllConns(1)
			w.m.GetAllConnsAsConn(0)
			w.rm.Get(0)
			w.rm.GetRoomKeys()
			w.room(0).GetAllConns()
		}, false},
		{"broadcast", func(w *hookWorld, c *caller) { w.cast("manager"); w.cast("room") }, false},
		{"batch broadcast", func(w *hookWorld, c *caller) { w.cast("manager batch") }, true},
		{"register another key", func(w *hookWorld, c *caller) {
			w.m.Register(5, &snapws.ManagedConn[int]{Conn: w.cs[1].p.conn, Key: 5, Manager: w.m})
		}, false},
		{"connect", func(w *hookWorld, c *caller) { w.connect(6) }, false},
		{"replace", func(w *hookWorld, c *caller) { w.connect(0) }, false},
		{"connect to a room", func(w *hookWorld, c *caller) { w.enter(1) }, false},
		{"shutdown", func(w *hookWorld, c *caller) { w.shut = true; w.m.Shutdown() }, false},
		{"shutdown of the rooms", func(w *hookWorld, c *caller) { w.shut = true; w.rm.Shutdown() }, false},
		{"join", self(func(w *hookWorld, c *caller) { w.room(2).Add(c.p.conn, "arg") }), false},
		{"join again", self(func(w *hookWorld, c *caller) { w.room(0).Add(c.p.conn) }), false},
		{"leave", self(func(w *hookWorld, c *caller) { w.room(0).Remove(c.p.conn) }), false},
		{"move", self(func(w *hookWorld, c *caller) { w.room(0).Move(c.p.conn, 1) }), false},
		{"move back", self(func(w *hookWorld, c *caller) { w.room(1).Move(c.p.conn, 0) }), false},
		{"remove another", func(w *hookWorld, c *caller) { w.room(0).Remove(w.cs[1].p.conn) }, false},
		{"empty the room", func(w *hookWorld, c *caller) { w.room(0).RemoveAll() }, false},
		{"close the room", func(w *hookWorld, c *caller) {
			if r := w.rm.Get(1); r != nil {
				r.Close()
			}
		}, false},
		{"close the flusher", func(w *hookWorld, c *caller) { w.fcl = true; w.u.Flusher.Close() }, true},
		{"close and send", self(func(w *hookWorld, c *caller) { w.end(c); w.send(c, "string"); w.room(2).Add(c.p.conn) }), false},
		{"metadata", self(func(w *hookWorld, c *caller) {
			c.p.conn.MetaData.Store("k", c.id)
			if v, ok := c.p.conn.MetaData.Load("k"); !ok || v != c.id {
				mc.Failf("metadata is lost")
			}
		}), false},
	}
	a := func(w *hookWorld) *caller { return w.cs[0] }
	type trigger struct {
		name  string
		hook  string
		f     func(w *hookWorld)
		batch string
	}
	triggers := []trigger{
		{"middleware", "middleware", func(w *hookWorld) { w.connect(2) }, ""},
		{"OnConnect, manager", "OnConnect", func(w *hookWorld) { w.connect(2) }, ""},
		{"OnConnect, room", "OnConnect", func(w *hookWorld) { w.enter(0) }, ""},
		{"OnRegister", "OnRegister", func(w *hookWorld) { w.connect(2) }, ""},
		{"OnRegister, replacing", "OnRegister", func(w *hookWorld) { w.connect(0) }, ""},
		{"OnJoin, connecting", "OnJoin", func(w *hookWorld) { w.enter(0) }, ""},
		{"OnJoin, added", "OnJoin", func(w *hookWorld) { w.room(1).Add(a(w).p.conn, "arg") }, ""},
		{"OnJoin, moved", "OnJoin", func(w *hookWorld) { w.room(0).Move(a(w).p.conn, 1) }, ""},
		{"OnLeave, removed", "OnLeave", func(w *hookWorld) { w.room(0).Remove(a(w).p.conn) }, ""},
		{"OnLeave, moved", "OnLeave", func(w *hookWorld) { w.room(0).Move(a(w).p.conn, 1) }, ""},
		{"OnLeave, emptied", "OnLeave", func(w *hookWorld) { w.room(0).RemoveAll() }, ""},
		{"OnLeave, room closed", "OnLeave", func(w *hookWorld) { w.room(0).Close() }, ""},
		{"OnLeave, closed", "OnLeave", func(w *hookWorld) { w.end(a(w)) }, ""},
		{"OnLeave, shutdown", "OnLeave", func(w *hookWorld) { w.shut = true; w.rm.Shutdown() }, ""},
		{"OnUnregister, closed", "OnUnregister", func(w *hookWorld) { w.end(a(w)) }, ""},
		{"OnUnregister, shutdown", "OnUnregister", func(w *hookWorld) { w.shut = true; w.m.Shutdown() }, ""},
		{"OnUnregister, client closes", "OnUnregister", func(w *hookWorld) {
			a(w).ended = true
			a(w).p.fc.feed(closeFrame(1000, "bye"))
			a(w).p.conn.ReadMessage()
		}, ""},
		{"OnDisconnect, closed", "OnDisconnect", func(w *hookWorld) { w.end(a(w)) }, ""},
		{"OnDisconnect, client closes", "OnDisconnect", func(w *hookWorld) {
			a(w).ended = true
			a(w).p.fc.feed(closeFrame(1000, "bye"))
			a(w).p.conn.ReadMessage()
		}, ""},
		{"OnDisconnect, violation", "OnDisconnect", func(w *hookWorld) {
			a(w).ended = true
			a(w).p.fc.feed([]byte{0xf1, 0x80})
			a(w).p.conn.ReadMessage()
		}, ""},
		{"OnDisconnect, write failure", "OnDisconnect", func(w *hookWorld) {
			a(w).ended, a(w).transported = true, true
			a(w).p.fc.fault = func(op string) string {
				if op == "write" {
					return "part"
				}
				return ""
			}
			a(w).p.conn.SendBytes(bg, []byte("hello"))
		}, ""},
		{"OnDisconnect, shutdown", "OnDisconnect", func(w *hookWorld) { w.shut = true; w.m.Shutdown() }, ""},
		{"OnDisconnect, room shutdown", "OnDisconnect", func(w *hookWorld) { w.shut = true; w.rm.Shutdown() }, ""},
		{"OnRateLimitHit", "OnRateLimitHit", func(w *hookWorld) {
			a(w).p.fc.feed(text("1"), text("2"), text("3"), text("4"))
			for range 4 {
				a(w).p.conn.ReadMessage()
			}
		}, ""},
		{"prefix, tick", "prefix", func(w *hookWorld) { w.batch(a(w)); settle(2) }, "json"},
		{"suffix, tick", "suffix", func(w *hookWorld) { w.batch(a(w)); settle(2) }, "json"},
		{"custom send, tick", "custom send", func(w *hookWorld) { w.batch(a(w)); settle(2) }, "custom"},
		{"prefix, full", "prefix", func(w *hookWorld) { w.batch(a(w)); w.batch(a(w)); w.batch(a(w)) }, "json"},
		{"custom send, full", "custom send", func(w *hookWorld) { w.batch(a(w)); w.batch(a(w)); w.batch(a(w)) }, "custom"},
		{"suffix, flusher closed", "suffix", func(w *hookWorld) { w.batch(a(w)); w.fcl = true; w.u.Flusher.Close(); mc.Quiesce() }, "json"},
	}
	type other struct {
		name string
		f    func(w *hookWorld)
	}
	others := []other{
		{"nothing", nil},
		{"close", func(w *hookWorld) { w.end(a(w)) }},
		{"broadcast", func(w *hookWorld) { w.cast("manager"); w.cast("room") }},
		{"leave", func(w *hookWorld) { w.room(0).Remove(a(w).p.conn); w.room(0).Add(w.cs[1].p.conn) }},
		{"send", func(w *hookWorld) { w.send(a(w), "stream") }},
		{"shutdown", func(w *hookWorld) { w.shut = true; w.m.Shutdown() }},
		{"close the room", func(w *hookWorld) { w.room(0).Close() }},
	}
	Reg(&mc.Property{
		ID:   "C28",
		Rule: "every hook the application can install, reached in every way (30 triggers: connecting through an upgrader, manager or room, replacing, joining, moving, leaving, emptying and closing rooms, closing from either side, failures, shutdowns, rate limiting, batch delivery on a tick, on a full batch and on closing), calling each of 29 groups of operations back, alone and concurrently with closing, broadcasting, leaving, sending, shutdown and room closing. All schedules up to the deviation bound. Checked: every call and every operation that ran the hook returns, each hook sees the change it reports, accepted messages arrive, hooks balance, registries agree with what is open, and everything still works.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			for _, t := range triggers {
				for _, p := range ops {
					for _, x := range others {
						bt := t.batch
						if bt == "" && p.batch {
							bt = "json"
						}
						b := 1
						if x.f == nil && th {
							b = 2
						} else if !th && (x.f == nil || bt != "" || x.name == "broadcast" || x.name == "send" || x.name == "close the room") && !strings.Contains(t.name, "room") {
							b = 0
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s: %s with %s", t.name, p.name, x.name), Bound: b, Body: func() {
							w := newHookWorld(t.hook, p.f, bt)
							w.alone = x.f == nil
							w.busy = true
							if x.f == nil {
								t.f(w)
							} else {
								if x.name == "close" {
									a(w).ended = true
								}
								if x.name == "shutdown" {
									w.shut = true
								}
								h := mc.Spawn(x.name, func() { x.f(w) })
								g := mc.Spawn("trigger", func() { t.f(w) })
								mc.Join(h, g)
							}
							w.settle(x.f == nil)
							mc.Outcome("%d", w.fired)
						}})
					}
				}
			}
			return out
		},
	})
}
