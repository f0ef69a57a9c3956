package harness

import (
	"fmt"
	"time"

	"vh/mc"
	"vh/snapws"
)

// fleet is a connection manager or a room manager with its connections.
type fleet struct {
	u      *snapws.Upgrader
	m      *snapws.Manager[int]
	rm     *snapws.RoomManager[int]
	rooms  []*snapws.Room[int]
	cs     []*ship
	inHook func(c *ship, what string)
}

type ship struct {
	p       *peer
	id      int
	discs   int
	unregs  int
	joined  map[int]int
	left    map[int]int
	other   bool // something else than Shutdown may close it
	stalled bool
	key     int
	// replaced by another connection while shutting down
	replacedBy *ship
	late       bool // after Shutdown closed others
}

func newFleet(kind string, o snapws.Options, batch bool) *fleet {
	f := &fleet{}
	o.OnDisconnect = func(c *snapws.Conn) {
		s := f.find(c)
		s.discs++
		f.hook(s, "disconnect")
	}
	f.u = snapws.NewUpgrader(quiet(&o))
	if batch {
		f.u.EnableJSONBatching(bg, flushEvery)
	}
	if kind == "manager" {
		f.m = snapws.NewManager[int](f.u)
		f.m.OnUnregister = func(c *snapws.ManagedConn[int]) {
			s := f.find(c.Conn)
			s.unregs++
			f.hook(s, "unregister")
		}
		return f
	}
	f.rm = snapws.NewRoomManager[int](f.u)
	f.rm.DefaultOnJoin = func(r *snapws.Room[int], c *snapws.Conn, _ ...any) { f.find(c).joined[r.Key]++ }
	f.rm.DefaultOnLeave = func(r *snapws.Room[int], c *snapws.Conn, _ ...any) {
		s := f.find(c)
		s.left[r.Key]++
		f.hook(s, "leave")
	}
	return f
}

func (f *fleet) find(c *snapws.Conn) *ship {
	for _, s := range f.cs {
		if c.NetConn() == s.p.fc {
			return s
		}
	}
	mc.Failf("unknown connection")
	return nil
}

func (f *fleet) hook(s *ship, what string) {
	if f.inHook != nil {
		f.inHook(s, what)
	}
}

func (f *fleet) connect(room int) *ship {
	s := &ship{p: newPeer(fmt.Sprintf("client%d", len(f.cs))), id: len(f.cs), key: len(f.cs), joined: map[int]int{}, left: map[int]int{}}
	return f.board(s, room)
}

func (f *fleet) board(s *ship, room int) *ship {
	f.cs = append(f.cs, s)
	w := response(s.p.fc, 4096, 4096, nil)
	if f.m != nil {
		k, err := f.m.Connect(s.key, w, request())
		mustOK("Connect", err)
		s.p.conn = k.Conn
	} else {
		c, r, err := f.rm.Connect(w, request(), room)
		mustOK("Connect", err)
		s.p.conn = c
		for len(f.rooms) <= room {
			f.rooms = append(f.rooms, nil)
		}
		f.rooms[room] = r
	}
	s.p.shaken()
	return s
}

func (f *fleet) broadcast(d string) {
	if f.m != nil {
		f.m.BroadcastString(bg, []byte(d))
		return
	}
	for _, r := range f.rooms {
		if r != nil {
			r.BroadcastString(bg, []byte(d))
		}
	}
}

func (f *fleet) shutdown() {
	if f.m != nil {
		f.m.Shutdown()
	} else {
		f.rm.Shutdown()
	}
}

func (f *fleet) registered(s *ship) bool {
	k := f.m.Get(s.key)
	return k != nil && k.Conn == s.p.conn
}

// returned checks what must hold the moment Shutdown returns, for the first n
// connections.
func (f *fleet) returned(n int) {
	for _, s := range f.cs[:n] {
		if !s.p.fc.closed {
			mc.Failf("Shutdown returned, connection %d is not closed", s.id)
		}
		if f.m != nil && f.registered(s) {
			mc.Failf("Shutdown returned, connection %d is still registered", s.id)
		}
	}
	if f.m != nil {
		for _, k := range f.m.GetAllConns() {
			if s := f.find(k.Conn); s.id < n {
				mc.Failf("Shutdown returned, connection %d is still listed", s.id)
			}
		}
	} else if n == len(f.cs) {
		if k := f.rm.GetRoomKeys(); len(k) != 0 {
			mc.Failf("Shutdown returned, rooms %v are still listed", k)
		}
	}
}

// settled checks what must hold when everything has come to rest.
func (f *fleet) settled(n int) {
	mc.Quiesce()
	code := 1000
	if f.rm != nil {
		code = 1001
	}
	f.returned(n)
	for _, s := range f.cs[:n] {
		w := s.p.wire()
		if o := s.replacedBy; o != nil {
			// closed by its replacement, or shut down, or both
			if s.discs == 0 && (s.late || !o.p.fc.closed) {
				mc.Failf("connection %d, replaced (after Shutdown closed another: %v): it isn't disconnected, its replacement is closed: %v", s.id, s.late, o.p.fc.closed)
			}
			if s.discs > 1 || s.unregs > 1 {
				mc.Failf("connection %d, replaced: the disconnect hook ran %d times, the unregister hook %d times", s.id, s.discs, s.unregs)
			}
			continue
		} else if s.stalled {
			// its close frame cannot be delivered
		} else if s.other {
			s.p.expectClosed("shutdown")
		} else {
			s.p.expectClosed("shutdown", code)
		}
		if s.discs != 1 {
			mc.Failf("connection %d: the disconnect hook ran %d times", s.id, s.discs)
		}
		if f.m != nil && s.unregs != 1 {
			mc.Failf("connection %d: the unregister hook ran %d times", s.id, s.unregs)
		}
		for k, v := range s.joined {
			if v != 1 || s.left[k] != 1 {
				mc.Failf("connection %d: room %d: joined %d times, left %d times", s.id, k, v, s.left[k])
			}
		}
		for k, v := range s.left {
			if s.joined[k] != v {
				mc.Failf("connection %d: left room %d %d times, joined %d", s.id, k, v, s.joined[k])
			}
		}
		_ = w
	}
	for _, r := range f.rooms {
		if r == nil {
			continue
		}
		for _, c := range r.GetAllConns() {
			if s := f.find(c); s.id < n {
				mc.Failf("connection %d is still listed in room %d", s.id, r.Key)
			}
		}
	}
	for _, s := range f.cs[n:] {
		// connected while shutting down: either closed or fully usable
		if s.p.fc.closed {
			if s.discs != 1 {
				mc.Failf("connection %d: the disconnect hook ran %d times", s.id, s.discs)
			}
			continue
		}
		if f.m != nil && (!f.registered(s) || s.unregs != 0) {
			mc.Failf("connection %d made during the shutdown is open but not registered", s.id)
		}
		s.p.works("connection made during the shutdown")
	}
}

func init() {
	Reg(&mc.Property{
		ID:   "C17",
		Rule: "shutdown of a connection manager and of a room manager for every number of connections 0 to 12 over 1 to 3 rooms with shared members, with hooks that look up, broadcast, send, close their own or another connection; concurrently with closing from either side, sends, held writers, broadcasts, batches, pings, readers, further connects, a second shutdown and stalled or broken clients; all schedules up to the deviation bound; exact close codes and hook counts.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			kinds := []string{"manager", "rooms"}
			for _, kind := range kinds {
				for n := 0; n <= 12; n++ {
					for rooms := 1; rooms <= 3; rooms++ {
						if kind == "manager" && rooms > 1 {
							continue
						}
						b := 0
						if n <= 7 {
							b = 1
						}
						if n <= 2 {
							b = 2
						}
						if th {
							b++
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s %d connections %d rooms", kind, n, rooms), Bound: b, Body: func() {
							f := newFleet(kind, snapws.Options{}, false)
							for i := 0; i < n; i++ {
								f.connect(i % rooms)
							}
							if kind == "rooms" && n > 1 && rooms > 1 {
								f.rooms[1].Add(f.cs[0].p.conn) // in two rooms
								f.rm.Add(99)                   // empty room
							}
							f.shutdown()
							f.returned(n)
							f.settled(n)
							f.shutdown() // again
							f.settled(n)
						}})
					}
				}
				hooks := map[string]func(f *fleet, s *ship, what string){
					"look up": func(f *fleet, s *ship, _ string) {
						if f.m != nil {
							f.m.Get(s.id)
							f.m.GetAllConns()
							f.m.GetAllConnsAsConn(s.id)
							return
						}
						f.rm.Get(0)
						f.rm.GetRoomKeys()
						for _, r := range f.rooms {
							r.GetAllConns(s.p.conn)
						}
					},
					"broadcast": func(f *fleet, s *ship, _ string) { f.broadcast("a member left") },
					"send": func(f *fleet, s *ship, _ string) {
						for _, o := range f.cs {
							o.p.conn.SendString(bg, []byte("somebody left"))
						}
					},
					"close itself": func(f *fleet, s *ship, _ string) { s.p.conn.Close() },
					"close next": func(f *fleet, s *ship, what string) {
						if o := f.cs[(s.id+1)%len(f.cs)]; o != s && what != "disconnect" {
							o.p.conn.CloseWithCode(3001, "linked")
						}
					},
					"leave": func(f *fleet, s *ship, _ string) {
						for _, r := range f.rooms {
							r.Remove(s.p.conn)
						}
					},
				}
				for _, name := range []string{"look up", "broadcast", "send", "close itself", "close next", "leave"} {
					for _, n := range []int{2, 3, 6} {
						b := 1
						if n == 2 {
							b = 2
						}
						if th {
							b++
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s hooks %s, %d connections", kind, name, n), Bound: b, Body: func() {
							f := newFleet(kind, snapws.Options{}, false)
							for i := 0; i < n; i++ {
								f.connect(i % 2).other = name == "close next"
							}
							if kind == "rooms" {
								f.rooms[1].Add(f.cs[0].p.conn)
							}
							f.inHook = func(s *ship, what string) { hooks[name](f, s, what) }
							f.shutdown()
							f.returned(n)
							f.settled(n)
						}})
					}
				}
				acts := []string{"close", "client close", "client gone", "send", "stream", "held", "broadcast", "batch", "ping", "connect", "shutdown", "stalled", "broken", "read", "room close"}
				if kind == "manager" {
					acts = append(acts, "replace", "replace last")
				}
				run := func(as []string) func() {
					return func() {
						n := 2
						o := snapws.Options{WriteWait: time.Second, BroadcastChannelsSize: 1}
						f := newFleet(kind, o, has(as, "batch"))
						for i := 0; i < n; i++ {
							f.connect(i)
						}
						if kind == "rooms" {
							f.rooms[1].Add(f.cs[0].p.conn)
						}
						a := f.cs[0]
						c := a.p.conn
						a.p.fc.split = true
						if has(as, "held") {
							w, err := c.NextWriter(bg, opText)
							mustOK("NextWriter", err)
							w.Write([]byte("held"))
							w.Flush()
						}
						if has(as, "stalled") {
							a.stalled = true
							a.p.fc.stall = true
						}
						if has(as, "broken") {
							a.stalled = true
							a.p.fc.fault = func(op string) string {
								if op == "write" {
									return "part"
								}
								return ""
							}
						}
						var hs []*mc.Handle
						for _, act := range as {
							if act == "held" || act == "broken" {
								continue
							}
							if act == "close" || act == "client close" || act == "client gone" {
								a.other = true
							}
							if act == "send" || act == "stream" || act == "ping" || act == "broadcast" || act == "batch" || act == "stalled" {
								a.other = a.other || a.stalled
							}
							hs = append(hs, mc.Spawn(act, func() {
								switch act {
								case "close":
									c.CloseWithCode(3000, "own")
								case "client close":
									a.p.fc.feed(closeFrame(3333, "client"))
									c.ReadMessage()
								case "client gone":
									a.p.fc.feedEOF()
									c.ReadMessage()
								case "send":
									c.SendBytes(bg, []byte("hello"))
								case "stalled":
									c.SendBytes(bg, []byte("stalled"))
								case "stream":
									if w, err := c.NextWriter(bg, opText); err == nil {
										w.Write([]byte("ab"))
										w.Flush()
										w.Write([]byte("cd"))
										w.Close()
									}
								case "broadcast":
									f.broadcast("one")
									f.broadcast("two")
								case "batch":
									c.Batch([]byte("1"))
								case "ping":
									c.Ping()
								case "connect":
									f.connect(0)
								case "shutdown":
									f.shutdown()
								case "replace", "replace last":
									s, other := a, f.cs[1]
									if act == "replace last" {
										s, other = other, a
									}
									n := &ship{p: newPeer("replacement"), id: 9 + s.id, key: s.key, joined: map[int]int{}, left: map[int]int{}}
									s.replacedBy, s.late = n, other.discs > 0 && !other.other
									f.board(n, 0)
								case "read":
									_, _, err := c.ReadMessage()
									mustFatal("reading while the manager shuts down", err)
								case "room close":
									if len(f.rooms) > 0 {
										f.rooms[0].GetAllConns()
									}
								}
							}))
						}
						hs = append(hs, mc.Spawn("Shutdown", func() {
							f.shutdown()
							if !has(as, "shutdown") {
								f.returned(n)
							}
						}))
						mc.Join(hs...)
						f.settled(n)
						mc.Outcome("%v", a.p.wire().order)
					}
				}
				for i, a := range acts {
					out = append(out, mc.Scenario{Name: fmt.Sprintf("%s with %s", kind, a), Bound: 2 + b2i(th), Body: run([]string{a})})
					for _, b := range acts[i+1:] {
						if (a == "client close" || a == "client gone") && (b == "read" || b == "client gone") {
							continue // one reader
						}
						if a == "stalled" && b == "broken" {
							continue
						}
						if a == "connect" && kind == "rooms" && b == "shutdown" {
							continue // the new connection may be closed by the second shutdown
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s with %s and %s", kind, a, b), Bound: 1 + b2i(th), Body: run([]string{a, b})})
					}
				}
			}
			return out
		},
	})
}
