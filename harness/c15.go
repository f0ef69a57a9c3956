package harness

import (
	"fmt"
	"sort"
	"strings"

	"vh/mc"
	"vh/snapws"
)

// reg is a connection manager under test with everything that happened to its
// connections.
type reg struct {
	m    *snapws.Manager[int]
	u    *snapws.Upgrader
	cs   []*rconn
	read bool                 // every connection has a reading application
	m2   *snapws.Manager[int] // a second manager, for connections that are in both
	in2  *rconn
	// onReg, onUnreg run inside the hooks
	onConn, onReg, onUnreg func(c *rconn)
}

type rconn struct {
	p        *peer
	k        *snapws.ManagedConn[int]
	key, id  int
	conns    int // OnConnect
	regs     int
	unregs   int
	discs    int
	ended    bool // somebody closed it, or its client went away
	returned bool // Connect returned
	after    []*rconn
	replaced bool
	losing   bool // a connection under its key is being made
	readDone bool
}

func (g *reg) find(c *snapws.Conn, what string) *rconn {
	for _, r := range g.cs {
		if c != nil && c.NetConn() == r.p.fc {
			return r
		}
	}
	mc.Failf("%s called with an unknown connection", what)
	return nil
}

func newReg(read bool) *reg {
	g := &reg{read: read}
	o := &snapws.Options{
		OnConnect: func(c *snapws.Conn) {
			r := g.find(c, "OnConnect")
			r.conns++
			r.p.conn = c
			if g.onConn != nil {
				g.onConn(r)
			}
		},
		OnDisconnect: func(c *snapws.Conn) { g.find(c, "OnDisconnect").discs++ },
	}
	g.u = snapws.NewUpgrader(quiet(o))
	g.m = snapws.NewManager[int](g.u)
	g.m2 = snapws.NewManager[int](g.u)
	g.m.OnRegister = func(c *snapws.ManagedConn[int]) {
		r := g.find(c.Conn, "OnRegister")
		r.regs++
		if c.Key != r.key || c.Manager != g.m {
			mc.Failf("OnRegister gets a connection with key %v, want %v", c.Key, r.key)
		}
		if g.onReg != nil {
			r.k = c
			g.onReg(r)
		}
	}
	g.m.OnUnregister = func(c *snapws.ManagedConn[int]) {
		r := g.find(c.Conn, "OnUnregister")
		r.unregs++
		if c.Key != r.key {
			mc.Failf("OnUnregister gets a connection with key %v, want %v", c.Key, r.key)
		}
		if !r.ended && !r.losing {
			mc.Failf("OnUnregister runs for connection %d, which nobody closed", r.id)
		}
		if g.onUnreg != nil {
			g.onUnreg(r)
		}
	}
	return g
}

func (g *reg) connect(key int) *rconn {
	r := &rconn{key: key, id: len(g.cs), p: newPeer(fmt.Sprintf("client%d(key %d)", len(g.cs), key))}
	for _, o := range g.cs {
		if o.key == key && o.returned {
			r.after = append(r.after, o)
			o.losing = true
		}
	}
	g.cs = append(g.cs, r)
	k, err := g.m.Connect(key, response(r.p.fc, 4096, 4096, nil), request())
	mustOK("Connect", err)
	if k == nil || k.Key != key || k.Manager != g.m || k.Conn == nil || k.NetConn() != r.p.fc {
		mc.Failf("Connect(%d) returns a wrong connection", key)
	}
	r.k, r.p.conn = k, k.Conn
	r.p.shaken()
	r.returned = true
	for _, o := range r.after {
		o.replaced, o.ended = true, true
	}
	if g.read {
		mc.Spawn("reader", func() {
			for {
				if _, _, err := k.ReadMessage(); err != nil {
					break
				}
			}
			r.readDone = true
		})
	}
	return r
}

func (g *reg) end(r *rconn, how string) {
	r.ended = true
	switch how {
	case "close":
		r.k.Close()
	case "code":
		r.k.CloseWithCode(3000, "x")
	case "client":
		r.p.fc.feed(closeFrame(1000, ""))
	case "eof":
		r.p.fc.feedEOF()
	case "reset":
		r.p.fc.feedErr(errIO)
	}
	if !g.read && (how == "client" || how == "eof" || how == "reset") {
		r.k.ReadMessage()
	}
}

// listing checks that every way of looking the registry up agrees and returns it.
func (g *reg) listing() map[int]*rconn {
	l := map[int]*rconn{}
	all := g.m.GetAllConns()
	for _, k := range all {
		r := g.find(k.Conn, "GetAllConns")
		if l[k.Key] != nil {
			mc.Failf("two connections listed under key %d", k.Key)
		}
		if k.Key != r.key {
			mc.Failf("connection registered under key %d is listed with key %d", r.key, k.Key)
		}
		l[k.Key] = r
	}
	for key := 0; key < 3; key++ {
		k := g.m.Get(key)
		if (k != nil) != (l[key] != nil) || k != nil && g.find(k.Conn, "Get") != l[key] {
			mc.Failf("Get(%d) and the listing disagree", key)
		}
		n := 0
		for _, k := range g.m.GetAllConns(key) {
			n++
			if k.Key == key {
				mc.Failf("GetAllConns(%d) lists the excluded key", key)
			}
		}
		want := len(l)
		if l[key] != nil {
			want--
		}
		if n != want {
			mc.Failf("GetAllConns excluding key %d returns %d connections, want %d", key, n, want)
		}
		n = 0
		for _, c := range g.m.GetAllConnsAsConn(key) {
			n++
			if g.find(c, "GetAllConnsAsConn").key == key {
				mc.Failf("GetAllConnsAsConn(%d) lists the excluded key", key)
			}
		}
		if n != want {
			mc.Failf("GetAllConnsAsConn excluding key %d returns %d connections, want %d", key, n, want)
		}
	}
	if n := len(g.m.GetAllConnsAsConn()); n != len(l) {
		mc.Failf("GetAllConnsAsConn returns %d connections, GetAllConns %d", n, len(l))
	}
	return l
}

// quiescent checks everything that must hold when nothing is going on.
func (g *reg) quiescent(why string) {
	mc.Quiesce()
	l := g.listing()
	open := map[int][]*rconn{}
	for _, r := range g.cs {
		if !r.returned {
			continue
		}
		if !r.p.fc.closed {
			open[r.key] = append(open[r.key], r)
			r.p.expectOpen(why)
			if r.ended {
				mc.Failf("%s: connection %d should have been disconnected", why, r.id)
			}
			if r.unregs != 0 || r.discs != 0 {
				mc.Failf("%s: connection %d is open, but its disconnect/unregister hooks ran %d/%d times", why, r.id, r.discs, r.unregs)
			}
		}
		if r.conns != 1 || r.regs != 1 {
			mc.Failf("%s: connection %d: connect hook ran %d times, register hook %d times", why, r.id, r.conns, r.regs)
		}
		if r.unregs > 1 || r.discs > 1 {
			mc.Failf("%s: connection %d: disconnect hook ran %d times, unregister hook %d times", why, r.id, r.discs, r.unregs)
		}
		if g.read && r.ended && r.discs != 1 {
			mc.Failf("%s: connection %d ended, but its disconnect hook ran %d times", why, r.id, r.discs)
		}
	}
	for key, os := range open {
		if len(os) > 1 {
			mc.Failf("%s: %d connections are open under key %d", why, len(os), key)
		}
		if l[key] != os[0] {
			mc.Failf("%s: connection %d is open under key %d but not listed", why, os[0].id, key)
		}
	}
	for key, r := range l {
		if len(open[key]) == 0 {
			mc.Failf("%s: key %d lists connection %d, which is closed", why, key, r.id)
		}
	}
	if r := g.in2; r != nil {
		k := g.m2.Get(0)
		if closed := r.discs > 0; closed != (k == nil) {
			mc.Failf("%s: a connection also registered with another manager is closed: %v, listed there: %v", why, closed, k != nil)
		}
	}
	// a connection that nobody replaced and that closed was unregistered
	for _, r := range g.cs {
		later := false
		for _, o := range g.cs {
			later = later || o != r && o.key == r.key && !has2(r.after, o)
		}
		if r.returned && r.discs == 1 && !later && r.unregs != 1 {
			mc.Failf("%s: connection %d closed while it was registered, its unregister hook ran %d times", why, r.id, r.unregs)
		}
	}
	var s []string
	for key, r := range l {
		s = append(s, fmt.Sprintf("%d:%d", key, r.id))
	}
	sort.Strings(s)
	mc.Outcome("%s", strings.Join(s, " "))
}

func has2(l []*rconn, r *rconn) bool {
	for _, o := range l {
		if o == r {
			return true
		}
	}
	return false
}

func init() {
	Reg(&mc.Property{
		ID:   "C15",
		Rule: "all histories up to the depth of connecting under three keys, closing each connection from either side, failed upgrades and lookups, checked after every step against a reference registry with exact hook counts; hooks that look up, broadcast, close or reconnect; all schedules up to the deviation bound of concurrent connects under one key, closes from either side, lookups, kicks and broadcasts, followed by the same check at quiescence.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			// sequential histories
			for _, read := range []bool{true, false} {
				depth := 7 + b2i(th)
				out = append(out, mc.Scenario{Name: fmt.Sprintf("histories reading %v", read), Bound: 0, Body: func() {
					g := newReg(read)
					ref := map[int]*rconn{}
					for i := 0; i < depth; i++ {
						var live []*rconn
						for _, r := range g.cs {
							if r.discs == 0 {
								live = append(live, r)
							}
						}
						n := 3 + len(live)*3
						x := mc.Choose(n)
						why := ""
						switch {
						case x < 2:
							r := g.connect(x)
							ref[x] = r
							why = fmt.Sprintf("connect %d", x)
						case x == 2:
							w := response(newPeer("bad").fc, 4096, 4096, nil)
							q := request()
							q.Method = "POST"
							if k, err := g.m.Connect(0, w, q); err == nil || k != nil {
								mc.Failf("a failed upgrade returns %v, %v", k, err)
							}
							why = "failed upgrade"
						default:
							r := live[(x-3)/3]
							how := []string{"close", "client", "eof"}[(x-3)%3]
							g.end(r, how)
							mc.Quiesce()
							was := ref[r.key] == r
							if was {
								delete(ref, r.key)
							}
							if r.discs != 1 || was && r.unregs != 1 {
								mc.Failf("connection %d (registered: %v) ended by %s: disconnect hook ran %d times, unregister hook %d times", r.id, was, how, r.discs, r.unregs)
							}
							why = how
						}
						g.quiescent(why)
						l := g.listing()
						for k := 0; k < 2; k++ {
							if l[k] != ref[k] {
								mc.Failf("after %s: key %d lists %v, want %v", why, k, l[k] != nil, ref[k] != nil)
							}
						}
					}
				}})
			}
			// connections registered by hand, under several keys and with two managers
			out = append(out, mc.Scenario{Name: "explicit registration", Bound: b2i(th), Body: func() {
				u := snapws.NewUpgrader(quiet(nil))
				ms := []*snapws.Manager[int]{snapws.NewManager[int](u), snapws.NewManager[int](u)}
				unregs := map[*snapws.Conn]int{}
				for _, m := range ms {
					m.OnUnregister = func(c *snapws.ManagedConn[int]) { unregs[c.Conn]++ }
				}
				type slot struct{ m, k int }
				ref := map[slot]int{}
				var ps []*peer
				var cs []*snapws.ManagedConn[int]
				gone := map[int]bool{}
				why := ""
				for i := 0; i < 3; i++ {
					p := newPeer(fmt.Sprintf("client%d", i))
					c, err := ms[0].Connect(10+i, response(p.fc, 4096, 4096, nil), request())
					mustOK("Connect", err)
					p.conn = c.Conn
					p.shaken()
					ps, cs = append(ps, p), append(cs, c)
					ref[slot{0, 10 + i}] = i
					mc.Spawn("reader", func() {
						for {
							if _, _, err := c.ReadMessage(); err != nil {
								return
							}
						}
					})
				}
				die := func(i int) {
					gone[i] = true
					for s, c := range ref {
						if c == i {
							delete(ref, s)
						}
					}
				}
				check := func() {
					mc.Quiesce()
					for m := range ms {
						n := 0
						for _, k := range []int{0, 1, 10, 11, 12} {
							c := ms[m].Get(k)
							i, ok := ref[slot{m, k}]
							if ok {
								n++
							}
							if ok != (c != nil) || ok && c != cs[i] {
								mc.Failf("%s: manager %d key %d: want connection %d (listed %v), Get finds one: %v", why, m, k, i, ok, c != nil)
							}
						}
						if l := len(ms[m].GetAllConns()); l != n {
							mc.Failf("%s: manager %d lists %d connections, want %d", why, m, l, n)
						}
					}
					for i, p := range ps {
						if p.fc.closed != gone[i] {
							mc.Failf("%s: connection %d closed: %v", why, i, p.fc.closed)
						}
					}
				}
				check()
				for n := 0; n < 4; n++ {
					c := mc.Choose(3)
					if gone[c] {
						break
					}
					switch x := mc.Choose(5); x {
					case 0, 1, 2:
						s := []slot{{0, 0}, {0, 1}, {1, 0}}[x]
						why += fmt.Sprintf(" register %d as %v;", c, s)
						if o, ok := ref[s]; ok && o != c {
							die(o)
						}
						ref[s] = c
						ms[s.m].Register(s.k, cs[c])
					case 3:
						why += fmt.Sprintf(" close %d;", c)
						die(c)
						ps[c].conn.Close()
					case 4:
						why += fmt.Sprintf(" client %d leaves;", c)
						die(c)
						ps[c].fc.feedEOF()
					}
					check()
				}
				for i, p := range ps {
					if !gone[i] {
						die(i)
						p.conn.Close()
					}
				}
				why += " close all"
				check()
			}})
			// hooks
			type hook struct {
				name string
				f    func(g *reg, r *rconn)
			}
			hooks := []hook{
				{"nothing", nil},
				{"lookup", func(g *reg, r *rconn) { g.m.Get(r.key); g.m.GetAllConns(); g.m.GetAllConnsAsConn(1) }},
				{"broadcast", func(g *reg, r *rconn) { g.m.BroadcastString(bg, []byte("hi")) }},
				{"close itself", func(g *reg, r *rconn) { r.ended = true; r.p.conn.Close() }},
				{"client leaves", func(g *reg, r *rconn) { r.ended = true; r.p.fc.feedEOF() }},
				{"connect other key", func(g *reg, r *rconn) {
					if len(g.cs) < 6 {
						g.connect(2)
					}
				}},
			}
			for hi, a := range hooks {
				for hj, b := range hooks {
					for _, at := range []string{"connect+register", "register+unregister"} {
						if at == "connect+register" && (a.name == "connect other key" || a.name == "client leaves") {
							continue // the connection has no key yet
						}
						if at == "register+unregister" && b.name == "client leaves" {
							continue
						}
						out = append(out, mc.Scenario{Name: fmt.Sprintf("hooks %s: %s, %s", at, a.name, b.name), Bound: 1 + b2i(th), Body: func() {
							g := newReg(true)
							run := func(h hook) func(r *rconn) {
								if h.f == nil {
									return nil
								}
								return func(r *rconn) { h.f(g, r) }
							}
							if at == "connect+register" {
								g.onConn, g.onReg = run(a), run(b)
							} else {
								g.onReg, g.onUnreg = run(a), run(b)
							}
							_, _ = hi, hj
							r := g.connect(0)
							g.quiescent("connect")
							q := g.connect(1)
							g.quiescent("second connect")
							g.end(r, "close")
							g.quiescent("close")
							g.connect(0)
							g.end(q, "client")
							g.quiescent("client close")
						}})
					}
				}
			}
			// concurrency
			acts := []string{"connect", "connect", "reconnect", "connect other", "close", "client", "eof", "new and close", "kick", "look", "broadcast", "send", "register elsewhere"}
			run := func(read bool, as []string) func() {
				return func() {
					g := newReg(read)
					r0 := g.connect(0)
					var hs []*mc.Handle
					for _, a := range as {
						hs = append(hs, mc.Spawn(a, func() {
							switch a {
							case "connect":
								g.connect(0)
							case "reconnect":
								g.connect(0)
								g.connect(0)
							case "connect other":
								g.connect(1)
							case "close", "client", "eof":
								g.end(r0, a)
							case "new and close":
								g.end(g.connect(0), "close")
							case "kick":
								if k := g.m.Get(0); k != nil {
									g.find(k.Conn, "Get").ended = true
									k.Close()
								}
							case "register elsewhere":
								g.m2.Register(0, r0.k)
								g.in2 = r0
							case "look":
								g.m.GetAllConns()
								g.m.Get(0)
								g.m.GetAllConnsAsConn()
							case "broadcast":
								g.m.BroadcastString(bg, []byte("x"), 1)
							case "send":
								if k := g.m.Get(0); k != nil {
									if isFatal(k.SendString(bg, []byte("y"))) {
										g.find(k.Conn, "Get").ended = true
									}
								}
							}
						}))
					}
					mc.Join(hs...)
					mc.Quiesce()
					// the connections that lost their key to another one
					for _, r := range g.cs {
						if r.p.fc.closed {
							r.ended = true
						}
					}
					closers := false
					for _, a := range as {
						closers = closers || a == "new and close" || a == "kick" || a == "send"
					}
					connects := has(as, "connect") || has(as, "reconnect")
					g.quiescent(strings.Join(as, ","))
					if l := g.listing(); connects && !closers && l[0] == nil {
						mc.Failf("%v: nothing listed under the key although nobody closed the new connection", as)
					}
				}
			}
			fixup := func(read bool, as []string, b int) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("concurrent %v reading %v", as, read), Bound: b + b2i(th), Body: run(read, as)})
			}
			for i, a := range acts {
				for j := i + 1; j < len(acts); j++ {
					fixup(true, []string{a, acts[j]}, 2)
					if a != "client" && a != "eof" && acts[j] != "client" && acts[j] != "eof" {
						fixup(false, []string{a, acts[j]}, 2)
					}
				}
			}
			tri := []string{"connect", "reconnect", "close", "client", "new and close", "kick", "look"}
			for _, t := range triples(tri) {
				if t[0] != t[1] && t[1] != t[2] || t[0] == "connect" && t[1] == "connect" {
					fixup(true, t, 1)
				}
			}
			return out
		},
	})
}
