package harness

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"vh/mc"
	"vh/snapws"
)

// ---- reference model: atomic steps on rooms, enumerated exhaustively ----

type robj struct {
	key int
	mem uint // members, one bit per connection
}

type rstate struct {
	table  [3]int // room object per key, -1: none
	objs   []robj
	closed uint
	joins  [6][3]int8
	leaves [6][3]int8
}

func (s *rstate) clone() *rstate {
	n := *s
	n.objs = slices.Clone(s.objs)
	return &n
}

func (s *rstate) add(o, c int) {
	b := uint(1) << c
	if s.closed&b == 0 && s.objs[o].mem&b == 0 {
		s.objs[o].mem |= b
		s.joins[c][s.objs[o].key]++
	}
}

func (s *rstate) rem(o, c int) bool {
	b := uint(1) << c
	if s.objs[o].mem&b == 0 {
		return false
	}
	s.objs[o].mem &^= b
	s.leaves[c][s.objs[o].key]++
	return true
}

func (s *rstate) room(k int) int {
	if s.table[k] < 0 {
		s.objs = append(s.objs, robj{key: k})
		s.table[k] = len(s.objs) - 1
	}
	return s.table[k]
}

// outcome is what an observer can see in the end.
func (s *rstate) outcome(nc int) string {
	var l []string
	for i, o := range s.objs {
		in := s.table[o.key] == i
		if o.mem != 0 || in {
			l = append(l, fmt.Sprintf("room %d listed %v members %b", o.key, in, o.mem))
		}
	}
	sort.Strings(l)
	for c := 0; c < nc; c++ {
		l = append(l, fmt.Sprintf("conn %d joins %v leaves %v", c, s.joins[c], s.leaves[c]))
	}
	return strings.Join(l, "; ")
}

type rstep func(s *rstate, loc *int)

// outcomes enumerates every interleaving of the programs.
func outcomes(s *rstate, progs [][]rstep, nc int, set map[string]bool) {
	var rec func(s *rstate, pc []int, loc []int)
	rec = func(s *rstate, pc []int, loc []int) {
		end := true
		for i, p := range progs {
			if pc[i] < len(p) {
				end = false
				n, pc2, loc2 := s.clone(), slices.Clone(pc), slices.Clone(loc)
				p[pc[i]](n, &loc2[i])
				pc2[i]++
				rec(n, pc2, loc2)
			}
		}
		if end {
			set[s.outcome(nc)] = true
		}
	}
	loc := make([]int, len(progs))
	rec(s, make([]int, len(progs)), loc)
}

// ---- the real thing ----

type rooms struct {
	rm     *snapws.RoomManager[int]
	u      *snapws.Upgrader
	cs     []*rmember
	objs   []*snapws.Room[int] // every room ever seen
	events []string            // join/leave hook calls since last taken
	joins  [6][3]int8
	leaves [6][3]int8
	inHook func(join bool, r *snapws.Room[int], c *rmember)
}

type rmember struct {
	id    int
	p     *peer
	discs int
	gone  bool // closed or leaving by its client
}

func newRooms() *rooms {
	g := &rooms{}
	g.u = snapws.NewUpgrader(quiet(&snapws.Options{OnDisconnect: func(c *snapws.Conn) { g.find(c).discs++ }}))
	g.rm = snapws.NewRoomManager[int](g.u)
	hook := func(join bool) func(r *snapws.Room[int], c *snapws.Conn, args ...any) {
		return func(r *snapws.Room[int], c *snapws.Conn, args ...any) {
			m := g.find(c)
			m.p.conn = c
			g.saw(r)
			what := "leave"
			if join {
				what = "join"
				g.joins[m.id][r.Key]++
			} else {
				g.leaves[m.id][r.Key]++
			}
			g.events = append(g.events, fmt.Sprintf("%s %d %d %v", what, r.Key, m.id, args))
			if g.inHook != nil {
				g.inHook(join, r, m)
			}
		}
	}
	g.rm.DefaultOnJoin = hook(true)
	g.rm.DefaultOnLeave = hook(false)
	return g
}

func (g *rooms) find(c *snapws.Conn) *rmember {
	for _, m := range g.cs {
		if c.NetConn() == m.p.fc {
			return m
		}
	}
	mc.Failf("unknown connection")
	return nil
}

func (g *rooms) saw(r *snapws.Room[int]) {
	if r == nil {
		mc.Failf("nil room")
	}
	if !slices.Contains(g.objs, r) {
		g.objs = append(g.objs, r)
	}
}

func (g *rooms) member(id int) *rmember {
	m := &rmember{id: id, p: newPeer(fmt.Sprintf("client%d", id))}
	g.cs = append(g.cs, m)
	return m
}

func (g *rooms) reader(m *rmember) {
	mc.Spawn("reader", func() {
		for {
			if _, _, err := m.p.conn.ReadMessage(); err != nil {
				return
			}
		}
	})
}

// open upgrades a connection that is in no room.
func (g *rooms) open(id int) *rmember {
	m := g.member(id)
	m.p.upgrade(g.u)
	g.reader(m)
	return m
}

func (g *rooms) connect(id, key int, args ...any) *rmember {
	m := g.member(id)
	c, r, err := g.rm.Connect(response(m.p.fc, 4096, 4096, nil), request(), key, args...)
	mustOK("Connect", err)
	if c == nil || c.NetConn() != m.p.fc || r == nil || r.Key != key {
		mc.Failf("RoomManager.Connect returns a wrong connection or room")
	}
	m.p.conn = c
	m.p.shaken()
	g.saw(r)
	g.reader(m)
	return m
}

func (g *rooms) add(key int) *snapws.Room[int] {
	r := g.rm.Add(key)
	g.saw(r)
	if r.Key != key {
		mc.Failf("RoomManager.Add(%d) returns room %d", key, r.Key)
	}
	return r
}

// state reads the real rooms into the form of the model.
func (g *rooms) state() *rstate {
	s := &rstate{table: [3]int{-1, -1, -1}, joins: g.joins, leaves: g.leaves}
	keys := g.rm.GetRoomKeys()
	for _, k := range keys {
		r := g.rm.Get(k)
		if r == nil {
			mc.Failf("room key %d listed, but Get finds nothing", k)
		}
		g.saw(r)
	}
	for i, r := range g.objs {
		o := robj{key: r.Key}
		l := r.GetAllConns()
		for _, c := range l {
			m := g.find(c)
			b := uint(1) << m.id
			if o.mem&b != 0 {
				mc.Failf("connection %d listed twice", m.id)
			}
			o.mem |= b
			for _, x := range r.GetAllConns(c) {
				if x == c {
					mc.Failf("room lists an excluded connection")
				}
			}
			if n := len(r.GetAllConns(c)); n != len(l)-1 {
				mc.Failf("room of %d members lists %d when one is excluded", len(l), n)
			}
		}
		s.objs = append(s.objs, o)
		if g.rm.Get(r.Key) == r {
			s.table[r.Key] = i
			if !slices.Contains(keys, r.Key) {
				mc.Failf("room %d exists but its key is not listed", r.Key)
			}
		}
	}
	for _, m := range g.cs {
		if m.p.fc.closed {
			s.closed |= 1 << m.id
		}
	}
	return s
}

func (g *rooms) takeEvents() []string {
	e := g.events
	g.events = nil
	sort.Strings(e)
	return e
}

func init() {
	Reg(&mc.Property{
		ID:   "C16",
		Rule: "all histories up to the depth over two rooms and three connections (connect, add, remove, move, remove-all, close room, create room, close from either side; members and non-members, existing and missing targets), membership, room table and the exact hook calls with their arguments compared with a reference after each step; hooks that use the rooms; all schedules up to the deviation bound of two or three concurrent operations on shared connections, whose outcome (memberships, table, hook counts) must be one that some interleaving of the reference's atomic steps produces.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			hist := func(depth int, start string, custom bool) {
				out = append(out, mc.Scenario{Name: fmt.Sprintf("histories depth %d %s own hooks %v", depth, start, custom), Bound: 0, Body: func() {
					g := newRooms()
					ref := &rstate{table: [3]int{-1, -1, -1}}
					var objs []*snapws.Room[int] // by model object
					argOf := map[string]string{} // "obj conn" -> args given to Connect or Add
					byAdd := map[string]bool{}
					nargs := 0
					newArgs := func() []any {
						nargs++
						if nargs%3 == 0 {
							return nil
						}
						return []any{nargs, "a"}
					}
					var want []string
					selfMove := false
					alt := map[string]string{}
					leave := func(o, c int, args []any, why string) {
						k := fmt.Sprintf("%d %d", o, c)
						if ref.rem(o, c) {
							e := fmt.Sprintf("leave %d %d %v", ref.objs[o].key, c, args)
							if why == "close" {
								e = fmt.Sprintf("leave %d %d %s", ref.objs[o].key, c, argOf[k])
								if byAdd[k] {
									alt[e] = fmt.Sprintf("leave %d %d []", ref.objs[o].key, c)
								}
							}
							want = append(want, e)
						}
					}
					join := func(o, c int, args []any, add bool) {
						k := fmt.Sprintf("%d %d", o, c)
						n := ref.joins[c][ref.objs[o].key]
						ref.add(o, c)
						if ref.joins[c][ref.objs[o].key] != n {
							want = append(want, fmt.Sprintf("join %d %d %v", ref.objs[o].key, c, args))
							argOf[k], byAdd[k] = fmt.Sprint(args), add
						}
					}
					room := func(key int) int { // reference of rm.Add
						o := ref.room(key)
						if o == len(objs) {
							objs = append(objs, nil)
						}
						return o
					}
					learn := func(key int) {
						if o := ref.table[key]; o >= 0 && objs[o] == nil {
							objs[o] = g.rm.Get(key)
							if objs[o] == nil {
								mc.Failf("room %d does not exist after its creation", key)
							}
							if slices.Contains(objs[:o], objs[o]) {
								mc.Failf("a closed room came back")
							}
							if custom {
								r := objs[o]
								j, l := r.OnJoin, r.OnLeave
								r.OnJoin = func(r *snapws.Room[int], c *snapws.Conn, a ...any) {
									j(r, c, a...)
								}
								r.OnLeave = func(r *snapws.Room[int], c *snapws.Conn, a ...any) { l(r, c, a...) }
							}
						}
					}
					do := func(op string, o, c, k int) {
						switch op {
						case "connect":
							a := newArgs()
							id := len(g.cs)
							g.connect(id, k, a...)
							join(room(k), id, a, false)
							learn(k)
						case "open":
							g.open(len(g.cs))
						case "create":
							r := g.add(k)
							x := room(k)
							if objs[x] != nil && objs[x] != r {
								mc.Failf("RoomManager.Add returns a second room for key %d", k)
							}
							learn(k)
						case "add":
							a := newArgs()
							objs[o].Add(g.cs[c].p.conn, a...)
							join(o, c, a, true)
						case "remove":
							a := newArgs()
							objs[o].Remove(g.cs[c].p.conn, a...)
							leave(o, c, a, "")
						case "move":
							objs[o].Move(g.cs[c].p.conn, k)
							leave(o, c, nil, "")
							selfMove = ref.table[k] == o
							if ref.table[k] >= 0 {
								join(ref.table[k], c, nil, true)
							}
						case "removeAll":
							objs[o].RemoveAll()
							for c := range g.cs {
								leave(o, c, nil, "")
							}
						case "closeRoom":
							objs[o].Close()
							for c := range g.cs {
								leave(o, c, nil, "")
							}
							if ref.table[ref.objs[o].key] == o {
								ref.table[ref.objs[o].key] = -1
							}
						case "close", "client":
							g.cs[c].gone = true
							if op == "close" {
								g.cs[c].p.conn.Close()
							} else {
								g.cs[c].p.fc.feed(closeFrame(1001, "bye"))
							}
							mc.Quiesce()
							for o := range ref.objs {
								leave(o, c, nil, "close")
							}
							ref.closed |= 1 << c
						}
					}
					switch start {
					case "two rooms":
						do("connect", 0, 0, 0)
						do("connect", 0, 0, 1)
					case "one room":
						do("connect", 0, 0, 0)
					case "both":
						do("connect", 0, 0, 0)
						do("create", 0, 0, 1)
						do("add", 1, 0, 0)
						do("connect", 0, 0, 1)
					}
					check := func(why string) {
						mc.Quiesce()
						got := g.takeEvents()
						if selfMove && len(got) == 0 {
							want = nil
						}
						selfMove = false
						sort.Strings(want)
						if fmt.Sprint(got) != fmt.Sprint(want) {
							ok := len(got) == len(want)
							w := slices.Clone(want)
							for i := range w {
								if a, has := alt[w[i]]; has && !slices.Contains(got, w[i]) {
									w[i] = a
								}
							}
							sort.Strings(w)
							if !ok || fmt.Sprint(got) != fmt.Sprint(w) {
								mc.Failf("%s: hooks called: %q, want %q", why, got, want)
							}
						}
						want, alt = nil, map[string]string{}
						a, b := g.state().outcome(len(g.cs)), ref.outcome(len(g.cs))
						if a != b {
							mc.Failf("%s: rooms are [%s], want [%s]", why, a, b)
						}
						for _, m := range g.cs {
							if m.p.fc.closed != m.gone || m.discs != b2i(m.gone) {
								mc.Failf("%s: connection %d closed %v (disconnect hook %d times), want %v", why, m.id, m.p.fc.closed, m.discs, m.gone)
							}
						}
					}
					check("start")
					for i := 0; i < depth; i++ {
						var ops []func() string
						op := func(name string, o, c, k int) {
							ops = append(ops, func() string {
								do(name, o, c, k)
								return fmt.Sprintf("%s room object %d connection %d key %d", name, o, c, k)
							})
						}
						for k := 0; k < 2; k++ {
							if len(g.cs) < 3 {
								op("connect", 0, 0, k)
							}
							if ref.table[k] < 0 || i == 0 {
								op("create", 0, 0, k)
							}
						}
						if len(g.cs) < 3 {
							op("open", 0, 0, 0)
						}
						for o := range ref.objs {
							if ref.table[ref.objs[o].key] != o {
								if i == depth-1 || ref.table[ref.objs[o].key] >= 0 {
									op("closeRoom", o, 0, 0) // again
								}
								continue
							}
							op("removeAll", o, 0, 0)
							op("closeRoom", o, 0, 0)
							for c, m := range g.cs {
								op("add", o, c, 0)
								op("remove", o, c, 0)
								if !m.gone && ref.objs[o].mem>>c&1 == 1 {
									op("move", o, c, 1-ref.objs[o].key)
									op("move", o, c, ref.objs[o].key) // leaves and joins, or nothing
									if i == 0 {
										op("move", o, c, 2)
									}
								}
							}
						}
						for c, m := range g.cs {
							if !m.gone {
								op("close", 0, c, 0)
								op("client", 0, c, 0)
							}
						}
						check(ops[mc.Choose(len(ops))]())
					}
				}})
			}
			hist(4, "two rooms", true)
			hist(3+b2i(th), "both", false)
			hist(4+b2i(th), "one room", false)
			// concurrent operations
			type actor struct {
				name  string
				run   func(g *rooms, r []*snapws.Room[int], t int)
				progs func(t int) [][]rstep // alternatives the reference allows
			}
			one := func(p ...rstep) func(int) [][]rstep {
				return func(int) [][]rstep { return [][]rstep{p} }
			}
			add := func(o, c int) rstep { return func(s *rstate, _ *int) { s.add(o, c) } }
			rem := func(o, c int) rstep { return func(s *rstate, _ *int) { s.rem(o, c) } }
			remAll := func(o int) rstep {
				return func(s *rstate, _ *int) {
					for c := 0; c < 6; c++ {
						s.rem(o, c)
					}
				}
			}
			drop := func(o int) rstep {
				return func(s *rstate, _ *int) {
					if s.table[s.objs[o].key] == o {
						s.table[s.objs[o].key] = -1
					}
				}
			}
			look := func(k int) rstep { return func(s *rstate, l *int) { *l = s.table[k] } }
			addLoc := func(c int) rstep {
				return func(s *rstate, l *int) {
					if *l >= 0 {
						s.add(*l, c)
					}
				}
			}
			mk := func(k int) rstep { return func(s *rstate, l *int) { *l = s.room(k) } }
			dies := func(c int) []rstep {
				p := []rstep{func(s *rstate, _ *int) { s.closed |= 1 << c }}
				for i := 0; i < 2; i++ {
					p = append(p, rem(i, c))
				}
				return append(p, func(s *rstate, _ *int) {
					for o := range s.objs {
						s.rem(o, c)
					}
				})
			}
			move := func(o, c, k int) func(int) [][]rstep {
				return func(int) [][]rstep {
					return [][]rstep{
						{rem(o, c), look(k), addLoc(c)},
						// of a connection that is no member (any more)
						{func(s *rstate, l *int) { *l = b2i(s.rem(o, c)) }, func(s *rstate, l *int) {
							if *l == 1 {
								*l = s.table[k]
							} else {
								*l = -1
							}
						}, addLoc(c)},
					}
				}
			}
			actors := []actor{
				{"add", func(g *rooms, r []*snapws.Room[int], t int) { r[1].Add(g.cs[0].p.conn, t) }, one(add(1, 0))},
				{"add again", func(g *rooms, r []*snapws.Room[int], t int) { r[0].Add(g.cs[0].p.conn, t); r[1].Add(g.cs[0].p.conn, t) }, one(add(0, 0), add(1, 0))},
				{"remove", func(g *rooms, r []*snapws.Room[int], t int) { r[0].Remove(g.cs[0].p.conn, t) }, one(rem(0, 0))},
				{"move", func(g *rooms, r []*snapws.Room[int], t int) { r[0].Move(g.cs[0].p.conn, 1) }, move(0, 0, 1)},
				{"remove and add", func(g *rooms, r []*snapws.Room[int], t int) {
					r[0].Remove(g.cs[0].p.conn, t)
					r[0].Add(g.cs[0].p.conn, t)
				}, one(rem(0, 0), add(0, 0))},
				{"removeAll", func(g *rooms, r []*snapws.Room[int], t int) { r[0].RemoveAll() }, one(remAll(0))},
				{"close room", func(g *rooms, r []*snapws.Room[int], t int) { r[0].Close() }, one(remAll(0), drop(0))},
				{"close other room", func(g *rooms, r []*snapws.Room[int], t int) { r[1].Close() }, one(remAll(1), drop(1))},
				{"conn close", func(g *rooms, r []*snapws.Room[int], t int) { g.cs[0].gone = true; g.cs[0].p.conn.Close() }, one(dies(0)...)},
				{"client close", func(g *rooms, r []*snapws.Room[int], t int) {
					g.cs[0].gone = true
					g.cs[0].p.fc.feed(closeFrame(1000, ""))
				}, one(dies(0)...)},
				{"connect", func(g *rooms, r []*snapws.Room[int], t int) { g.connect(2+t, 0, t) }, func(t int) [][]rstep { return [][]rstep{{mk(0), addLoc(2 + t)}} }},
				{"connect new room", func(g *rooms, r []*snapws.Room[int], t int) { g.connect(2+t, 2, t) }, func(t int) [][]rstep { return [][]rstep{{mk(2), addLoc(2 + t)}} }},
				{"create", func(g *rooms, r []*snapws.Room[int], t int) { g.add(0); g.add(2) }, one(mk(0), mk(2))},
				{"broadcast", func(g *rooms, r []*snapws.Room[int], t int) {
					r[0].BroadcastString(bg, []byte("x"))
					r[0].GetAllConns()
					g.rm.GetRoomKeys()
				}, one()},
				{"move second", func(g *rooms, r []*snapws.Room[int], t int) { r[0].Move(g.cs[1].p.conn, 1) }, move(0, 1, 1)},
			}
			conc := func(as []actor, b int) {
				names := ""
				for _, a := range as {
					names += " + " + a.name
				}
				nc := 2 + len(as)
				var allowed map[string]bool
				start := func() *rstate {
					s := &rstate{table: [3]int{-1, -1, -1}}
					s.add(s.room(0), 0)
					s.room(1)
					s.add(0, 1)
					return s
				}
				calc := func() {
					allowed = map[string]bool{}
					var rec func(i int, ps [][]rstep)
					rec = func(i int, ps [][]rstep) {
						if i == len(as) {
							outcomes(start(), ps, nc, allowed)
							return
						}
						for _, p := range as[i].progs(i) {
							rec(i+1, append(slices.Clone(ps), p))
						}
					}
					rec(0, nil)
				}
				out = append(out, mc.Scenario{Name: "concurrent" + names[2:], Bound: b, Body: func() {
					if allowed == nil {
						calc()
					}
					g := newRooms()
					g.connect(0, 0, "first")
					r := []*snapws.Room[int]{g.add(0), g.add(1)}
					g.connect(1, 0)
					var hs []*mc.Handle
					for t, a := range as {
						hs = append(hs, mc.Spawn(a.name, func() { a.run(g, r, t) }))
					}
					mc.Join(hs...)
					mc.Quiesce()
					s := g.state()
					o := s.outcome(nc)
					if !allowed[o] {
						var l []string
						for a := range allowed {
							l = append(l, a)
						}
						sort.Strings(l)
						mc.Failf("concurrent%s ends in [%s], which no order of these operations explains; possible: %s", names[2:], o, strings.Join(l, " | "))
					}
					for _, m := range g.cs {
						if m.p.fc.closed != m.gone || m.discs != b2i(m.gone) {
							mc.Failf("connection %d closed %v, want %v", m.id, m.p.fc.closed, m.gone)
						}
					}
					mc.Outcome("%s", o)
					// whatever the concurrency left behind, closing takes everyone out
					for _, m := range g.cs {
						m.gone = true
						m.p.conn.Close()
					}
					mc.Quiesce()
					for i, ob := range g.state().objs {
						if ob.mem != 0 {
							mc.Failf("after concurrent%s and closing every connection, room object %d (key %d) still lists %b", names[2:], i, ob.key, ob.mem)
						}
					}
					if g.joins != g.leaves {
						mc.Failf("after concurrent%s and closing every connection, joins are %v and leaves %v", names[2:], g.joins, g.leaves)
					}
				}})
			}
			for i, a := range actors {
				for j := i; j < len(actors); j++ {
					conc([]actor{a, actors[j]}, 2+b2i(th))
				}
			}
			for i, a := range actors[:11] {
				for j := i + 1; j < 11; j++ {
					for k := j + 1; k < 11; k++ {
						if th || i < 6 && (actors[k].name == "conn close" || actors[j].name == "close room" || actors[k].name == "connect") {
							conc([]actor{a, actors[j], actors[k]}, 1+b2i(th))
						}
					}
				}
			}
			// two room managers with the same keys, and connections in both
			out = append(out, mc.Scenario{Name: "two room managers", Bound: 1, Body: func() {
				a, b := newRooms(), newRooms()
				b.u, b.rm.Upgrader = a.u, a.u
				ra, rb := a.add(0), b.add(0)
				b.add(1)
				m := a.open(0)
				b.cs = a.cs
				ins := func(g *rooms, r *snapws.Room[int]) bool { return slices.Contains(r.GetAllConns(), m.p.conn) }
				want := func(why string, x, y bool) {
					mc.Quiesce()
					if ins(a, ra) != x || ins(b, rb) != y {
						mc.Failf("%s: the first manager's room lists the connection: %v, the second's: %v; want %v %v", why, ins(a, ra), ins(b, rb), x, y)
					}
				}
				why := ""
				x, y := false, false
				for i := 0; i < 3; i++ {
					switch mc.Choose(5) {
					case 0:
						ra.Add(m.p.conn)
						x, why = true, why+" add to the first"
					case 1:
						rb.Add(m.p.conn)
						y, why = true, why+" add to the second"
					case 2:
						ra.Remove(m.p.conn)
						x, why = false, why+" remove from the first"
					case 3:
						rb.RemoveAll()
						y, why = false, why+" empty the second"
					case 4:
						if x {
							ra.Close()
							x, why = false, why+" close the first"
							ra = a.add(0)
						}
					}
					want(why, x, y)
				}
				m.gone = true
				m.p.conn.Close()
				want(why+" close", false, false)
				if a.joins != a.leaves || b.joins != b.leaves {
					mc.Failf("%s: first manager joins %v leaves %v, second joins %v leaves %v", why, a.joins[0], a.leaves[0], b.joins[0], b.leaves[0])
				}
			}})
			// hooks that use the rooms
			type hk struct {
				name string
				f    func(g *rooms, join bool, r *snapws.Room[int], m *rmember)
			}
			once := func(f func(g *rooms, join bool, r *snapws.Room[int], m *rmember)) func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
				return f
			}
			hks := []hk{
				{"list", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					r.GetAllConns()
					g.rm.GetRoomKeys()
					g.rm.Get(r.Key)
				})},
				{"broadcast", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					r.BroadcastString(bg, []byte("hello"), m.p.conn)
				})},
				{"leave again", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					if !join {
						r.Remove(m.p.conn)
					}
				})},
				{"follow", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					if join && r.Key == 0 {
						g.add(1).Add(m.p.conn)
					} else if !join && r.Key == 0 {
						g.add(1).Remove(m.p.conn)
					}
				})},
				{"close", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) { m.gone = true; m.p.conn.Close() })},
				{"kick", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					if join {
						r.Remove(m.p.conn)
					}
				})},
				{"close room when empty", once(func(g *rooms, join bool, r *snapws.Room[int], m *rmember) {
					if !join && len(r.GetAllConns()) == 0 {
						r.Close()
					}
				})},
			}
			for _, h := range hks {
				out = append(out, mc.Scenario{Name: "hooks " + h.name, Bound: 2 + b2i(th), Body: func() {
					g := newRooms()
					g.inHook = func(join bool, r *snapws.Room[int], m *rmember) { h.f(g, join, r, m) }
					a := g.connect(0, 0, "x")
					b := g.connect(1, 0)
					mc.Quiesce()
					r := g.rm.Get(0)
					if r == nil {
						r = g.add(0)
					}
					h1 := mc.Spawn("remove", func() { r.Remove(a.p.conn, 1) })
					h2 := mc.Spawn("close", func() { b.gone = true; b.p.conn.Close() })
					mc.Join(h1, h2)
					r.Add(a.p.conn)
					mc.Quiesce()
					r.RemoveAll()
					mc.Quiesce()
					s := g.state()
					for i, o := range s.objs {
						want := uint(0)
						if o.key == 1 && h.name == "follow" {
							continue
						}
						if o.mem != want {
							mc.Failf("room object %d has members %b, want %b", i, o.mem, want)
						}
					}
					for _, m := range g.cs {
						for k := 0; k < 3; k++ {
							in := int8(0)
							for _, o := range s.objs {
								if o.key == k && o.mem>>m.id&1 == 1 {
									in++
								}
							}
							if g.joins[m.id][k]-g.leaves[m.id][k] != in {
								mc.Failf("connection %d joined room %d %d times and left it %d times, listed %d", m.id, k, g.joins[m.id][k], g.leaves[m.id][k], in)
							}
						}
						if m.p.fc.closed != m.gone || m.discs != b2i(m.gone) {
							mc.Failf("connection %d closed %v (hook %d), want %v", m.id, m.p.fc.closed, m.discs, m.gone)
						}
					}
				}})
			}
			return out
		},
	})
}
