package harness

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"vh/mc"
	"vh/snapws"
)

// hs is one opening handshake: what the client asks and how the server is set up.
type hs struct {
	method  string
	upgrade []string
	connect []string
	version []string
	key     []string
	protos  []string // requested, one string per header line
	server  []string
	reject  bool
	mws     []string
	hijack  string // "", "fails", "none", "wrapped"
	write   string // "", "err", "part"
	via     string // "upgrader", "manager", "room"
}

func okHS() hs {
	return hs{method: "GET", upgrade: []string{"websocket"}, connect: []string{"Upgrade"}, version: []string{"13"}, key: []string{wsKey}, via: "upgrader"}
}

func lines(l []string) []string {
	var out []string
	for _, x := range l {
		for _, e := range strings.Split(x, ",") {
			if e = strings.Trim(e, " \t"); e != "" {
				out = append(out, e)
			}
		}
	}
	return out
}

func hasFold(l []string, s string) bool {
	for _, x := range l {
		if len(x) == len(s) && strings.EqualFold(x, s) {
			return true
		}
	}
	return false
}

// faults is the set of statuses the client may get, nil if the request must be accepted.
func (h hs) faults() map[int]bool {
	m := map[int]bool{}
	if h.method != "GET" {
		m[405] = true
	}
	if !hasFold(lines(h.upgrade), "websocket") {
		m[426] = true
	}
	if !hasFold(lines(h.connect), "upgrade") {
		m[400] = true
	}
	if len(h.version) == 0 || strings.Trim(h.version[0], " ") != "13" {
		m[400] = true
	}
	k := ""
	if len(h.key) > 0 {
		k = strings.Trim(h.key[0], " ")
	}
	if b, err := base64.StdEncoding.DecodeString(k); err != nil || len(b) != 16 {
		m[400] = true
	}
	if h.reject && h.proto() == "" {
		m[400] = true
	}
	for _, w := range h.mws {
		switch w {
		case "403":
			m[403] = true
		case "429":
			m[429] = true
		case "plain":
			m[400] = true
		}
	}
	return m
}

func (h hs) proto() string {
	for _, x := range lines(h.protos) {
		for _, s := range h.server {
			if s == x {
				return x
			}
		}
	}
	return ""
}

func (h hs) request() *http.Request {
	r, _ := http.NewRequest("GET", "http://host/ws", nil)
	r.Method = h.method
	r.Header = http.Header{}
	add := func(k string, l []string) {
		for _, v := range l {
			r.Header.Add(k, v)
		}
	}
	add("Upgrade", h.upgrade)
	add("Connection", h.connect)
	add("Sec-WebSocket-Version", h.version)
	add("Sec-WebSocket-Key", h.key)
	add("Sec-WebSocket-Protocol", h.protos)
	return r
}

// noHijack is a response writer that cannot be hijacked.
type noHijack struct{ w *respWriter }

func (n noHijack) Header() http.Header         { return n.w.Header() }
func (n noHijack) WriteHeader(c int)           { n.w.WriteHeader(c) }
func (n noHijack) Write(p []byte) (int, error) { return n.w.Write(p) }

// wrapped is a middleware's response writer.
type wrapped struct{ noHijack }

func (n wrapped) Unwrap() http.ResponseWriter { return n.w }

var errNoHijack = errors.New("cannot hijack")

// do performs the handshake and judges it.
func (h hs) do() {
	o := &snapws.Options{SubProtocols: h.server, RejectRaw: h.reject, WriteWait: time.Hour}
	base := mc.LiveLib()
	p := newPeer("client")
	var atHook []byte
	var hook *snapws.Conn
	connects, discs, regs, joins := 0, 0, 0, 0
	o.OnConnect = func(c *snapws.Conn) {
		connects++
		hook = c
		atHook = append([]byte{}, p.fc.out...)
	}
	o.OnDisconnect = func(*snapws.Conn) { discs++ }
	u := snapws.NewUpgrader(quiet(o))
	req := h.request()
	rw := response(p.fc, 4096, 4096, nil)
	var w http.ResponseWriter = rw
	ran := 0
	for _, k := range h.mws {
		u.Use(func(mw http.ResponseWriter, mr *http.Request) error {
			ran++
			if mr != req || mw != w {
				mc.Failf("the middleware gets another request or response")
			}
			if rw.hij > 0 || len(rw.status) > 0 {
				mc.Failf("a middleware runs after the response")
			}
			switch k {
			case "403":
				return snapws.NewMiddlewareErr(403, "go away")
			case "429":
				return &snapws.MiddlewareErr{Code: 429, Message: "later"}
			case "plain":
				return errors.New("no")
			}
			return nil
		})
	}
	switch h.hijack {
	case "fails":
		rw.hijErr = errNoHijack
	case "none":
		w = noHijack{rw}
	case "wrapped":
		w = wrapped{noHijack{rw}}
	}
	if h.write != "" {
		p.fc.fault = func(op string) string {
			if op == "write" {
				return h.write
			}
			return ""
		}
	}
	var err error
	var m *snapws.Manager[int]
	var room *snapws.Room[int]
	switch h.via {
	case "upgrader":
		p.conn, err = u.Upgrade(w, req)
	case "manager":
		m = snapws.NewManager[int](u)
		m.OnRegister = func(*snapws.ManagedConn[int]) { regs++ }
		k, e := m.Connect(7, w, req)
		err = e
		if k != nil {
			p.conn = k.Conn
		}
	case "room":
		rm := snapws.NewRoomManager[int](u)
		rm.DefaultOnJoin = func(*snapws.Room[int], *snapws.Conn, ...any) { joins++ }
		p.conn, room, err = rm.Connect(w, req, 7)
	}
	faults := h.faults()
	handed := len(faults) == 0
	if handed && (h.hijack == "fails" || h.hijack == "none") {
		faults[500] = true
	}
	what := fmt.Sprintf("%+v", h)
	if len(faults) > 0 || h.write != "" {
		if err == nil || p.conn != nil {
			mc.Failf("refused handshake %s returns %v and a connection: %v", what, err, p.conn != nil)
		}
		if connects+discs+regs+joins > 0 {
			mc.Failf("refused handshake %s runs hooks: connect %d disconnect %d register %d join %d", what, connects, discs, regs, joins)
		}
		nothingRuns("refused handshake", base)
		if m != nil && (len(m.GetAllConns()) != 0 || m.Get(7) != nil) {
			mc.Failf("refused connection is registered")
		}
		if room != nil {
			mc.Failf("refused connection joins a room")
		}
		if len(faults) > 0 {
			if len(rw.status) != 1 || !faults[rw.status[0]] || len(p.fc.out) > 0 {
				mc.Failf("handshake %s is answered with statuses %v and %q, want one of %v", what, rw.status, clip(p.fc.out), faults)
			}
			if p.fc.closed || rw.hij > 1 || rw.hij == 1 && rw.hijErr == nil {
				mc.Failf("handshake %s: connection hijacked or closed although it is refused", what)
			}
			if len(h.mws) > 0 && rw.status[0] == 403 && !strings.Contains(rw.body.String(), "go away") {
				mc.Failf("the middleware's message is lost: %q", rw.body.String())
			}
		} else if !p.fc.closed {
			mc.Failf("handshake response cannot be written, but the transport stays open")
		}
		return
	}
	if err != nil || p.conn == nil {
		mc.Failf("valid handshake %s is refused: %v", what, err)
	}
	if len(rw.status) > 0 || rw.hij != 1 {
		mc.Failf("handshake %s: statuses %v, hijacked %d times", what, rw.status, rw.hij)
	}
	if ran != len(h.mws) {
		mc.Failf("%d of %d middlewares ran", ran, len(h.mws))
	}
	if connects != 1 || hook != p.conn {
		mc.Failf("connect hook ran %d times", connects)
	}
	if !bytes.Equal(atHook, p.fc.out) {
		mc.Failf("the connect hook ran before the response was written: %q of %q", atHook, p.fc.out)
	}
	res, e := http.ReadResponse(bufio.NewReader(bytes.NewReader(p.fc.out)), req)
	if e != nil || res.StatusCode != 101 || !hasFold(lines(res.Header["Upgrade"]), "websocket") || !hasFold(lines(res.Header["Connection"]), "upgrade") {
		mc.Failf("handshake %s is answered with %q", what, p.fc.out)
	}
	p.shaken()
	if p.ws != len(p.fc.out) {
		mc.Failf("something follows the response: %q", p.fc.out)
	}
	sum := sha1.Sum([]byte(strings.Trim(h.key[0], " ") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	if a := res.Header["Sec-Websocket-Accept"]; len(a) != 1 || a[0] != base64.StdEncoding.EncodeToString(sum[:]) {
		mc.Failf("accept value is %q for key %q", a, h.key)
	}
	if a := res.Header["Sec-Websocket-Protocol"]; h.proto() == "" && len(a) > 0 || h.proto() != "" && (len(a) != 1 || a[0] != h.proto()) || p.conn.SubProtocol != h.proto() {
		mc.Failf("handshake %s selects subprotocol %q (%q), want %q", what, a, p.conn.SubProtocol, h.proto())
	}
	if m != nil && (regs != 1 || m.Get(7) == nil || m.Get(7).Conn != p.conn) {
		mc.Failf("accepted connection is not registered")
	}
	if h.via == "room" && (room == nil || joins != 1 || len(room.GetAllConns()) != 1) {
		mc.Failf("accepted connection is not in the room")
	}
	p.works("handshake")
}

func init() {
	Reg(&mc.Property{
		ID:   "C22",
		Rule: "every header variant (case, spacing, lists, several lines, missing, empty, wrong) alone, in every pair and in every triple with variants of the other headers, subprotocol setting, middleware list, hijack outcome and write outcome, through the upgrader and both managers; every response is parsed and compared with a reference predicate. Concurrent handshakes under all schedules and transport faults up to the deviation bound.",
		Scenarios: func(tier string) []mc.Scenario {
			th := tier == "thorough"
			var out []mc.Scenario
			l := func(s ...string) []string { return s }
			type vary struct {
				name string
				n    int
				set  func(h *hs, i int)
			}
			list := func(name string, f func(h *hs, v []string), vs ...[]string) vary {
				return vary{name, len(vs), func(h *hs, i int) { f(h, vs[i]) }}
			}
			str := func(name string, f func(h *hs, v string), vs ...string) vary {
				return vary{name, len(vs), func(h *hs, i int) { f(h, vs[i]) }}
			}
			k16 := func(seed int) string { return base64.StdEncoding.EncodeToString(pat(seed, 16)) }
			kn := func(n int) string { return base64.StdEncoding.EncodeToString(pat(1, n)) }
			vs := []vary{
				str("method", func(h *hs, v string) { h.method = v }, "POST", "PUT", "HEAD", "CONNECT", "OPTIONS", "get", "GETX"),
				list("upgrade", func(h *hs, v []string) { h.upgrade = v },
					l("WebSocket"), l("WEBSOCKET"), l("h2c, websocket"), l("websocket,h2c"), l("h2c", "websocket"), l("websocket", "h2c"), l(" websocket "), l("a,\twebSocket\t, x"), l(",websocket,"), l("", "websocket"), l("x,y", "z", "q , Websocket"),
					nil, l(""), l("h2c"), l("websockets"), l("web socket"), l("xwebsocket"), l("websocket;q=1"), l("websocket x"), l("h2c", "tls/1.0"), l(","), l("web,socket"), l("web", "socket"), l("\"websocket\"")),
				list("connection", func(h *hs, v []string) { h.connect = v },
					l("upgrade"), l("UPGRADE"), l("keep-alive, Upgrade"), l("Upgrade, keep-alive"), l("keep-alive", "Upgrade"), l("Upgrade", "close"), l(" upgrade "), l("keep-alive,upGrade,x"), l("a", "b", "c,\tUpgrade"), l(",Upgrade"),
					nil, l(""), l("keep-alive"), l("Upgrades"), l("up grade"), l("keep-alive Upgrade"), l("Upgrade-Insecure-Requests"), l("close", "keep-alive"), l("up", "grade")),
				list("version", func(h *hs, v []string) { h.version = v },
					l(" 13 "), nil, l(""), l("8"), l("12"), l("14"), l("013"), l("1"), l("3"), l("130"), l("13.0"), l("thirteen"), l("0x0d"), l("-13")),
				list("key", func(h *hs, v []string) { h.key = v },
					l(k16(3)), l(k16(77)), l(k16(200)), l(" "+k16(5)+" "), l("AAAAAAAAAAAAAAAAAAAAAA=="), l("/////////////////////w=="), l("++++++++++++++++++++++=="[:22]+"=="),
					nil, l(""), l(kn(15)), l(kn(17)), l(kn(8)), l(kn(32)), l(kn(1)), l(strings.TrimRight(wsKey, "=")), l("x"+wsKey), l(wsKey+"x"), l(wsKey[:10]+"-"+wsKey[11:]), l(wsKey[:10]+" "+wsKey[10:]), l("sixteen bytes!!!"), l("=="+wsKey)),
			}
			type pr struct {
				client, server []string
				reject         bool
			}
			var prs []pr
			for _, s := range [][]string{nil, {}, l("chat"), l("chat", "v2"), l("v2", "chat")} {
				for _, c := range [][]string{nil, l(""), l("chat"), l("v2"), l("v2, chat"), l("chat,v2"), l("x", "v2"), l("x , y", " chat "), l("Chat"), l("chatter"), l("cha t"), l("x"), l(","), l("v1,,v2"), l("v2;chat"), l("v2 chat")} {
					for _, r := range []bool{false, true} {
						prs = append(prs, pr{c, s, r})
					}
				}
			}
			vs = append(vs, vary{"subprotocol", len(prs), func(h *hs, i int) { h.protos, h.server, h.reject = prs[i].client, prs[i].server, prs[i].reject }})
			vs = append(vs, list("middleware", func(h *hs, v []string) { h.mws = v }, l("ok"), l("ok", "ok"), l("403"), l("429"), l("plain"), l("ok", "403"), l("403", "ok"), l("ok", "ok", "plain"), l("403", "429"), l("plain", "403")))
			vs = append(vs, str("hijack", func(h *hs, v string) { h.hijack = v }, "fails", "none", "wrapped"))
			vs = append(vs, str("write", func(h *hs, v string) { h.write = v }, "err", "part"))
			vs = append(vs, str("via", func(h *hs, v string) { h.via = v }, "manager", "room"))
			for i := range vs {
				for j := i; j < len(vs); j++ {
					a, b := vs[i], vs[j]
					out = append(out, mc.Scenario{Name: a.name + " and " + b.name, Bound: 0, Body: func() {
						h := okHS()
						a.set(&h, mc.Choose(a.n))
						if i != j {
							b.set(&h, mc.Choose(b.n))
						}
						h.do()
					}})
				}
			}
			{
				for i := 0; i < len(vs); i++ {
					for j := i + 1; j < len(vs); j++ {
						for k := j + 1; k < len(vs); k++ {
							a, b, c := vs[i], vs[j], vs[k]
							out = append(out, mc.Scenario{Name: a.name + ", " + b.name + " and " + c.name, Bound: 0, Body: func() {
								h := okHS()
								a.set(&h, mc.Choose(a.n))
								b.set(&h, mc.Choose(b.n))
								c.set(&h, mc.Choose(c.n))
								h.do()
							}})
						}
					}
				}
			}
			out = append(out, mc.Scenario{Name: "plain", Bound: 2, Body: func() { okHS().do() }})
			// keys: the accept value
			out = append(out, mc.Scenario{Name: "every byte of the key", Bound: 0, Body: func() {
				h := okHS()
				b := pat(9, 16)
				b[mc.Choose(16)] = byte(mc.Choose(256))
				h.key = l(base64.StdEncoding.EncodeToString(b))
				h.do()
			}})
			// concurrent handshakes on one upgrader
			kinds := []string{"good", "proto", "bad key", "refused", "no hijack", "broken", "closing", "early"}
			for i, x := range kinds {
				for _, y := range kinds[i:] {
					for _, via := range []string{"upgrader", "manager"} {
						out = append(out, mc.Scenario{Name: fmt.Sprintf("%s and %s via %s", x, y, via), Bound: 2 + b2i(th), Body: func() {
							var cons, discs []*snapws.Conn
							ps := []*peer{newPeer("0"), newPeer("1")}
							o := &snapws.Options{SubProtocols: l("a", "b"), WriteWait: time.Hour}
							o.OnConnect = func(c *snapws.Conn) {
								cons = append(cons, c)
								found := false
								for _, p := range ps {
									if c.NetConn() == net.Conn(p.fc) {
										found = true
										p.shaken()
										if string(p.fc.out[p.ws:]) != "" {
											mc.Failf("something is sent before the connect hook")
										}
									}
								}
								if !found {
									mc.Failf("connect hook with an unknown connection")
								}
								mustOK("SendString in the hook", c.SendString(context.Background(), []byte("hello")))
							}
							o.OnDisconnect = func(c *snapws.Conn) { discs = append(discs, c) }
							u := snapws.NewUpgrader(quiet(o))
							u.Use(func(w http.ResponseWriter, r *http.Request) error {
								mc.Point("middleware")
								if r.Header.Get("X-Refuse") != "" {
									return snapws.NewMiddlewareErr(403, "refused")
								}
								return nil
							})
							m := snapws.NewManager[int](u)
							var hs []*mc.Handle
							ok := 0
							for i, k := range []string{x, y} {
								hs = append(hs, mc.Spawn(k, func() {
									p := ps[i]
									req := request()
									req.Header.Set("Sec-WebSocket-Key", k16(i))
									rw := response(p.fc, 4096, 4096, nil)
									status := 0
									proto := ""
									switch k {
									case "proto":
										proto = []string{"a", "b"}[i]
										req.Header.Set("Sec-WebSocket-Protocol", "x, "+proto)
									case "bad key":
										req.Header.Set("Sec-WebSocket-Key", "short")
										status = 400
									case "refused":
										req.Header.Set("X-Refuse", "1")
										status = 403
									case "no hijack":
										rw.hijErr = errNoHijack
										status = 500
									case "broken":
										p.fc.fault = func(op string) string {
											if op == "write" {
												return "err"
											}
											return ""
										}
										status = -1
									case "early":
										p.fc.feed(text("early"))
									}
									var c *snapws.Conn
									var err error
									if via == "manager" {
										kc, e := m.Connect(i, rw, req)
										err = e
										if kc != nil {
											c = kc.Conn
										}
									} else {
										c, err = u.Upgrade(rw, req)
									}
									if (err != nil) != (status != 0) || (c == nil) != (status != 0) {
										mc.Failf("%s: connection %v, error %v", k, c != nil, err)
									}
									if status > 0 && (len(rw.status) != 1 || rw.status[0] != status || len(p.fc.out) > 0) {
										mc.Failf("%s: statuses %v, %q", k, rw.status, clip(p.fc.out))
									}
									if status != 0 {
										return
									}
									ok++
									p.conn = c
									sum := sha1.Sum([]byte(k16(i) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
									head := string(p.fc.out[:p.ws])
									if !strings.Contains(head, base64.StdEncoding.EncodeToString(sum[:])) || strings.Contains(head, "Protocol: "+proto) != (proto != "") || c.SubProtocol != proto {
										mc.Failf("%s: response %q", k, head)
									}
									if len(rw.status) > 0 {
										mc.Failf("%s: statuses %v", k, rw.status)
									}
									switch k {
									case "closing":
										c.Close()
									case "early":
										p.expectMsg(rapi{"message", 0}, cmsg{opText, []byte("early")}, "early")
									}
								}))
							}
							mc.Join(hs...)
							if len(cons) != ok || len(discs) != b2i(x == "closing")+b2i(y == "closing") {
								mc.Failf("%d successful handshakes, connect hook ran %d times, disconnect hook %d times", ok, len(cons), len(discs))
							}
							for i, k := range []string{x, y} {
								p := ps[i]
								if p.conn != nil && k != "closing" {
									w := p.expectOpen(k)
									if len(w.msgs) != 1 || string(w.msgs[0].data) != "hello" {
										mc.Failf("%s: messages %v", k, w.msgs)
									}
									p.works(k)
								}
								if via == "manager" && (m.Get(i) != nil) != (p.conn != nil && k != "closing") {
									mc.Failf("%s: registered %v", k, m.Get(i) != nil)
								}
							}
						}})
					}
				}
			}
			return out
		},
	})
}
