// Package harness closes the library into finite systems for the model checker:
// a fake transport, a scripted or concurrent client, application threads using
// only the exported API, and oracles written from the properties.
package harness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"time"
	"unicode/utf8"

	"vh/mc"
	"vh/snapws"
)

var bg = context.Background()

// ---- fake transport ----

type segment struct {
	data []byte
	err  error // delivered after the data
}

// fconn is a net.Conn whose peer is the harness.
type fconn struct {
	name    string
	in      []segment
	out     []byte
	closed  bool
	closes  int
	closeAt int64
	rdl     int64 // 0: none
	wdl     int64
	stall   bool // the peer does not drain: writes block
	split   bool // a write is two system calls with a scheduling point between
	busy    bool // a write is in progress
	writes  int
	reads   int
	lateAt  int // len(out) at the first failed write
	failed  bool
	// fault decides what transport call number n of kind op does: "" normal,
	// "err" fails, "part" writes a part and fails.
	fault    func(op string) string
	faulted  bool
	lastRead int64
	onWrite  func(p []byte)
}

var errIO = errors.New("injected transport failure")

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

func (c *fconn) LocalAddr() net.Addr  { return addr("server") }
func (c *fconn) RemoteAddr() net.Addr { return addr(c.name) }

// feed makes the bytes available to the server as one network segment each.
func (c *fconn) feed(bs ...[]byte) {
	for _, b := range bs {
		if len(b) > 0 {
			c.in = append(c.in, segment{data: b})
		}
	}
}
func (c *fconn) feedErr(err error) { c.in = append(c.in, segment{err: err}) }
func (c *fconn) feedEOF()          { c.feedErr(io.EOF) }

func (c *fconn) doFault(op string) string {
	if c.fault == nil {
		return ""
	}
	k := c.fault(op)
	if k != "" {
		c.faulted = true
		mc.Tracef("%s: fault in %s: %s", c.name, op, k)
	}
	return k
}

func expired(dl int64) bool { return dl != 0 && mc.NowNs() >= dl }

func (c *fconn) Read(p []byte) (int, error) {
	mc.BlockDeadline("conn.Read "+c.name, func() bool {
		return c.closed || expired(c.rdl) || len(c.in) > 0
	}, func() (int64, bool) { return c.rdl, c.rdl != 0 })
	c.reads++
	if c.closed {
		return 0, net.ErrClosed
	}
	if expired(c.rdl) {
		return 0, os.ErrDeadlineExceeded
	}
	switch c.doFault("read") {
	case "err":
		return 0, errIO
	case "timeout":
		return 0, os.ErrDeadlineExceeded
	}
	if len(p) == 0 {
		return 0, nil
	}
	s := &c.in[0]
	if len(s.data) > 0 {
		n := copy(p, s.data)
		raceWrite(p[:n])
		s.data = s.data[n:]
		if len(s.data) == 0 && s.err == nil {
			c.in = c.in[1:]
		}
		return n, nil
	}
	return 0, s.err // sticky
}

func (c *fconn) Write(p []byte) (int, error) {
	mc.Block("conn.Write "+c.name, func() bool { return !c.busy })
	c.writes++
	if c.closed {
		return 0, net.ErrClosed
	}
	if expired(c.wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	k := c.doFault("write")
	if k == "err" {
		c.fails()
		return 0, errIO
	}
	if k == "stall" {
		c.stall = true
	}
	if c.onWrite != nil {
		c.onWrite(p)
	}
	c.busy = true
	defer func() { c.busy = false }()
	h := 0
	if (c.split || k == "part" || k == "stallpart") && len(p) > 1 {
		h = len(p) / 2
		c.put(p[:h])
		if k == "part" {
			c.fails()
			return h, errIO
		}
		if k == "stallpart" {
			c.stall = true
		}
		mc.Point("conn.Write half " + c.name)
	}
	if c.stall {
		mc.BlockDeadline("conn.Write stalled "+c.name, func() bool {
			return c.closed || expired(c.wdl) || !c.stall
		}, func() (int64, bool) { return c.wdl, c.wdl != 0 })
	}
	if c.closed {
		c.fails()
		return h, net.ErrClosed
	}
	if c.stall || h > 0 && expired(c.wdl) {
		c.fails()
		return h, os.ErrDeadlineExceeded
	}
	c.put(p[h:])
	return len(p), nil
}

func (c *fconn) fails() {
	if !c.failed {
		c.failed, c.lateAt = true, len(c.out)
	}
}

// late returns what was accepted after a write had failed.
func (c *fconn) late() []byte {
	if !c.failed {
		return nil
	}
	return c.out[c.lateAt:]
}

func (c *fconn) put(p []byte) {
	raceRead(p)
	c.out = append(c.out, p...)
}

func (c *fconn) Close() error {
	mc.Point("conn.Close " + c.name)
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.closeAt = mc.NowNs()
	return nil
}

func (c *fconn) setDL(op string, t time.Time, ps ...*int64) error {
	if c.closed {
		return net.ErrClosed
	}
	if c.doFault(op) != "" {
		return errIO
	}
	for _, p := range ps {
		if t.IsZero() {
			*p = 0
		} else if n := mc.ToNs(t); n > 0 {
			*p = n
		} else {
			*p = 1
		}
	}
	return nil
}
func (c *fconn) SetDeadline(t time.Time) error      { return c.setDL("setd", t, &c.rdl, &c.wdl) }
func (c *fconn) SetReadDeadline(t time.Time) error  { return c.setDL("setr", t, &c.rdl) }
func (c *fconn) SetWriteDeadline(t time.Time) error { return c.setDL("setw", t, &c.wdl) }

// ---- client frames ----

const (
	opCont, opText, opBin, opClose, opPing, opPong = 0, 1, 2, 8, 9, 10
)

var maskKey = [4]byte{0x37, 0xfa, 0x21, 0x3d}

func frameM(fin bool, op byte, payload []byte, key [4]byte) []byte {
	b := make([]byte, 0, len(payload)+14)
	b0 := op
	if fin {
		b0 |= 0x80
	}
	b = append(b, b0)
	n := len(payload)
	switch {
	case n < 126:
		b = append(b, 0x80|byte(n))
	case n < 65536:
		b = append(b, 0x80|126, byte(n>>8), byte(n))
	default:
		b = append(b, 0x80|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	b = append(b, key[:]...)
	for i, c := range payload {
		b = append(b, c^key[i%4])
	}
	return b
}

func frame(fin bool, op byte, payload []byte) []byte { return frameM(fin, op, payload, maskKey) }
func text(s string) []byte                           { return frame(true, opText, []byte(s)) }
func bin(p []byte) []byte                            { return frame(true, opBin, p) }
func ping(p []byte) []byte                           { return frame(true, opPing, p) }
func pong(p []byte) []byte                           { return frame(true, opPong, p) }
func closeFrame(code int, reason string) []byte {
	return frame(true, opClose, append([]byte{byte(code >> 8), byte(code)}, reason...))
}
func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// pat is a recognisable payload of n bytes.
func pat(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*131 + i*7 + i>>8*13 + 1)
	}
	return b
}

// tpat is a recognisable ASCII payload.
func tpat(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (seed*5+i+i/26)%26)
	}
	return b
}

// ---- what the client receives ----

type wmsg struct {
	op    byte
	data  []byte
	frags int
}

type wire struct {
	msgs   []wmsg
	pings  [][]byte
	pongs  [][]byte
	closes [][]byte
	open   *wmsg  // message without its final fragment
	tail   []byte // incomplete frame at the end
	frames int
	order  []string // "m" message end, "P" ping, "p" pong, "c" close
}

// parseWire is a strict client-side parser of everything the server sent.
func parseWire(b []byte) (*wire, error) {
	w := &wire{}
	for len(b) > 0 {
		if len(b) < 2 {
			w.tail = b
			return w, nil
		}
		fin, rsv, op := b[0]&0x80 != 0, b[0]&0x70, b[0]&15
		if rsv != 0 {
			return w, fmt.Errorf("reserved bits %#x set in frame %d", rsv, w.frames)
		}
		if b[1]&0x80 != 0 {
			return w, fmt.Errorf("masked frame %d", w.frames)
		}
		n := uint64(b[1] & 127)
		h := 2
		switch n {
		case 126:
			if len(b) < 4 {
				w.tail = b
				return w, nil
			}
			n = uint64(binary.BigEndian.Uint16(b[2:]))
			if n < 126 {
				return w, fmt.Errorf("length %d not minimal in frame %d", n, w.frames)
			}
			h = 4
		case 127:
			if len(b) < 10 {
				w.tail = b
				return w, nil
			}
			n = binary.BigEndian.Uint64(b[2:])
			if n < 65536 || n>>63 != 0 {
				return w, fmt.Errorf("length %d not minimal in frame %d", n, w.frames)
			}
			h = 10
		}
		switch op {
		case opCont:
			if w.open == nil {
				return w, fmt.Errorf("continuation without a message in frame %d", w.frames)
			}
		case opText, opBin:
			if w.open != nil {
				return w, fmt.Errorf("new message inside a fragmented one in frame %d", w.frames)
			}
		case opClose, opPing, opPong:
			if !fin || n > 125 {
				return w, fmt.Errorf("bad control frame %#x length %d fin %v", op, n, fin)
			}
			if op == opClose && n == 1 {
				return w, fmt.Errorf("close frame with one byte")
			}
		default:
			return w, fmt.Errorf("unknown opcode %d in frame %d", op, w.frames)
		}
		if len(w.closes) > 0 {
			return w, fmt.Errorf("frame with opcode %d after the close frame", op)
		}
		if uint64(len(b)-h) < n {
			w.tail = b
			return w, nil
		}
		p := append([]byte(nil), b[h:h+int(n)]...)
		b = b[h+int(n):]
		w.frames++
		switch op {
		case opPing:
			w.pings = append(w.pings, p)
			w.order = append(w.order, "P")
		case opPong:
			w.pongs = append(w.pongs, p)
			w.order = append(w.order, "p")
		case opClose:
			w.closes = append(w.closes, p)
			w.order = append(w.order, "c")
		default:
			if w.open == nil {
				w.open = &wmsg{op: op}
			}
			w.open.data = append(w.open.data, p...)
			w.open.frags++
			if fin {
				w.msgs = append(w.msgs, *w.open)
				w.open = nil
				w.order = append(w.order, "m")
			}
		}
	}
	return w, nil
}

func closeCode(p []byte) int {
	if len(p) < 2 {
		return -1
	}
	return int(p[0])<<8 | int(p[1])
}

// ---- opening a connection ----

type respWriter struct {
	hdr    http.Header
	status []int
	body   bytes.Buffer
	fc     *fconn
	brw    *bufio.ReadWriter
	hijErr error
	hij    int
}

func (w *respWriter) Header() http.Header { return w.hdr }
func (w *respWriter) WriteHeader(c int)   { w.status = append(w.status, c) }
func (w *respWriter) Write(p []byte) (int, error) {
	if len(w.status) == 0 {
		w.status = append(w.status, 200)
	}
	return w.body.Write(p)
}
func (w *respWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hij++
	if w.hijErr != nil {
		return nil, nil, w.hijErr
	}
	return w.fc, w.brw, nil
}

const wsKey = "dGhlIHNhbXBsZSBub25jZQ=="
const wsAccept = "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="

func request() *http.Request {
	r, _ := http.NewRequest("GET", "http://host/ws", nil)
	r.Header = http.Header{}
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", wsKey)
	return r
}

// response wraps a transport the way an HTTP server hands it over: br and bw are
// its buffer sizes, early is what it had already read from the client.
func response(fc *fconn, br, bw int, early []byte) *respWriter {
	rd := bufio.NewReaderSize(&earlyReader{early: early, fc: fc}, br)
	if len(early) > 0 {
		if _, err := rd.Peek(len(early)); err != nil {
			panic("harness: early data larger than the HTTP buffer")
		}
	}
	return &respWriter{hdr: http.Header{}, fc: fc, brw: bufio.NewReadWriter(rd, bufio.NewWriterSize(fc, bw))}
}

type earlyReader struct {
	early []byte
	fc    *fconn
}

func (e *earlyReader) Read(p []byte) (int, error) {
	if len(e.early) > 0 {
		n := copy(p, e.early)
		e.early = e.early[n:]
		return n, nil
	}
	return e.fc.Read(p)
}

// quiet options: no keepalive noise within the time horizon of a scenario.
func quiet(o *snapws.Options) *snapws.Options {
	if o == nil {
		o = &snapws.Options{}
	}
	if o.PingEvery == 0 {
		o.PingEvery = 10 * time.Hour
	}
	if o.ReadWait == 0 {
		o.ReadWait = 20 * time.Hour
	}
	return o
}

// peer is one client connection and what it sees.
type peer struct {
	fc   *fconn
	conn *snapws.Conn
	ws   int // offset of the first WebSocket byte in fc.out
}

func newPeer(name string) *peer { return &peer{fc: &fconn{name: name}} }

// upgrade performs the opening handshake and checks the response.
func (p *peer) upgrade(u *snapws.Upgrader) *peer { return p.upgradeSz(u, 4096, 4096) }

func (p *peer) upgradeSz(u *snapws.Upgrader, br, bw int) *peer {
	c, err := u.Upgrade(response(p.fc, br, bw, nil), request())
	if err != nil {
		mc.Failf("upgrade failed: %v", err)
	}
	p.conn = c
	p.shaken()
	return p
}

// shaken consumes the handshake response.
func (p *peer) shaken() {
	i := bytes.Index(p.fc.out, []byte("\r\n\r\n"))
	if !bytes.HasPrefix(p.fc.out, []byte("HTTP/1.1 101 ")) || i < 0 {
		mc.Failf("%s: no 101 response, got %q", p.fc.name, clip(p.fc.out))
	}
	p.ws = i + 4
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return append(append([]byte{}, b[:80]...), "..."...)
	}
	return b
}

// wire parses what the client has received so far; a protocol error is a violation.
func (p *peer) wire() *wire {
	w, err := parseWire(p.fc.out[p.ws:])
	if err != nil {
		mc.Failf("%s receives an illegal frame sequence: %v (wire % x)", p.fc.name, err, clip(p.fc.out[p.ws:]))
	}
	return w
}

// expectClosed checks the end of a connection: one close frame with one of the
// codes (none: any), nothing after it, transport closed.
func (p *peer) expectClosed(why string, codes ...int) *wire {
	w := p.wire()
	if len(w.closes) != 1 {
		mc.Failf("%s: %s: %d close frames sent, want 1", p.fc.name, why, len(w.closes))
	}
	if len(w.tail) > 0 {
		mc.Failf("%s: %s: bytes % x after the last frame", p.fc.name, why, clip(w.tail))
	}
	if !p.fc.closed {
		mc.Failf("%s: %s: transport not closed", p.fc.name, why)
	}
	if len(codes) > 0 {
		got := closeCode(w.closes[0])
		for _, c := range codes {
			if got == c {
				return w
			}
		}
		mc.Failf("%s: %s: close status %d, want %v", p.fc.name, why, got, codes)
	}
	return w
}

// expectOpen checks that the connection is open with a well-formed wire.
func (p *peer) expectOpen(why string) *wire {
	w := p.wire()
	if p.fc.closed || len(w.closes) > 0 {
		mc.Failf("%s: %s: connection was closed (%d close frames, transport closed %v)", p.fc.name, why, len(w.closes), p.fc.closed)
	}
	return w
}

// works proves that an open connection works in both directions: a message from
// the client is read by the application and one from the application arrives.
func (p *peer) works(why string) {
	w0 := p.expectOpen(why)
	p.fc.feed(frame(true, opBin, []byte("probe-in")))
	op, data, err := p.conn.ReadMessage()
	if err != nil || op != opBin || string(data) != "probe-in" {
		mc.Failf("%s: %s: connection unusable, reading a probe message gives op %d %q err %v", p.fc.name, why, op, clip(data), err)
	}
	if err := p.conn.SendBytes(bg, []byte("probe-out")); err != nil {
		mc.Failf("%s: %s: connection unusable, sending a probe message: %v", p.fc.name, why, err)
	}
	w := p.wire()
	if len(w.msgs) != len(w0.msgs)+1 || string(w.msgs[len(w.msgs)-1].data) != "probe-out" {
		mc.Failf("%s: %s: probe message did not arrive (messages %d -> %d)", p.fc.name, why, len(w0.msgs), len(w.msgs))
	}
}

func isFatal(err error) bool { return snapws.IsFatalErr(err) }

// mustFatal: err must be a fatal error and the connection closed.
func mustFatal(what string, err error) {
	if err == nil {
		mc.Failf("%s succeeded, want a fatal error", what)
	}
	if !isFatal(err) {
		mc.Failf("%s returned the non-fatal error %v, want a fatal one", what, err)
	}
}

func mustOK(what string, err error) {
	if err != nil {
		mc.Failf("%s failed: %v", what, err)
	}
}

func utf8ok(b []byte) bool { return utf8.Valid(b) }

const sec = int64(time.Second)
