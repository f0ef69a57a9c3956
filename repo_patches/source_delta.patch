From 47e19b45ace5760f9ed05ceda53d28501f442077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 01/33] fix: stop the ping loop when the connection closes

---
 conn.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..7200dfc 100755
--- a/conn.go
+++ b/conn.go
@@ -83,6 +83,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
 	return conn
@@ -142,13 +143,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
@@ -197,9 +200,7 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
-		if conn.ticker != nil {
-			conn.ticker.Stop()
-		}
+		conn.ticker.Stop()
 
 		// close the current writer (if exists) and put the buffer back to the pool (if exists).
 		conn.writer.Close()
-- 
2.43.0


From b9d208d6715dac6d551dbcf72494e396188dbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 02/33] fix: write the payload length of empty control frames

---
 conn_write.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..0f2f63e 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = byte(n)
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
@@ -328,7 +329,6 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		if err != nil {
 			return ErrConnClosed
 		}
-		cw.buf[1] = byte(n)
 
 		cw.mask(payload)
 		cw.buf = append(cw.buf, payload...)
-- 
2.43.0


From c7f60fe2e66fac97cd0e0e0833c56ce3a81a28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 03/33] fix: use one timer per control frame write

---
 conn.go       |  1 -
 conn_write.go | 12 ++++--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 7200dfc..db6648d 100755
--- a/conn.go
+++ b/conn.go
@@ -125,7 +125,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index 0f2f63e..aef682f 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -294,14 +294,10 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
 
-	err := cw.lock.lockTimer(cw.t)
+	err := cw.lock.lockTimer(t)
 	if err != nil {
 		return err
 	}
@@ -334,7 +330,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
-- 
2.43.0


From a1819826bae59fcfb324d0bd35096fdd773beede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 04/33] fix: read a ping's payload before locking the control
 writer

---
 conn_write.go | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index aef682f..4c6dfe6 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -294,6 +294,25 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
+	// read the payload (if exists) before locking, because a slow client mustn't delay other control frames.
+	var payload []byte
+	if isMasked {
+		b, err := cw.conn.nRead(4)
+		if err != nil {
+			return ErrInternalServer
+		}
+		copy(cw.maskKey[:], b)
+	}
+	if n > 0 && n <= MaxControlFramePayload {
+		var err error
+		payload, err = cw.conn.nRead(n)
+		if err != nil {
+			return ErrConnClosed
+		}
+
+		cw.mask(payload)
+	}
+
 	t := time.NewTimer(cw.conn.upgrader.WriteWait)
 	defer t.Stop()
 
@@ -312,23 +331,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
 	cw.buf[1] = byte(n)
-
-	if isMasked {
-		b, err := cw.conn.nRead(4)
-		if err != nil {
-			return ErrInternalServer
-		}
-		copy(cw.maskKey[:], b)
-	}
-	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
-		if err != nil {
-			return ErrConnClosed
-		}
-
-		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
-	}
+	cw.buf = append(cw.buf, payload...)
 
 	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
-- 
2.43.0


From ae3b4bf2a79fde87099d8763e73af3da6b3a16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 05/33] fix: close the connection without deadlocking when a
 write fails

---
 broadcast.go  | 13 ++++---------
 conn_write.go | 33 ++++++++++++---------------------
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..ebb3fbb 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -3,7 +3,6 @@ package snapws
 import (
 	"context"
 	"fmt"
-	"time"
 )
 
 type message interface {
@@ -25,16 +24,12 @@ func (m *frame) writeToConn(conn *Conn) error {
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
-
-	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
-		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
-	}
 
 	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	err := conn.sendFrame(m.buf)
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
diff --git a/conn_write.go b/conn_write.go
index 4c6dfe6..4d82334 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -147,14 +147,9 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
-
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
-	}
 
 	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
@@ -178,12 +173,19 @@ func (w *ConnWriter) Close() error {
 	return nil
 }
 
-// sendFrame writes a prepared frame to the underlying connection.
-// This function is for internal library use.
+// sendFrame writes a prepared frame to the underlying connection, within the upgrader's WriteWait.
+// This function is for internal library use. The caller must hold conn.writeLock.
 // All non-nil errors returned are fatal.
-// The fucntion doesnt close the connection on error.
+// On error it closes the underlying connection, because the frame might be partially written and nothing
+// may follow it. It doesn't close the Conn: the caller must do it after releasing conn.writeLock.
 func (conn *Conn) sendFrame(buf []byte) error {
-	_, err := conn.raw.Write(buf)
+	err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait))
+	if err == nil {
+		_, err = conn.raw.Write(buf)
+	}
+	if err != nil {
+		conn.raw.Close()
+	}
 
 	return err
 }
@@ -322,11 +324,6 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	}
 	defer cw.lock.unLock()
 
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
@@ -352,12 +349,6 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	// lock without unlocking because this is the last write.
 	cw.lock.forceLock()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
-
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
-- 
2.43.0


From fe898021ccc2ec6bf859bf03482f26c984a997c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 06/33] fix: record a ping before sending it and close the
 connection when it fails

---
 conn_write.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 4d82334..5be903b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -266,16 +266,17 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	// set before sending, because the pong can arrive before writeControl returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.CloseWithCode(ClosePolicyViolation, err.Error())
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From 0ed314d12cd3a5dad78cc027faf129d07dca22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 07/33] fix: ignore unsolicited pongs while a ping is
 outstanding

---
 conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index db6648d..30f8652 100755
--- a/conn.go
+++ b/conn.go
@@ -178,8 +178,8 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 		conn.controlWriter.mask(p)
 		if ok := comparePayload(conn.pingPayload[:], p); !ok {
-			conn.CloseWithCode(CloseProtocolError, "ping/pong payload mismatch")
-			return ErrConnClosed
+			// not an answer to our ping, unsolicited pongs are allowed.
+			return nil
 		}
 		if err = conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait)); err != nil {
 			conn.CloseWithCode(CloseInternalServerErr, "timeout")
-- 
2.43.0


From 2dcf6d204483cac9eb20802adecc4df7b6f4b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 08/33] fix: don't finish or recycle a writer that is still in
 use when closing

---
 conn.go       | 12 ++++++------
 conn_utils.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 30f8652..3c01e65 100755
--- a/conn.go
+++ b/conn.go
@@ -201,15 +201,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
 		conn.ticker.Stop()
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the writer's buffer back to the pool (if exists), unless someone is still using it.
+		// lock without unlocking because the buffer must not be used anymore.
+		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling && conn.writer.lock.tryLock() {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..548592a 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -39,7 +39,31 @@ func newMu(c *Conn) *mu {
 	return &mu{conn: c, ch: make(chan struct{}, 1)}
 }
 
+// isConnDone reports whether the conn is closed. It is checked before every lock,
+// because select might choose to lock even if the conn is closed.
+func (m *mu) isConnDone() bool {
+	select {
+	case <-m.conn.done:
+		return true
+	default:
+		return false
+	}
+}
+
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) lock() error {
+	if m.isConnDone() {
+		return fatal(ErrConnClosed)
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
@@ -69,6 +93,9 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	if ctx == nil || ctx.Done() == nil {
 		return m.lock()
 	}
+	if m.isConnDone() {
+		return fatal(ErrConnClosed)
+	}
 
 	select {
 	case <-m.conn.done:
@@ -81,6 +108,10 @@ func (m *mu) lockCtx(ctx context.Context) error {
 }
 
 func (m *mu) lockTimer(t *time.Timer) error {
+	if m.isConnDone() {
+		return fatal(ErrConnClosed)
+	}
+
 	select {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
-- 
2.43.0


From 089d5c0696bd5c718299d4973f7d40bae9d37ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 09/33] fix: keep one close hook per manager and room, run them
 outside the close lock

---
 conn.go          | 85 +++++++++++++++++++++++++++++++++++-------------
 rooms_manager.go |  6 ++--
 2 files changed, 65 insertions(+), 26 deletions(-)

diff --git a/conn.go b/conn.go
index 3c01e65..64ec185 100755
--- a/conn.go
+++ b/conn.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"encoding/binary"
 	"net"
+	"slices"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -27,7 +28,10 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// hooks to be ran when the connection closes, set by addOnClose.
+	onClose []closeHook
+	// set when the onClose hooks have been taken to be ran.
+	onCloseRan bool
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -109,11 +113,9 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.onCloseMu.Lock()
-	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
+	conn.addOnClose(m, func() {
 		m.unregister(key)
-	}
+	})
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
@@ -198,7 +200,9 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		conn.ticker.Stop()
 
 		// close the done channel inditicating that the connection is closed
@@ -212,27 +216,64 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// run hooks. outside of closeOnce because a hook might close the connection.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	conn.onCloseMu.Lock()
+	hooks := conn.onClose
+	conn.onClose = nil
+	conn.onCloseRan = true
+	conn.onCloseMu.Unlock()
+	for _, h := range hooks {
+		h.fn()
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	if conn.upgrader.Flusher != nil {
+		conn.upgrader.Flusher.remove(conn)
+	}
+}
+
+// closeHook is a function to be ran when the connection closes, owner is a manager or a room.
+type closeHook struct {
+	owner any
+	fn    func()
+}
+
+// addOnClose adds (or replaces) the owner's function that runs when the connection closes.
+// If the connection is already closed it returns false and fn won't be called.
+func (conn *Conn) addOnClose(owner any, fn func()) bool {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+
+	if conn.onCloseRan {
+		return false
+	}
+	conn.removeOnCloseLocked(owner)
+	conn.onClose = append(conn.onClose, closeHook{owner: owner, fn: fn})
+	return true
+}
+
+// removeOnClose removes the owner's function that runs when the connection closes (if exists).
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	conn.removeOnCloseLocked(owner)
+}
+
+func (conn *Conn) removeOnCloseLocked(owner any) {
+	conn.onClose = slices.DeleteFunc(conn.onClose, func(h closeHook) bool { return h.owner == owner })
 }
 
 // This function is called upon receiving a close frame from the client.
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..eeba4fa 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -233,11 +233,9 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Unlock()
 
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
+	conn.addOnClose(r, func() {
 		r.Remove(conn, args...)
-	}
-	conn.onCloseMu.Unlock()
+	})
 
 	conn.enableBroadcasting()
 	// calling onJoin hook
-- 
2.43.0


From b6a50adb6f45e02af0af709437e07e7081262af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 10/33] fix: release the writer and drop the message when a
 send fails

---
 conn_batcher.go |  4 +---
 conn_write.go   | 40 +++++++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..8d8a954 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -140,9 +140,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 
 	err = encoder(w, messages, p, s)
 	if err != nil {
-		fmt.Println(err)
-		w.Close()
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index 5be903b..c84322b 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -1,6 +1,7 @@
 package snapws
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"encoding/json"
@@ -145,6 +146,8 @@ func (w *ConnWriter) flush(FIN bool) error {
 
 	err = w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
+		// the headers have to be written again if flushing is retried.
+		w.start = MaxHeaderSize
 		return err
 	}
 
@@ -163,16 +166,31 @@ func (w *ConnWriter) flush(FIN bool) error {
 }
 
 // Close flushes the final frame and releases the writer lock.
+// If the final frame can't be sent the message is discarded.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
-		err := w.flush(true)
-		return err
+		if err := w.flush(true); err != nil {
+			return w.abort(err)
+		}
+		w.closed = true
+		w.lock.tryUnlock()
 	}
 	return nil
 }
 
+// abort discards the message because of the given error and releases the writer lock.
+// If a part of the message has already been sent it closes the connection,
+// because the message can neither be finished nor taken back.
+func (w *ConnWriter) abort(err error) error {
+	w.closed = true
+	if w.flushCount > 0 && !IsFatalErr(err) {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+	w.lock.tryUnlock()
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection, within the upgrader's WriteWait.
 // This function is for internal library use. The caller must hold conn.writeLock.
 // All non-nil errors returned are fatal.
@@ -207,7 +225,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
@@ -246,17 +264,13 @@ func (conn *Conn) SendString(ctx context.Context, p []byte) error {
 // that indicates the connection was closed due to an I/O or protocol error.
 // Any other error means the connection is still open, and you may retry or continue using it.
 func (conn *Conn) SendJSON(ctx context.Context, v any) error {
-	w, err := conn.NextWriter(ctx, OpcodeText)
-	if err != nil {
+	// encode before locking the writer, nothing has to be undone if it fails.
+	var buf bytes.Buffer
+	if err := json.NewEncoder(&buf).Encode(v); err != nil {
 		return err
 	}
 
-	err = json.NewEncoder(w).Encode(v)
-	if err != nil {
-		return err
-	}
-
-	return w.Close()
+	return conn.SendMessage(ctx, OpcodeText, buf.Bytes())
 }
 
 // Ping sends a WebSocket ping frame and waits for it to be sent.
-- 
2.43.0


From 1d0f55481566165a5175c2d661674894a0545586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 11/33] fix: give every message its own writer

---
 conn_write.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index c84322b..ab95dcd 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -77,9 +77,16 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// every message gets its own writer (they share the buffer), because the previous one might still be used
+	// (for example: by a deferred Close) and it must not affect this message.
+	w := &ConnWriter{
+		conn: conn,
+		buf:  conn.writer.buf,
+		lock: conn.writer.lock,
+	}
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From 338033e811dafdc0013bcfc045ac21886f20b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 12/33] fix: don't send a broadcast in the middle of another
 message

---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index ebb3fbb..1fc5a55 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -20,6 +20,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// Acquire the writer, a frame must not be sent in the middle of another message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
-- 
2.43.0


From 8aa32035d73d96637ee3a640c7385a2c45befa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 13/33] fix: apply the message size limit to data messages
 only, and not if it's -1

---
 conn_read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index da53a27..1139415 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -211,7 +211,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 48ba932754f97033a9091f12e5b3c5d68c86c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 14/33] fix: count the first fragment of a message

---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 1139415..3e7717e 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -166,7 +166,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From 4110cb21e125a2bb92c49f609c4718c36c85b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:13 +0000
Subject: [PATCH 15/33] fix: skip the unread rest of a message before reading
 the next one

---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 64ec185..8ea5ea8 100755
--- a/conn.go
+++ b/conn.go
@@ -79,7 +79,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index 3e7717e..45e5c31 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// skip what is left of the previous message.
+	if err = conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index 548592a..741522d 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -144,6 +144,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -160,6 +161,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From a266e28c1cc0417c161577a36ce037ebc22b5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 16/33] fix: fail reads of an unfinished message after the
 connection is closed

---
 conn_read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn_read.go b/conn_read.go
index 45e5c31..e6cb258 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -199,6 +199,14 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 //   - If a fatal error occurs (protocol violation, closed connection, etc.),
 //     the connection will be closed and a fatal error will be returned.
 func (r *ConnReader) Read(p []byte) (n int, err error) {
+	select {
+	case <-r.conn.done:
+		if r.remaining > 0 || !r.fin {
+			return 0, fatal(ErrConnClosed)
+		}
+	default:
+	}
+
 	// if we reached the end if the frame and a Continuation frame is expected.
 	if r.remaining == 0 && !r.fin {
 		// checking if we reached the ReaderMaxFragments before reading the next frame.
-- 
2.43.0


From 0cefe727430a6b848f126748517d8cf265c08e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 17/33] fix: make the read buffer large enough for control
 frames

---
 conn.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/conn.go b/conn.go
index 8ea5ea8..99c4a92 100755
--- a/conn.go
+++ b/conn.go
@@ -65,13 +65,12 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	// a whole control frame payload must fit in the read buffer.
+	if br != nil && br.Size() >= MaxControlFramePayload && (size == 0 || size == br.Size()) {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
-		}
-		if br.Buffered() > 0 && br != nil {
+		size = max(size, MaxControlFramePayload)
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From 9088676278acf2e594288cc7661bbd6bf01faf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 18/33] fix: leave room for a payload in small write buffers

---
 options.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..116fe79 100755
--- a/options.go
+++ b/options.go
@@ -116,6 +116,9 @@ func (opt *Options) WithDefault() {
 	}
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
+	} else if opt.WriteBufferSize <= MaxHeaderSize {
+		// the buffer holds the frame header too.
+		opt.WriteBufferSize += MaxHeaderSize
 	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
-- 
2.43.0


From 7275f5c39629386a231a797139f728944e09f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 19/33] fix: close the connection when the rate limit hook
 returns an error

---
 conn_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index 741522d..d55fa68 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -132,6 +132,9 @@ func (conn *Conn) allow() (bool, error) {
 	if conn.upgrader.Limiter != nil && !conn.upgrader.Limiter.allow(conn) {
 		if conn.upgrader.Limiter.OnRateLimitHit != nil {
 			err := conn.upgrader.Limiter.OnRateLimitHit(conn)
+			if err != nil {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+			}
 			return false, err
 		}
 		return false, nil
-- 
2.43.0


From b87f50a2b01671193d38e66922b5d82f37bd79db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 20/33] fix: read all the lines of list headers and hash the
 trimmed key

---
 upgrader.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..69334be 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -94,7 +94,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	// computing key
-	hashedKey := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + GUID))
+	hashedKey := sha1.Sum([]byte(strings.TrimSpace(r.Header.Get("Sec-WebSocket-Key")) + GUID))
 	secAcceptKey := base64.StdEncoding.EncodeToString(hashedKey[:])
 
 	// hijacking connection
@@ -138,7 +138,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -155,7 +155,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -201,7 +201,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From 7437e9367242767c01c54cd5efead01a378345a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 21/33] fix: create the connection after writing the handshake
 response

---
 upgrader.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 69334be..b1bc9ab 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -104,11 +104,10 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		return nil, err
 	}
 
-	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
+	wb := brw.Writer.AvailableBuffer()
 
 	// writing response
-	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
+	p := append(wb, "HTTP/1.1 101 Switching Protocols\r\n"...)
 	p = append(p, "Upgrade: websocket\r\n"...)
 	p = append(p, "Connection: Upgrade\r\n"...)
 	p = append(p, "Sec-WebSocket-Accept: "...)
@@ -123,17 +122,21 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 
 	_, err = c.Write(p)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
-	if u.OnConnect != nil {
-		u.OnConnect(conn)
-	}
+	// created after writing the response, so nothing is sent before it.
+	conn := u.newConn(c, subProtocol, brw.Reader, wb)
 
 	if u.Limiter != nil {
 		u.Limiter.addClient(conn)
 	}
 
+	if u.OnConnect != nil {
+		u.OnConnect(conn)
+	}
+
 	return conn, err
 }
 
-- 
2.43.0


From 3a9cab1d1979e8d32a4139826eeeb0811bee2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 22/33] fix: enable broadcasting once

---
 conn.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index 99c4a92..5f9f070 100755
--- a/conn.go
+++ b/conn.go
@@ -49,6 +49,7 @@ type Conn struct {
 	readBuf       *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -93,13 +94,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
-- 
2.43.0


From 538d73f4b4c5dfe3cb40500f8ece2e8a8bfd478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 23/33] fix: unregister only the connection that closed

---
 conn.go    |  3 ---
 manager.go | 26 ++++++++++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index 5f9f070..954ddd3 100755
--- a/conn.go
+++ b/conn.go
@@ -111,9 +111,6 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
-	conn.addOnClose(m, func() {
-		m.unregister(key)
-	})
 	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
 }
 
diff --git a/manager.go b/manager.go
index b0706a2..826dab5 100755
--- a/manager.go
+++ b/manager.go
@@ -70,25 +70,39 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before the conn can be found by a broadcast.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
+	if old, ok := m.conns[key]; ok && old.Conn != conn.Conn {
+		old.raw.Close()
 	}
 	m.conns[key] = conn
 	m.mu.Unlock()
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+
+	// Set up automatic cleanup when connection closes
+	if !conn.addOnClose(registration[KeyType]{m, key}, func() { m.unregister(key, conn) }) {
+		// already closed
+		m.unregister(key, conn)
+	}
+}
+
+// registration identifies the close hook of a connection registered under a key.
+type registration[KeyType comparable] struct {
+	m   *Manager[KeyType]
+	key KeyType
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+// does nothing if the key belongs to another connection.
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) error {
 	m.mu.Lock()
 
-	conn, ok := m.conns[id]
-	if !ok {
+	if c, ok := m.conns[id]; !ok || c != conn {
 		m.mu.Unlock()
 		return ErrConnNotFound
 	}
-- 
2.43.0


From fe8669381018a63e1c4fe807e67c780431441747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 24/33] fix: don't hold the manager lock while shutting down

---
 manager.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/manager.go b/manager.go
index 826dab5..746d7c6 100755
--- a/manager.go
+++ b/manager.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"net/http"
 	"slices"
 	"sync"
@@ -208,10 +209,12 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
-	m.mu.Lock()
-	defer m.mu.Unlock()
+	// closing runs hooks that use the manager, so the lock mustn't be held.
+	m.mu.RLock()
+	conns := maps.Clone(m.conns)
+	m.mu.RUnlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -225,14 +228,16 @@ func (m *Manager[KeyType]) Shutdown() {
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
 
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
+	// unregister those whose closing was started by someone else and isn't finished yet.
+	for key, conn := range conns {
+		m.unregister(key, conn)
+	}
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From 3bbd93a1a9bd7667d076f526ea99c170e2ac52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 25/33] fix: make room joins and departures exact

---
 rooms_manager.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index eeba4fa..07d7114 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -217,7 +217,10 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	// don't delete a room that was created after this one was closed.
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
@@ -229,15 +232,21 @@ func (r *Room[keyType]) Close() {
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
+	// Set up automatic cleanup when connection closes
+	if !conn.addOnClose(r, func() { r.Remove(conn, args...) }) {
+		// already closed
+		r.mu.Unlock()
+		return
+	}
+	// before the conn can be found by a broadcast.
+	conn.enableBroadcasting()
 	r.conns[conn] = true
 	r.mu.Unlock()
 
-	// Set up automatic cleanup when connection closes
-	conn.addOnClose(r, func() {
-		r.Remove(conn, args...)
-	})
-
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
@@ -252,7 +261,12 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -269,11 +283,16 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From d3ccd8edc17287443e469c5b2a993d5e60606e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 26/33] fix: don't hold the room locks while shutting down

---
 rooms_manager.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 07d7114..4fbdb61 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -172,17 +172,19 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	// closing runs hooks that use the rooms, so the locks mustn't be held.
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
 
 	var wg sync.WaitGroup
-	workers := (connsCount / 5) + 2
-	ch := make(chan *Conn, connsCount)
+	workers := (len(conns) / 5) + 2
+	ch := make(chan *Conn, len(conns))
 
 	for range workers {
 		wg.Add(1)
@@ -194,16 +196,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
-- 
2.43.0


From 05f9468509502b143f163d867869895d86d2ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 27/33] fix: stop waiting for a queue of a closed connection

---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 1fc5a55..9a429b3 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -113,6 +113,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 			case BackpressureWait:
 				// inqueue again
 				select {
+				case <-conn.done:
 				case <-ctx.Done():
 					return n, ctx.Err()
 				case conn.broadcastQueue <- m:
@@ -143,6 +144,10 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		return 0, ErrBatchingUninitialized
 	}
 
+	if ctx == nil {
+		ctx = context.Background()
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
@@ -164,6 +169,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 			case BackpressureWait:
 				// wait till sent
 				select {
+				case <-conn.done:
 				case <-u.Flusher.closed:
 					return n, ErrFlusherClosed
 				case <-u.Flusher.ctx.Done():
-- 
2.43.0


From 7af107ca6427e6d87e3b15a28023d2539e7e5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 28/33] fix: keep batches in order and within their size, and
 lose none on closing

---
 conn.go         |  1 +
 conn_batcher.go | 55 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/conn.go b/conn.go
index 954ddd3..4e2b93f 100755
--- a/conn.go
+++ b/conn.go
@@ -85,6 +85,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
+		u.Flusher.add(conn)
 	}
 
 	conn.ticker = time.NewTicker(u.PingEvery)
diff --git a/conn_batcher.go b/conn_batcher.go
index 8d8a954..45e5d24 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,13 +10,16 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// flushed batches waiting to be sent, in order.
+	pending [][][]byte
+	// whether a goroutine is sending the pending batches.
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
 	return &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
@@ -41,6 +44,10 @@ func (conn *Conn) Batch(data []byte) error {
 		return ErrBatchingUninitialized
 	}
 
+	// locked before checking, so a message is accepted only if the flush on closing comes after it.
+	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
 	select {
 	case <-conn.done:
 		return ErrConnClosed
@@ -51,16 +58,12 @@ func (conn *Conn) Batch(data []byte) error {
 	default:
 	}
 
-	conn.batch.mu.Lock()
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -85,19 +88,43 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// if the messages slice isn't empty, it queues it to be sent and allocates a new one.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+// like flush, b.mu must be held.
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.pending = append(b.pending, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	if !b.sending {
+		b.sending = true
+		go b.sendPending()
+	}
+}
+
+// sends the pending batches one by one to keep their order.
+func (b *messageBatch) sendPending() {
+	for {
+		b.mu.Lock()
+		if len(b.pending) == 0 {
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		c := b.pending[0]
+		b.pending = b.pending[1:]
+		b.mu.Unlock()
+
+		b.send(c)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From 2cb755b4b053207c8bb8177000026419589319be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:14 +0000
Subject: [PATCH 29/33] fix: fail batch broadcasts after the flusher ended

---
 broadcast.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 9a429b3..5d321d6 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -148,6 +148,15 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 		ctx = context.Background()
 	}
 
+	// checked alone first, because a select picks randomly among the ready cases.
+	select {
+	case <-u.Flusher.closed:
+		return 0, ErrFlusherClosed
+	case <-u.Flusher.ctx.Done():
+		return 0, u.Flusher.ctx.Err()
+	default:
+	}
+
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
-- 
2.43.0


From bdcf0b65352abfaff92e8fd706c643c713f614a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:52 +0000
Subject: [PATCH 30/33] fix: ReadJSON returns a fatal error when the connection
 got closed

---
 conn_read.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index e6cb258..ce33e91 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -339,5 +339,15 @@ func (conn *Conn) ReadJSON(v any) error {
 		return ErrMessageTypeMismatch
 	}
 
-	return json.NewDecoder(reader).Decode(v)
+	err = json.NewDecoder(reader).Decode(v)
+	if err != nil && !IsFatalErr(err) {
+		// the error might be about what was read of a message before the connection got closed.
+		select {
+		case <-conn.done:
+			return fatal(err)
+		default:
+		}
+	}
+
+	return err
 }
-- 
2.43.0


From 3a13e263371adb1536c1fc95fad7f446cba3a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 31/33] fix: remove a closed connection from its own flusher

---
 conn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 4e2b93f..911d084 100755
--- a/conn.go
+++ b/conn.go
@@ -236,8 +236,9 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 		conn.upgrader.Limiter.removeClient(conn)
 	}
 
-	if conn.upgrader.Flusher != nil {
-		conn.upgrader.Flusher.remove(conn)
+	// from its own flusher, batching might have been enabled anew since.
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
 	}
 }
 
-- 
2.43.0


From 0507ff78fc60d5c27a6943f8e9c746fa340aa4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 32/33] fix: add a connection to the rate limiter before its
 ping loop starts

---
 conn.go     | 5 +++++
 upgrader.go | 4 ----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 911d084..785c812 100755
--- a/conn.go
+++ b/conn.go
@@ -88,6 +88,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		u.Flusher.add(conn)
 	}
 
+	// before the ping loop starts, because it might close the connection.
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	conn.ticker = time.NewTicker(u.PingEvery)
 	go conn.pingLoop()
 
diff --git a/upgrader.go b/upgrader.go
index b1bc9ab..dcd908b 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -129,10 +129,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	// created after writing the response, so nothing is sent before it.
 	conn := u.newConn(c, subProtocol, brw.Reader, wb)
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From 120f2a9ae359875b5863552cbd45e5306e487316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 33/33] fix: don't let a closing connection past its rate limit

---
 conn_utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn_utils.go b/conn_utils.go
index d55fa68..e1ca091 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -139,7 +139,14 @@ func (conn *Conn) allow() (bool, error) {
 		}
 		return false, nil
 	}
-	return true, nil
+
+	// the limiter forgets a closed conn and would let it past its limit.
+	select {
+	case <-conn.done:
+		return false, ErrConnClosed
+	default:
+		return true, nil
+	}
 }
 
 func (conn *Conn) skipRestOfMessage() error {
-- 
2.43.0

