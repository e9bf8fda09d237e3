From e65a4b330269be56bf1864ed67aa63084528b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 01/44] fix: end the ping loop when its connection closes

Stopping a ticker does not close its channel, so the goroutine (and with it
the connection) stayed forever. The ticker was also created and stopped by
different goroutines without synchronisation.
---
 conn.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index e8a55ef..d04a0ef 100755
--- a/conn.go
+++ b/conn.go
@@ -57,6 +57,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		SubProtocol: subProtocol,
 		done:        make(chan struct{}),
 		pingPayload: make([]byte, 0, MaxControlFramePayload),
+		ticker:      time.NewTicker(u.PingEvery),
 	}
 	conn.writeLock = newMu(conn)
 
@@ -142,13 +143,15 @@ func (conn *Conn) newControlWriter() *ControlWriter {
 // Ping the client every "PingEvery" provided from the manager.
 // If pinging fails the connection closes.
 func (conn *Conn) pingLoop() {
-	if conn.ticker == nil {
-		conn.ticker = time.NewTicker(conn.upgrader.PingEvery)
-	}
-	for range conn.ticker.C {
-		if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
-			conn.CloseWithCode(ClosePolicyViolation, err.Error())
+	for {
+		select {
+		case <-conn.done:
 			return
+		case <-conn.ticker.C:
+			if err := conn.Ping(); err != nil && err != ErrPingAlreadySent {
+				conn.CloseWithCode(ClosePolicyViolation, err.Error())
+				return
+			}
 		}
 	}
 }
@@ -197,9 +200,7 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
-		if conn.ticker != nil {
-			conn.ticker.Stop()
-		}
+		conn.ticker.Stop()
 
 		// close the current writer (if exists) and put the buffer back to the pool (if exists).
 		conn.writer.Close()
-- 
2.43.0


From a5355418594ca2c556901fec32d1a004e50ad779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 02/44] fix: reset the length of control frames without payload

After a pong with a payload, the next empty control frame (a ping) was sent
with the pong's length byte and corrupted the stream.
---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 4f94f19..4c070ee 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -315,6 +315,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
+	cw.buf[1] = 0 // the buffer is reused, a previous frame may have had a payload
 
 	if isMasked {
 		b, err := cw.conn.nRead(4)
-- 
2.43.0


From 44fffa1723cb57373925dccf4dea848e690b3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 03/44] fix: mark a ping as sent before writing it

A pong arriving before Ping stored pingSent was ignored, so no later ping was
ever sent and a responsive peer was dropped at its read deadline. Two
concurrent pings could also both pass the check.
---
 conn_write.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 4c070ee..84d9022 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -264,16 +264,17 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
-	if conn.pingSent.Load() {
+	// marked before writing: the pong may arrive before the write returns.
+	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
 	}
 
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
+		conn.pingSent.Store(false)
 		return fatal(err)
 	}
 
-	conn.pingSent.Store(true)
 	return nil
 }
 
-- 
2.43.0


From c2c60ea4500cba38c95046ae29a58e449a921983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 04/44] fix: close the connection when a ping cannot be written

Ping returned a fatal error but left the connection open.
---
 conn_write.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn_write.go b/conn_write.go
index 84d9022..77b4cd4 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -272,6 +272,7 @@ func (conn *Conn) Ping() error {
 	err := conn.controlWriter.writeControl(OpcodePing, 0, false)
 	if err != nil {
 		conn.pingSent.Store(false)
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
-- 
2.43.0


From 10e20bb569e08da304ba222693df92349cce613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 05/44] fix: use one timer per control frame write

The timer of the control writer was created and reset by concurrent callers
(Ping, the ping loop, pongs) before any lock was taken.
---
 conn.go       |  1 -
 conn_write.go | 12 ++++--------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/conn.go b/conn.go
index d04a0ef..d4f5fd0 100755
--- a/conn.go
+++ b/conn.go
@@ -125,7 +125,6 @@ type ControlWriter struct {
 	maskKey [4]byte
 	err     chan error
 	lock    *mu
-	t       *time.Timer
 }
 
 func (conn *Conn) newControlWriter() *ControlWriter {
diff --git a/conn_write.go b/conn_write.go
index 77b4cd4..6592edd 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -296,14 +296,10 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
-	if cw.t == nil {
-		cw.t = time.NewTimer(cw.conn.upgrader.WriteWait)
-	} else {
-		cw.t.Reset(cw.conn.upgrader.WriteWait)
-	}
-	defer cw.t.Stop()
+	t := time.NewTimer(cw.conn.upgrader.WriteWait)
+	defer t.Stop()
 
-	err := cw.lock.lockTimer(cw.t)
+	err := cw.lock.lockTimer(t)
 	if err != nil {
 		return err
 	}
@@ -337,7 +333,7 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 		cw.buf = append(cw.buf, payload...)
 	}
 
-	if err := cw.conn.writeLock.lockTimer(cw.t); err != nil {
+	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
 	}
 	defer cw.conn.writeLock.unLock()
-- 
2.43.0


From 83c847a70ca534e5508a45649aaac35d6c86cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 06/44] fix: do not close the connection while holding its
 write lock

A failed data or broadcast write called CloseWithCode with the write lock
held; the close frame waits for that lock, so the call never returned. A
failed broadcast write did not close the connection at all.
---
 broadcast.go  | 15 ++++++++-------
 conn_write.go | 11 +++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/broadcast.go b/broadcast.go
index 6d2c35c..e11b8ee 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -25,16 +25,17 @@ func (m *frame) writeToConn(conn *Conn) error {
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
 	}
-	defer conn.writeLock.unLock()
 
 	// set deadline
-	if err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err != nil {
-		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err := conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait))
+	if err == nil {
+		// send frame
+		err = conn.sendFrame(m.buf)
 	}
-
-	// send frame
-	if err := conn.sendFrame(m.buf); err != nil {
+	// closing the connection takes the write lock, so release it first.
+	conn.writeLock.unLock()
+	if err != nil {
+		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
 	}
 
diff --git a/conn_write.go b/conn_write.go
index 6592edd..82198ff 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -147,14 +147,13 @@ func (w *ConnWriter) flush(FIN bool) error {
 	if err != nil {
 		return err
 	}
-	defer w.conn.writeLock.unLock()
 
-	if err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait)); err != nil {
-		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
-		return fatal(err)
+	err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait))
+	if err == nil {
+		err = w.conn.sendFrame(w.buf[w.start:w.used])
 	}
-
-	err = w.conn.sendFrame(w.buf[w.start:w.used])
+	// closing the connection takes the write lock, so release it first.
+	w.conn.writeLock.unLock()
 	if err != nil {
 		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return fatal(err)
-- 
2.43.0


From bd6eddf81e1098886dcbcec2741c25dd93d24010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 07/44] fix: always close the transport when closing a
 connection

writeClose returned without closing it when the write deadline could not be
set.
---
 conn_write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 82198ff..54cc0bf 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -350,6 +350,8 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.lock.forceLock()
+	// whatever happens to the close frame, the transport gets closed.
+	defer cw.conn.raw.Close()
 
 	// set deadline
 	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
@@ -369,5 +371,4 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
 	cw.conn.sendFrame(cw.buf)
-	cw.conn.raw.Close()
 }
-- 
2.43.0


From da91a760d66fecdfd851319690feffb00a1fc62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 08/44] fix: never send a close reason that is not valid UTF-8

---
 conn_write.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn_write.go b/conn_write.go
index 54cc0bf..c3de101 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"time"
+	"unicode/utf8"
 )
 
 // ConnWriter is NOT safe for concurrent use.
@@ -363,7 +364,7 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
 	binary.BigEndian.PutUint16(cw.buf[2:4], closeCode)
-	if len(reason) > 0 && len(reason) <= MaxControlFramePayload-2 {
+	if len(reason) > 0 && len(reason) <= MaxControlFramePayload-2 && utf8.ValidString(reason) {
 		cw.buf[1] += byte(len(reason))
 		cw.buf = append(cw.buf, reason...)
 	}
-- 
2.43.0


From 2c249ea48665f7e6015727f8fdd23ed317fc722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 09/44] fix: send no close frame after a failed write

The failed write may have sent a part of its frame, and the bytes of the close
frame would then complete that frame with bytes nobody wrote.
---
 conn.go       | 4 +++-
 conn_write.go | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index d4f5fd0..458f0bf 100755
--- a/conn.go
+++ b/conn.go
@@ -42,7 +42,9 @@ type Conn struct {
 	writer        *ConnWriter
 	controlWriter *ControlWriter
 	writeLock     *mu
-	readBuf       *bufio.Reader
+	// set when a write to the transport failed. Protected by writeLock.
+	writeFailed bool
+	readBuf     *bufio.Reader
 
 	broadcastQueue chan message
 
diff --git a/conn_write.go b/conn_write.go
index c3de101..8856113 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -184,6 +184,9 @@ func (w *ConnWriter) Close() error {
 // The fucntion doesnt close the connection on error.
 func (conn *Conn) sendFrame(buf []byte) error {
 	_, err := conn.raw.Write(buf)
+	if err != nil {
+		conn.writeFailed = true
+	}
 
 	return err
 }
@@ -371,5 +374,9 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
+	if cw.conn.writeFailed {
+		// the last frame may be incomplete: these bytes would become part of it.
+		return
+	}
 	cw.conn.sendFrame(cw.buf)
 }
-- 
2.43.0


From 1ca05b39881a3c9dbdf9378eb2cb2fb8a3a2680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 10/44] fix: do not touch a writer in use when closing its
 connection

CloseWithCode flushed the open writer with FIN, presenting a truncated message
as complete, raced with the writer's owner and gave its pooled buffer to other
connections while it was still being written to. NextWriter could also succeed
on a closed connection and write into a recycled buffer.
---
 conn.go       | 12 ++++++------
 conn_utils.go | 25 +++++++++++++++++++++++--
 conn_write.go |  5 +++++
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 458f0bf..38b6f99 100755
--- a/conn.go
+++ b/conn.go
@@ -203,15 +203,15 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	conn.closeOnce.Do(func() {
 		conn.ticker.Stop()
 
-		// close the current writer (if exists) and put the buffer back to the pool (if exists).
-		conn.writer.Close()
-		if conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
-			conn.upgrader.writePool.Put(conn.writer.pb)
-		}
-
 		// close the done channel inditicating that the connection is closed
 		close(conn.done)
 
+		// put the buffer back to the pool (if exists), unless a writer is still using it.
+		// The writer lock is never released, so nobody can get a writer from now on.
+		if conn.writer.lock.tryLock() && conn.writer.pb != nil && !conn.upgrader.DisableWriteBuffersPooling {
+			conn.upgrader.writePool.Put(conn.writer.pb)
+		}
+
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
 
diff --git a/conn_utils.go b/conn_utils.go
index 66cee43..820c10a 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -44,10 +44,31 @@ func (m *mu) lock() error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
+		return m.locked()
+	}
+}
+
+// locked is called after locking. select picks randomly between ready cases,
+// so the connection may have been closed even though the lock was acquired.
+func (m *mu) locked() error {
+	select {
+	case <-m.conn.done:
+		m.unLock()
+		return fatal(ErrConnClosed)
+	default:
 		return nil
 	}
 }
 
+func (m *mu) tryLock() bool {
+	select {
+	case m.ch <- struct{}{}:
+		return true
+	default:
+		return false
+	}
+}
+
 func (m *mu) forceLock() {
 	m.ch <- struct{}{}
 }
@@ -74,7 +95,7 @@ func (m *mu) lockCtx(ctx context.Context) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-ctx.Done():
 		return ctx.Err()
 	}
@@ -85,7 +106,7 @@ func (m *mu) lockTimer(t *time.Timer) error {
 	case <-m.conn.done:
 		return fatal(ErrConnClosed)
 	case m.ch <- struct{}{}:
-		return nil
+		return m.locked()
 	case <-t.C:
 		return ErrTimeout
 	}
diff --git a/conn_write.go b/conn_write.go
index 8856113..117c009 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -91,6 +91,11 @@ func (w *ConnWriter) Write(p []byte) (n int, err error) {
 	if w.closed {
 		return 0, ErrWriterClosed
 	}
+	select {
+	case <-w.conn.done:
+		return 0, fatal(ErrConnClosed)
+	default:
+	}
 
 	for n < len(p) {
 		if w.used == len(w.buf) {
-- 
2.43.0


From 19ef7574dc954d00ac39df3a2d8ab1b4376b7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 11/44] fix: run the close hooks outside of closeOnce and
 onCloseMu

A hook that closed its own connection again, or joined it to a room, never
returned.
---
 conn.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/conn.go b/conn.go
index 38b6f99..2a915a1 100755
--- a/conn.go
+++ b/conn.go
@@ -200,7 +200,9 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 // CloseWithCode closes the connection with the given code and reason.
 func (conn *Conn) CloseWithCode(code uint16, reason string) {
+	first := false
 	conn.closeOnce.Do(func() {
+		first = true
 		conn.ticker.Stop()
 
 		// close the done channel inditicating that the connection is closed
@@ -214,27 +216,31 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 
 		// writer a close frame.
 		conn.controlWriter.writeClose(code, reason)
+	})
+	if !first {
+		return
+	}
 
-		// run hooks.
-		if conn.upgrader.OnDisconnect != nil {
-			conn.upgrader.OnDisconnect(conn)
-		}
+	// The hooks run outside of closeOnce, so they can call Close themselves.
+	if conn.upgrader.OnDisconnect != nil {
+		conn.upgrader.OnDisconnect(conn)
+	}
 
-		conn.onCloseMu.Lock()
-		if conn.onClose != nil {
-			conn.onClose()
-		}
-		conn.onCloseMu.Unlock()
+	conn.onCloseMu.Lock()
+	onClose := conn.onClose
+	conn.onCloseMu.Unlock()
+	if onClose != nil {
+		onClose()
+	}
 
-		// remove from rate limiter if exists
-		if conn.upgrader.Limiter != nil {
-			conn.upgrader.Limiter.removeClient(conn)
-		}
+	// remove from rate limiter if exists
+	if conn.upgrader.Limiter != nil {
+		conn.upgrader.Limiter.removeClient(conn)
+	}
 
-		if conn.upgrader.Flusher != nil {
-			conn.upgrader.Flusher.remove(conn)
-		}
-	})
+	if conn.upgrader.Flusher != nil {
+		conn.upgrader.Flusher.remove(conn)
+	}
 }
 
 // This function is called upon receiving a close frame from the client.
-- 
2.43.0


From 0ed3e65a02a3b5048d7d5054962024c9dd4b8e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 12/44] fix: let a flush be retried after its context ended

The header had already been put in front of the payload when taking the lock
failed, so the next flush found no space for it.
---
 conn_write.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 117c009..f18a7fc 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -144,13 +144,15 @@ func (w *ConnWriter) flush(FIN bool) error {
 		opcode = OpcodeContinuation
 	}
 
-	err := w.writeHeaders(FIN, opcode)
+	err := w.conn.writeLock.lockCtx(w.ctx)
 	if err != nil {
 		return err
 	}
 
-	err = w.conn.writeLock.lockCtx(w.ctx)
+	// written only when the frame gets sent, so a failed flush can be retried.
+	err = w.writeHeaders(FIN, opcode)
 	if err != nil {
+		w.conn.writeLock.unLock()
 		return err
 	}
 
-- 
2.43.0


From 2919f76328a8f00a73ebd973fa9debb685910747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 13/44] fix: release the writer when a message fails, never
 leave half of one

SendMessage and SendJSON kept the writer lock when writing or encoding failed,
so every later send blocked forever. A message whose context ended after some
of its fragments had been sent was abandoned mid-stream, and the next message
started inside it.
---
 conn_batcher.go |  3 +--
 conn_write.go   | 31 +++++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index a1e99de..def27ad 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -141,8 +141,7 @@ func (b *messageBatch) sendWrapper(messages [][]byte, encoder batchEncoder) erro
 	err = encoder(w, messages, p, s)
 	if err != nil {
 		fmt.Println(err)
-		w.Close()
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
diff --git a/conn_write.go b/conn_write.go
index f18a7fc..232e8f2 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -175,16 +175,35 @@ func (w *ConnWriter) flush(FIN bool) error {
 }
 
 // Close flushes the final frame and releases the writer lock.
+//
+// If it returns a non-fatal error nothing of the message has been sent.
 func (w *ConnWriter) Close() error {
 	if !w.closed {
-		defer w.lock.tryUnlock()
-		defer func() { w.closed = true }()
-		err := w.flush(true)
-		return err
+		if err := w.flush(true); err != nil {
+			return w.abort(err)
+		}
+		w.closed = true
+		w.lock.tryUnlock()
 	}
 	return nil
 }
 
+// abort discards the message because of err and releases the writer lock.
+// A message that has been sent partly can neither be completed nor taken back,
+// so in that case the connection gets closed and the returned error is fatal.
+func (w *ConnWriter) abort(err error) error {
+	if w.closed {
+		return err
+	}
+	if w.flushCount > 0 && !IsFatalErr(err) {
+		w.conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
+		err = fatal(err)
+	}
+	w.closed = true
+	w.lock.tryUnlock()
+	return err
+}
+
 // sendFrame writes a prepared frame to the underlying connection.
 // This function is for internal library use.
 // All non-nil errors returned are fatal.
@@ -215,7 +234,7 @@ func (conn *Conn) SendMessage(ctx context.Context, opcode uint8, b []byte) error
 
 	_, err = w.Write(b)
 	if err != nil {
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
@@ -261,7 +280,7 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 
 	err = json.NewEncoder(w).Encode(v)
 	if err != nil {
-		return err
+		return w.abort(err)
 	}
 
 	return w.Close()
-- 
2.43.0


From 286e7efc125b33a461a893f0eeea44c01fed69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 14/44] fix: give every message its own writer handle

The handle was shared, so closing a writer twice (say, deferred and explicit)
ended the message of whoever had got the writer in between.
---
 conn_write.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 232e8f2..8a32c93 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -77,9 +77,12 @@ func (conn *Conn) NextWriter(ctx context.Context, msgType uint8) (*ConnWriter, e
 		return nil, err
 	}
 
-	conn.writer.reset(ctx, msgType)
+	// every message has its own handle: using or closing a handle again after
+	// its message has ended must not affect the message of the next owner.
+	w := *conn.writer
+	w.reset(ctx, msgType)
 
-	return conn.writer, nil
+	return &w, nil
 }
 
 // Write appends bytes to the writer buffer and flushes if full.
-- 
2.43.0


From 73d0a1e68aa7029ae1468b9e227ed19ad02abdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 15/44] fix: keep broadcast frames out of fragmented messages

They were written under the frame lock only, so a broadcast could land between
the fragments of a message being streamed.
---
 broadcast.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index e11b8ee..5d8b3d3 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -21,6 +21,12 @@ type frame struct {
 // Here we will send the frame directly (in one syscall) without copying to user buffer (without facing the possibility of fragmenting it).
 // This will save us syscalls and copies.
 func (m *frame) writeToConn(conn *Conn) error {
+	// A data frame must not be sent between the fragments of another message.
+	if err := conn.writer.lock.lockCtx(m.ctx); err != nil {
+		return err
+	}
+	defer conn.writer.lock.unLock()
+
 	// Acquire write lock
 	if err := conn.writeLock.lockCtx(m.ctx); err != nil {
 		return err
-- 
2.43.0


From cf702c8df3359132c22548214f9dc23629034d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 16/44] fix: skip the unread rest of a message before reading
 the next one

After a partial read, a type mismatch in ReadJSON or undecodable JSON the rest
of the payload was parsed as frame headers.
---
 conn.go       | 2 +-
 conn_read.go  | 5 +++++
 conn_utils.go | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 2a915a1..de316a1 100755
--- a/conn.go
+++ b/conn.go
@@ -78,7 +78,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		}
 	}
 
-	conn.reader = ConnReader{conn: conn}
+	conn.reader = ConnReader{conn: conn, fin: true}
 	conn.writer = conn.newWriter(wb)
 	conn.controlWriter = conn.newControlWriter()
 
diff --git a/conn_read.go b/conn_read.go
index da53a27..130f1cc 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -156,6 +156,11 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(err)
 	}
 
+	// skip what the application hasn't read of the previous message.
+	if err := conn.skipRestOfMessage(); err != nil {
+		return nil, nilOpcode, fatal(err)
+	}
+
 	opcode, err := conn.acceptFrame()
 	if err != nil {
 		return nil, nilOpcode, fatal(err)
diff --git a/conn_utils.go b/conn_utils.go
index 820c10a..213f172 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -134,6 +134,7 @@ func (conn *Conn) skipRestOfMessage() error {
 		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 		return err
 	}
+	conn.reader.remaining = 0
 
 	for !conn.reader.fin {
 		opcode, err := conn.acceptFrame()
@@ -150,6 +151,7 @@ func (conn *Conn) skipRestOfMessage() error {
 			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())
 			return err
 		}
+		conn.reader.remaining = 0
 	}
 
 	return nil
-- 
2.43.0


From 37971b71e19d31f1b2070ef8aa50fd19a94b425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 17/44] fix: ReadJSON rejects messages that are not one JSON
 value

Anything after the first value was ignored, so invalid JSON was accepted.
---
 conn_read.go | 13 ++++++++++++-
 errors.go    |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index 130f1cc..51fda5d 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -331,5 +331,16 @@ func (conn *Conn) ReadJSON(v any) error {
 		return ErrMessageTypeMismatch
 	}
 
-	return json.NewDecoder(reader).Decode(v)
+	dec := json.NewDecoder(reader)
+	if err := dec.Decode(v); err != nil {
+		return err
+	}
+	// only white space may follow the value.
+	if _, err := dec.Token(); err == nil {
+		return ErrInvalidJSON
+	} else if err != io.EOF {
+		return err
+	}
+
+	return nil
 }
diff --git a/errors.go b/errors.go
index f4278d0..5aa7700 100755
--- a/errors.go
+++ b/errors.go
@@ -51,6 +51,7 @@ var (
 	ErrMessageTooLarge         = errors.New("message received from client was too large")
 	ErrTooMuchFragments        = errors.New("receive too much fragments for a signle message")
 	ErrInvalidUTF8             = errors.New("invalid utf8 data")
+	ErrInvalidJSON             = errors.New("invalid json: data after the top-level value")
 	// ErrMessageTypeMismatch is returned when the received WebSocket message type
 	// does not match the expected type (e.g., expecting text but received binary).
 	ErrMessageTypeMismatch     = errors.New("websocket message type did not match expected type")
-- 
2.43.0


From a1dbac17ac18a6190f6cb4005d29818cfa8d5b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 18/44] fix: fail streaming reads on a closed connection

Buffered payload was still handed out after the connection had been closed.
---
 conn_read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn_read.go b/conn_read.go
index 51fda5d..ae7627a 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -199,6 +199,12 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 //   - If a fatal error occurs (protocol violation, closed connection, etc.),
 //     the connection will be closed and a fatal error will be returned.
 func (r *ConnReader) Read(p []byte) (n int, err error) {
+	select {
+	case <-r.conn.done:
+		return 0, fatal(ErrConnClosed)
+	default:
+	}
+
 	// if we reached the end if the frame and a Continuation frame is expected.
 	if r.remaining == 0 && !r.fin {
 		// checking if we reached the ReaderMaxFragments before reading the next frame.
-- 
2.43.0


From ba12253509480b7728f8ef67d7f57060f8f51017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:05 +0000
Subject: [PATCH 19/44] fix: apply MaxMessageSize to messages only, and honour
 -1

Control frames longer than MaxMessageSize closed the connection, and with -1
(documented as no limit) every message was too large.
---
 conn_read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conn_read.go b/conn_read.go
index ae7627a..f368d1f 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -92,11 +92,6 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			n = int(lengthB)
 		}
 
-		if n > conn.upgrader.MaxMessageSize {
-			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
-			return nilOpcode, ErrTooLargePayload
-		}
-
 		// handling control frames
 		if isControl(opcode) {
 			if !fin || n > MaxControlFramePayload {
@@ -119,6 +114,11 @@ func (conn *Conn) acceptFrame() (uint8, error) {
 			continue
 		}
 
+		if conn.upgrader.MaxMessageSize >= 0 && n > conn.upgrader.MaxMessageSize {
+			conn.CloseWithCode(CloseMessageTooBig, ErrTooLargePayload.Error())
+			return nilOpcode, ErrTooLargePayload
+		}
+
 		// reseting conn.reader current frame info.
 		conn.reader.fin = fin
 		conn.reader.remaining = n
@@ -222,7 +222,7 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 			return 0, fatal(ErrExpectedContinuation)
 		}
 		r.totalSize += r.remaining
-		if r.totalSize > r.conn.upgrader.MaxMessageSize {
+		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {
 			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())
 			return 0, fatal(ErrMessageTooLarge)
 		}
-- 
2.43.0


From 43646d8952aa2f6d8c959edfe50199ad213e3516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 20/44] fix: count the first fragment of a message

Messages of ReaderMaxFragments+1 fragments were accepted.
---
 conn_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index f368d1f..f8c8815 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -171,7 +171,7 @@ func (conn *Conn) NextReader() (io.Reader, uint8, error) {
 		return nil, nilOpcode, fatal(ErrInvalidOPCODE)
 	}
 
-	conn.reader.fragments = 0
+	conn.reader.fragments = 1
 	conn.reader.totalSize = conn.reader.remaining
 
 	ok, err := conn.allow()
-- 
2.43.0


From 7c49cc1bf65716dc50af56f71de8036c29a5e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 21/44] fix: make the read buffer large enough for any control
 frame

With a ReadBufferSize below 125 longer pings, pongs and close frames could not
be peeked and closed the connection. A nil reader was dereferenced before its
nil check.
---
 conn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index de316a1..37f40b3 100755
--- a/conn.go
+++ b/conn.go
@@ -64,13 +64,15 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 	conn.writeLock = newMu(conn)
 
 	size := u.ReadBufferSize
-	if (size == 0 && br != nil) || (br != nil && size == br.Size()) {
+	if br != nil && br.Size() >= MaxControlFramePayload && (size == 0 || size == br.Size()) {
 		conn.readBuf = br
 	} else {
-		if size < MaxHeaderSize {
-			size += MaxHeaderSize
+		if size == 0 {
+			size = DefaultReadBufferSize
 		}
-		if br.Buffered() > 0 && br != nil {
+		// headers and control frames are read as a whole.
+		size = max(size, MaxControlFramePayload)
+		if br != nil && br.Buffered() > 0 {
 			// The client sent data before receiving the response.
 			conn.readBuf = bufio.NewReaderSize(&brNetConn{Conn: conn.raw, br: br}, size)
 		} else {
-- 
2.43.0


From a74ab0b347a6e3e14d9306aa0de66f758f07eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 22/44] fix: keep room for payload in small write buffers

A WriteBufferSize that only holds a frame header made Write loop forever, a
smaller one made it panic.
---
 options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/options.go b/options.go
index 8c3f0bc..c4b8e8c 100755
--- a/options.go
+++ b/options.go
@@ -117,6 +117,10 @@ func (opt *Options) WithDefault() {
 	if opt.WriteBufferSize == 0 {
 		opt.WriteBufferSize = DefaultWriteBufferSize
 	}
+	if opt.WriteBufferSize <= MaxHeaderSize {
+		// room for at least some payload after the header.
+		opt.WriteBufferSize = 2 * MaxHeaderSize
+	}
 	if opt.BroadcastChannelsSize == 0 {
 		opt.BroadcastChannelsSize = DefaultBroadcastChannelsSize
 	}
-- 
2.43.0


From 62972ce8ac4c03d4298ab336705d0438722c0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 23/44] fix: read list headers of the handshake from all their
 lines

Only the first line of a repeated Connection, Upgrade or Sec-WebSocket-Protocol
header was considered.
---
 upgrader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index 0ce1c74..ad9dc2b 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -138,7 +138,7 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 }
 
 func validateConnectionHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Connection")
+	rawHeader := strings.Join(r.Header.Values("Connection"), ",")
 	if rawHeader == "" {
 		return ErrMissingConnectionHeader
 	}
@@ -155,7 +155,7 @@ func validateConnectionHeader(r *http.Request) error {
 }
 
 func validateUpgradeHeader(r *http.Request) error {
-	rawHeader := r.Header.Get("Upgrade")
+	rawHeader := strings.Join(r.Header.Values("Upgrade"), ",")
 	if rawHeader == "" {
 		return ErrMissingUpgradeHeader
 	}
@@ -201,7 +201,7 @@ func selectSubProtocol(r *http.Request, subProtocols []string) string {
 	if subProtocols == nil {
 		return ""
 	}
-	rawHeader := r.Header.Get("Sec-WebSocket-Protocol")
+	rawHeader := strings.Join(r.Header.Values("Sec-WebSocket-Protocol"), ",")
 	if rawHeader == "" {
 		return ""
 	}
-- 
2.43.0


From de84dd84eb60aebd9d2f6e48f4d8cae2ad57cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 24/44] fix: write the handshake response before starting the
 connection

If writing it failed, the ping loop and the hijacked transport were left behind
with nobody able to close them; a stalled client blocked Upgrade forever, and a
short PingEvery put a ping in front of the response.
---
 upgrader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/upgrader.go b/upgrader.go
index ad9dc2b..9c2ba24 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -9,6 +9,7 @@ import (
 	"slices"
 	"strings"
 	"sync"
+	"time"
 )
 
 const GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
@@ -105,7 +106,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 
 	p := brw.Writer.AvailableBuffer()
-	conn := u.newConn(c, subProtocol, brw.Reader, p)
 
 	// writing response
 	p = append(p, "HTTP/1.1 101 Switching Protocols\r\n"...)
@@ -121,11 +121,17 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 	}
 	p = append(p, "\r\n"...)
 
-	_, err = c.Write(p)
+	if err = c.SetWriteDeadline(time.Now().Add(u.WriteWait)); err == nil {
+		_, err = c.Write(p)
+	}
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
+	// the connection comes to life (and may send pings) only after the response.
+	conn := u.newConn(c, subProtocol, brw.Reader, p[:0])
+
 	if u.OnConnect != nil {
 		u.OnConnect(conn)
 	}
-- 
2.43.0


From 223bbf7fd92bb762cab6b7f0383e71153fdd882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 25/44] fix: register with the rate limiter before the
 connection can close

A connection closed in OnConnect was added to the limiter afterwards and stayed
there forever, and messages read in OnConnect were not limited.
---
 conn.go     | 4 ++++
 upgrader.go | 4 ----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index 37f40b3..e43ad3f 100755
--- a/conn.go
+++ b/conn.go
@@ -88,6 +88,10 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		conn.batch = u.Flusher.newBatch(conn)
 	}
 
+	if u.Limiter != nil {
+		u.Limiter.addClient(conn)
+	}
+
 	go conn.pingLoop()
 
 	return conn
diff --git a/upgrader.go b/upgrader.go
index 9c2ba24..0a6d799 100755
--- a/upgrader.go
+++ b/upgrader.go
@@ -136,10 +136,6 @@ func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request) (*Conn, error
 		u.OnConnect(conn)
 	}
 
-	if u.Limiter != nil {
-		u.Limiter.addClient(conn)
-	}
-
 	return conn, err
 }
 
-- 
2.43.0


From b89f40658e717e23ce292813f7ea74e66da47568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 26/44] fix: close the connection when OnRateLimitHit returns
 an error

The read returned a fatal error but the connection stayed open, in the middle
of a message.
---
 conn_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn_utils.go b/conn_utils.go
index 213f172..e397283 100755
--- a/conn_utils.go
+++ b/conn_utils.go
@@ -122,6 +122,10 @@ func (conn *Conn) allow() (bool, error) {
 	if conn.upgrader.Limiter != nil && !conn.upgrader.Limiter.allow(conn) {
 		if conn.upgrader.Limiter.OnRateLimitHit != nil {
 			err := conn.upgrader.Limiter.OnRateLimitHit(conn)
+			if err != nil {
+				// no-op if the hook has closed it.
+				conn.CloseWithCode(ClosePolicyViolation, "rate limited")
+			}
 			return false, err
 		}
 		return false, nil
-- 
2.43.0


From 441ad00bd5dfb6baf2c8ef66f865286411832db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 27/44] fix: ignore unsolicited pongs while a ping is
 outstanding

A client's heartbeat pong (any payload, RFC 6455 5.5.3) between our ping and
its answer closed the connection with a protocol error.
---
 conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index e43ad3f..c105f43 100755
--- a/conn.go
+++ b/conn.go
@@ -186,8 +186,8 @@ func (conn *Conn) handlePong(n int, isMasked bool) error {
 
 		conn.controlWriter.mask(p)
 		if ok := comparePayload(conn.pingPayload[:], p); !ok {
-			conn.CloseWithCode(CloseProtocolError, "ping/pong payload mismatch")
-			return ErrConnClosed
+			// not the answer to our ping: unsolicited pongs are allowed (RFC 6455 5.5.3).
+			return nil
 		}
 		if err = conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait)); err != nil {
 			conn.CloseWithCode(CloseInternalServerErr, "timeout")
-- 
2.43.0


From 120a5f0881144acc4f5b139e1ca693a2daa3542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 28/44] fix: add a connection to its flusher after its batch
 exists, remove it there

The flusher could reach a connection whose batch was still nil, and a
connection whose upgrader got a new flusher stayed in the old one.
---
 conn.go         | 5 +++--
 conn_batcher.go | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/conn.go b/conn.go
index c105f43..765e1a5 100755
--- a/conn.go
+++ b/conn.go
@@ -86,6 +86,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 
 	if u.Flusher != nil {
 		conn.batch = u.Flusher.newBatch(conn)
+		u.Flusher.add(conn)
 	}
 
 	if u.Limiter != nil {
@@ -244,8 +245,8 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 		conn.upgrader.Limiter.removeClient(conn)
 	}
 
-	if conn.upgrader.Flusher != nil {
-		conn.upgrader.Flusher.remove(conn)
+	if conn.batch != nil {
+		conn.batch.flusher.remove(conn)
 	}
 }
 
diff --git a/conn_batcher.go b/conn_batcher.go
index def27ad..93ede54 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -16,7 +16,6 @@ type messageBatch struct {
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
-	f.add(conn)
 	return &messageBatch{
 		messages: make([][]byte, 0),
 		conn:     conn,
-- 
2.43.0


From ac983b45bc920c1432c333cf86d59e3e7777b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 29/44] fix: a closing connection leaves every room and manager
 it is in

There was one onClose callback per connection, so a connection in several
rooms (or in a room and a manager) stayed a member of all but the last one, and
a connection that had closed before it was added stayed forever.
---
 conn.go          | 31 ++++++++++++++++++++++++-------
 manager.go       | 10 ++++++++++
 rooms_manager.go | 17 ++++++++++-------
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/conn.go b/conn.go
index 765e1a5..c024f3b 100755
--- a/conn.go
+++ b/conn.go
@@ -27,7 +27,9 @@ type Conn struct {
 	// would receive ok=false, indicating that the channel is closed => conn is closed.
 	done      chan struct{}
 	closeOnce sync.Once
-	onClose   func()
+	// callbacks to run when the connection closes, by their owner (a room, a
+	// registration in a manager). nil once they have been run.
+	onClose map[any]func()
 	// onCloseMu protects concurrent access to onClose callbacks.
 	// This prevents race conditions when connections move between rooms
 	// and multiple goroutines try to set/call onClose simultaneously.
@@ -58,6 +60,7 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 		upgrader:    u,
 		SubProtocol: subProtocol,
 		done:        make(chan struct{}),
+		onClose:     make(map[any]func()),
 		pingPayload: make([]byte, 0, MaxControlFramePayload),
 		ticker:      time.NewTicker(u.PingEvery),
 	}
@@ -118,12 +121,25 @@ type ManagedConn[KeyType comparable] struct {
 }
 
 func (m *Manager[KeyType]) newManagedConn(conn *Conn, key KeyType) *ManagedConn[KeyType] {
+	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+}
+
+// setOnClose sets the callback of the given owner to be run when the connection closes.
+// It returns false if the connection has already run its callbacks.
+func (conn *Conn) setOnClose(owner any, f func()) bool {
 	conn.onCloseMu.Lock()
 	defer conn.onCloseMu.Unlock()
-	conn.onClose = func() {
-		m.unregister(key)
+	if conn.onClose == nil {
+		return false
 	}
-	return &ManagedConn[KeyType]{Conn: conn, Key: key, Manager: m}
+	conn.onClose[owner] = f
+	return true
+}
+
+func (conn *Conn) removeOnClose(owner any) {
+	conn.onCloseMu.Lock()
+	defer conn.onCloseMu.Unlock()
+	delete(conn.onClose, owner)
 }
 
 // Used to write control frames.
@@ -234,10 +250,11 @@ func (conn *Conn) CloseWithCode(code uint16, reason string) {
 	}
 
 	conn.onCloseMu.Lock()
-	onClose := conn.onClose
+	callbacks := conn.onClose
+	conn.onClose = nil
 	conn.onCloseMu.Unlock()
-	if onClose != nil {
-		onClose()
+	for _, f := range callbacks {
+		f()
 	}
 
 	// remove from rate limiter if exists
diff --git a/manager.go b/manager.go
index b0706a2..5433489 100755
--- a/manager.go
+++ b/manager.go
@@ -75,12 +75,22 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		conn.raw.Close()
 	}
 	m.conns[key] = conn
+	open := conn.setOnClose(registration[KeyType]{m, key}, func() { m.unregister(key) })
 	m.mu.Unlock()
 
 	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
+	if !open {
+		m.unregister(key)
+	}
+}
+
+// the owner of a manager's onClose callback.
+type registration[KeyType comparable] struct {
+	m   *Manager[KeyType]
+	key KeyType
 }
 
 // only to be called bt conn.Close(), dont use it manually.
diff --git a/rooms_manager.go b/rooms_manager.go
index e7e01aa..342b1ae 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -230,20 +230,19 @@ func (r *Room[keyType]) Close() {
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
 	r.conns[conn] = true
-	r.mu.Unlock()
-
 	// Set up automatic cleanup when connection closes
-	conn.onCloseMu.Lock()
-	conn.onClose = func() {
-		r.Remove(conn, args...)
-	}
-	conn.onCloseMu.Unlock()
+	open := conn.setOnClose(r, func() { r.Remove(conn, args...) })
+	r.mu.Unlock()
 
 	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
 	}
+	if !open {
+		// closed before it has been added.
+		r.Remove(conn, args...)
+	}
 }
 
 // Remove removes a connection from the room.
@@ -255,6 +254,7 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
 	delete(r.conns, conn)
+	conn.removeOnClose(r)
 	r.mu.Unlock()
 
 	// calling onLeave hook
@@ -271,6 +271,9 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Lock()
 	conns := r.conns               // copy
 	r.conns = make(map[*Conn]bool) // empty
+	for c := range conns {
+		c.removeOnClose(r)
+	}
 	r.mu.Unlock()
 
 	// calling hook
-- 
2.43.0


From 635c10b983d3a94c84c9c0726dff62ca1347e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 30/44] fix: make Room.Add and Room.Remove no-ops as documented

Adding a member again ran OnJoin again, removing a connection that is not in
the room ran OnLeave.
---
 rooms_manager.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rooms_manager.go b/rooms_manager.go
index 342b1ae..5729d06 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -229,6 +229,10 @@ func (r *Room[keyType]) Close() {
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	r.conns[conn] = true
 	// Set up automatic cleanup when connection closes
 	open := conn.setOnClose(r, func() { r.Remove(conn, args...) })
@@ -253,6 +257,10 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 // Thread-safe: Multiple goroutines can call this concurrently.
 func (r *Room[keyType]) Remove(conn *Conn, args ...any) {
 	r.mu.Lock()
+	if !r.conns[conn] {
+		r.mu.Unlock()
+		return
+	}
 	delete(r.conns, conn)
 	conn.removeOnClose(r)
 	r.mu.Unlock()
-- 
2.43.0


From b30ca630d3842a88206a46fa71df54584aa64162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 31/44] fix: Room.RemoveAll and Room.Close without OnLeave hook

They called the nil hook and panicked.
---
 rooms_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 5729d06..032d573 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -285,8 +285,10 @@ func (r *Room[keyType]) RemoveAll() {
 	r.mu.Unlock()
 
 	// calling hook
-	for c := range conns {
-		r.OnLeave(r, c)
+	if r.OnLeave != nil {
+		for c := range conns {
+			r.OnLeave(r, c)
+		}
 	}
 }
 
-- 
2.43.0


From 90f3fba0190b1db6a0b4c769012ea64d3b2eeec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 32/44] fix: RoomManager.Shutdown does not hold its lock while
 closing

OnDisconnect and OnLeave hooks that use the room manager never returned.
---
 rooms_manager.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/rooms_manager.go b/rooms_manager.go
index 032d573..e4e1688 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -171,18 +171,20 @@ func (rm *RoomManager[keyType]) GetRoomKeys() []keyType {
 //
 // After calling Shutdown, the RoomManager should not be used.
 func (rm *RoomManager[keyType]) Shutdown() {
+	// no lock is held while closing: it runs the hooks of the user.
 	rm.mu.Lock()
-	defer rm.mu.Unlock()
+	rooms := rm.rooms
+	rm.rooms = make(map[keyType]*Room[keyType])
+	rm.mu.Unlock()
 
-	connsCount := 0
-	for _, r := range rm.rooms {
-		r.mu.Lock()
-		connsCount += len(r.conns)
+	var conns []*Conn
+	for _, r := range rooms {
+		conns = append(conns, r.GetAllConns()...)
 	}
 
 	var wg sync.WaitGroup
-	workers := (connsCount / 5) + 2
-	ch := make(chan *Conn, connsCount)
+	workers := (len(conns) / 5) + 2
+	ch := make(chan *Conn, len(conns))
 
 	for range workers {
 		wg.Add(1)
@@ -194,16 +196,11 @@ func (rm *RoomManager[keyType]) Shutdown() {
 		}()
 	}
 
-	for _, r := range rm.rooms {
-		for c := range r.conns {
-			ch <- c
-		}
-		r.mu.Unlock()
+	for _, c := range conns {
+		ch <- c
 	}
 
 	close(ch)
-	rm.rooms = make(map[keyType]*Room[keyType])
-
 	wg.Wait()
 }
 
@@ -217,7 +214,9 @@ func (r *Room[keyType]) Close() {
 
 	r.rm.mu.Lock()
 	defer r.rm.mu.Unlock()
-	delete(r.rm.rooms, r.Key)
+	if r.rm.rooms[r.Key] == r {
+		delete(r.rm.rooms, r.Key)
+	}
 }
 
 // Add adds a connection to the room.
-- 
2.43.0


From 60551cb8fb94592f808e52c05b0e38e926d37efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 33/44] fix: Manager.Shutdown deadlock, unregister only the
 conn that closed

Shutdown locked the manager and then called GetAllConns, which locks it again.
Unregistering removed whatever was registered under the key, so the cleanup of
a replaced connection removed and reported its successor.
---
 manager.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/manager.go b/manager.go
index 5433489..1b9550c 100755
--- a/manager.go
+++ b/manager.go
@@ -75,7 +75,7 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		conn.raw.Close()
 	}
 	m.conns[key] = conn
-	open := conn.setOnClose(registration[KeyType]{m, key}, func() { m.unregister(key) })
+	open := conn.setOnClose(registration[KeyType]{m, key}, func() { m.unregister(key, conn) })
 	m.mu.Unlock()
 
 	conn.enableBroadcasting()
@@ -83,7 +83,7 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		m.OnRegister(conn)
 	}
 	if !open {
-		m.unregister(key)
+		m.unregister(key, conn)
 	}
 }
 
@@ -94,23 +94,17 @@ type registration[KeyType comparable] struct {
 }
 
 // only to be called bt conn.Close(), dont use it manually.
-func (m *Manager[KeyType]) unregister(id KeyType) error {
+func (m *Manager[KeyType]) unregister(id KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
-
-	conn, ok := m.conns[id]
-	if !ok {
-		m.mu.Unlock()
-		return ErrConnNotFound
+	// the key may belong to a newer conn by now.
+	if m.conns[id] == conn {
+		delete(m.conns, id)
 	}
-
-	delete(m.conns, id)
 	m.mu.Unlock()
 
 	if m.OnUnregister != nil {
 		m.OnUnregister(conn)
 	}
-
-	return nil
 }
 
 // Receives a key, returns a pointer to the connection associated with the key.
@@ -204,10 +198,13 @@ func (m *Manager[KeyType]) BroadcastJSON(ctx context.Context, v interface{}, exc
 // - Closes all connections normaly.
 // - Clears the conns map.
 func (m *Manager[KeyType]) Shutdown() {
+	// no lock is held while closing: it unregisters the conns and runs the hooks of the user.
 	m.mu.Lock()
-	defer m.mu.Unlock()
+	conns := m.conns
+	m.conns = make(map[KeyType]*ManagedConn[KeyType])
+	m.mu.Unlock()
 
-	workers := (len(m.conns) / 5) + 2
+	workers := (len(conns) / 5) + 2
 	var wg sync.WaitGroup
 	ch := make(chan *ManagedConn[KeyType], workers)
 
@@ -221,14 +218,11 @@ func (m *Manager[KeyType]) Shutdown() {
 		}()
 	}
 
-	conns := m.GetAllConns()
 	for _, conn := range conns {
 		ch <- conn
 	}
 	close(ch)
 	wg.Wait()
-
-	m.conns = make(map[KeyType]*ManagedConn[KeyType])
 }
 
 // BatchBroadcast loops over the manager's connections and adds the given data into their batch.
-- 
2.43.0


From 27c7ab01b178e16288d5042cebdf78df13bb7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 34/44] fix: close a replaced connection properly

Only its transport was closed: no close frame, no hooks and no error for its
users until the next read or ping noticed. Registering a connection again under
its own key closed its transport.
---
 manager.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/manager.go b/manager.go
index 1b9550c..85aafa7 100755
--- a/manager.go
+++ b/manager.go
@@ -71,13 +71,15 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 	m.mu.Lock()
-	if conn, ok := m.conns[key]; ok {
-		conn.raw.Close()
-	}
+	old := m.conns[key]
 	m.conns[key] = conn
 	open := conn.setOnClose(registration[KeyType]{m, key}, func() { m.unregister(key, conn) })
 	m.mu.Unlock()
 
+	if old != nil && old != conn {
+		old.Close()
+	}
+
 	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
-- 
2.43.0


From b0a950c71ebc34f370ea91e567f757baa9d9f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 35/44] fix: create the broadcast queue before a connection
 becomes visible

A broadcast could find the queue still nil: the message was dropped, the
connection closed as too slow or the caller blocked forever, depending on the
strategy. Concurrent Adds could create two queues.
---
 conn.go          | 11 +++++------
 manager.go       |  4 +++-
 rooms_manager.go |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index c024f3b..0640831 100755
--- a/conn.go
+++ b/conn.go
@@ -49,6 +49,7 @@ type Conn struct {
 	readBuf     *bufio.Reader
 
 	broadcastQueue chan message
+	broadcastOnce  sync.Once
 
 	batch *messageBatch
 }
@@ -102,13 +103,11 @@ func (u *Upgrader) newConn(c net.Conn, subProtocol string, br *bufio.Reader, wb
 }
 
 func (conn *Conn) enableBroadcasting() {
-	if conn.broadcastQueue != nil {
-		return
-	}
+	conn.broadcastOnce.Do(func() {
+		conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
 
-	conn.broadcastQueue = make(chan message, conn.upgrader.BroadcastChannelsSize)
-
-	go conn.broadcastListener()
+		go conn.broadcastListener()
+	})
 }
 
 // ManagedConn is a Conn that is tracked by a Manager.
diff --git a/manager.go b/manager.go
index 85aafa7..9f14bd3 100755
--- a/manager.go
+++ b/manager.go
@@ -70,6 +70,9 @@ func (m *Manager[KeyType]) Connect(key KeyType, w http.ResponseWriter, r *http.R
 // If the key already exists, it will close the connection associated with the key,
 // and replace it with the new connection received by the fucntion.
 func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
+	// before others can see it: it may be broadcasted to at once.
+	conn.enableBroadcasting()
+
 	m.mu.Lock()
 	old := m.conns[key]
 	m.conns[key] = conn
@@ -80,7 +83,6 @@ func (m *Manager[KeyType]) Register(key KeyType, conn *ManagedConn[KeyType]) {
 		old.Close()
 	}
 
-	conn.enableBroadcasting()
 	if m.OnRegister != nil {
 		m.OnRegister(conn)
 	}
diff --git a/rooms_manager.go b/rooms_manager.go
index e4e1688..7a4ce66 100755
--- a/rooms_manager.go
+++ b/rooms_manager.go
@@ -227,6 +227,9 @@ func (r *Room[keyType]) Close() {
 // Thread-safe: Multiple goroutines can call this concurrently.
 // If the connection is already in the room, this is a no-op.
 func (r *Room[keyType]) Add(conn *Conn, args ...any) {
+	// before others can see it: it may be broadcasted to at once.
+	conn.enableBroadcasting()
+
 	r.mu.Lock()
 	if r.conns[conn] {
 		r.mu.Unlock()
@@ -237,7 +240,6 @@ func (r *Room[keyType]) Add(conn *Conn, args ...any) {
 	open := conn.setOnClose(r, func() { r.Remove(conn, args...) })
 	r.mu.Unlock()
 
-	conn.enableBroadcasting()
 	// calling onJoin hook
 	if r.OnJoin != nil {
 		r.OnJoin(r, conn, args...)
-- 
2.43.0


From 04427efe003d8dd9f973baf693723c12202e125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 36/44] fix: do not wait for room in the queue of a closed
 connection

With BackpressureWait a broadcast blocked forever on a full queue that nobody
reads any more.
---
 broadcast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index 5d8b3d3..f7116c7 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -121,6 +121,7 @@ func (u *Upgrader) broadcast(ctx context.Context, conns []*Conn, opcode uint8, d
 				select {
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
@@ -176,6 +177,7 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 					return n, u.Flusher.ctx.Err()
 				case <-ctx.Done():
 					return n, ctx.Err()
+				case <-conn.done:
 				case conn.broadcastQueue <- m:
 					n++
 				}
-- 
2.43.0


From bcbce428332901a0e4b390d7ae10c95d082ae492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 37/44] fix: accept a nil context in batch broadcasts, as in
 broadcasts

---
 broadcast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index f7116c7..a49d354 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -149,6 +149,9 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	if u.Flusher == nil {
 		return 0, ErrBatchingUninitialized
 	}
+	if ctx == nil {
+		ctx = context.Background()
+	}
 
 	m := &batchMessage{buf: data}
 
-- 
2.43.0


From ec2bb12a58e33e6d3c4eabb832c3c5d13604982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 38/44] fix: batches are sent in order, complete and within the
 size limit

Every batch was sent by a goroutine of its own, so batches could overtake each
other; concurrent Batch calls could each find room after one flush and exceed
MaxBatchSize together; and a message accepted while the flusher was closing was
never sent.
---
 conn_batcher.go | 53 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/conn_batcher.go b/conn_batcher.go
index 93ede54..8ee201d 100755
--- a/conn_batcher.go
+++ b/conn_batcher.go
@@ -10,9 +10,12 @@ import (
 type messageBatch struct {
 	messages  [][]byte
 	totalSize int
-	mu        sync.Mutex
-	conn      *Conn
-	flusher   *batchFlusher
+	// complete batches in the order they have to be sent, and whether a goroutine is sending them.
+	pending [][][]byte
+	sending bool
+	mu      sync.Mutex
+	conn    *Conn
+	flusher *batchFlusher
 }
 
 func (f *batchFlusher) newBatch(conn *Conn) *messageBatch {
@@ -40,6 +43,10 @@ func (conn *Conn) Batch(data []byte) error {
 		return ErrBatchingUninitialized
 	}
 
+	conn.batch.mu.Lock()
+	defer conn.batch.mu.Unlock()
+
+	// checked under the lock: the last flush of a closing flusher comes after it.
 	select {
 	case <-conn.done:
 		return ErrConnClosed
@@ -50,16 +57,12 @@ func (conn *Conn) Batch(data []byte) error {
 	default:
 	}
 
-	conn.batch.mu.Lock()
 	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {
-		conn.batch.mu.Unlock()
-		conn.batch.flush()
-		conn.batch.mu.Lock()
+		conn.batch.flushLocked()
 	}
 
 	conn.batch.messages = append(conn.batch.messages, data)
 	conn.batch.totalSize += len(data)
-	conn.batch.mu.Unlock()
 
 	return nil
 }
@@ -84,19 +87,43 @@ func (conn *Conn) BatchJSON(v interface{}) error {
 	return conn.Batch(jData)
 }
 
-// if the messages slice isn't empty, it copies it, allocates a new one, and sends it.
+// if the messages slice isn't empty, it queues it for sending and allocates a new one.
 func (b *messageBatch) flush() {
 	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.flushLocked()
+}
+
+func (b *messageBatch) flushLocked() {
 	if len(b.messages) == 0 {
-		b.mu.Unlock()
 		return
 	}
-	c := b.messages
+	b.pending = append(b.pending, b.messages)
 	b.messages = make([][]byte, 0)
 	b.totalSize = 0
-	b.mu.Unlock()
 
-	go b.send(c)
+	if !b.sending {
+		b.sending = true
+		go b.sendPending()
+	}
+}
+
+// sends the queued batches one after another, so they arrive in order.
+func (b *messageBatch) sendPending() {
+	for {
+		b.mu.Lock()
+		if len(b.pending) == 0 {
+			b.pending = nil
+			b.sending = false
+			b.mu.Unlock()
+			return
+		}
+		messages := b.pending[0]
+		b.pending = b.pending[1:]
+		b.mu.Unlock()
+
+		b.send(messages)
+	}
 }
 
 // receives the connections slice and the messages and calls the appropriate send function.
-- 
2.43.0


From de916c72ec93b4b04684d322e7afcbead95c08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 39/44] fix: Ping on a closed connection fails fatally even if
 a ping is unanswered

---
 conn_write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conn_write.go b/conn_write.go
index 8a32c93..79b9d30 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -296,6 +296,12 @@ func (conn *Conn) SendJSON(ctx context.Context, v any) error {
 // return a non-nil error snapws.ErrPingAlreadySent. So, if you wish to send a ping manually,
 // you should keep trying until the error is not snapws.ErrPingAlreadySent.
 func (conn *Conn) Ping() error {
+	select {
+	case <-conn.done:
+		return fatal(ErrConnClosed)
+	default:
+	}
+
 	// marked before writing: the pong may arrive before the write returns.
 	if !conn.pingSent.CompareAndSwap(false, true) {
 		return ErrPingAlreadySent
-- 
2.43.0


From 7a0be0572fe17c4ba7d0d8a10be08165b968fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 40/44] fix: nothing is written after a failed write, whoever
 gets the lock first

---
 conn_write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 79b9d30..5cea2a0 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -212,6 +212,10 @@ func (w *ConnWriter) abort(err error) error {
 // All non-nil errors returned are fatal.
 // The fucntion doesnt close the connection on error.
 func (conn *Conn) sendFrame(buf []byte) error {
+	if conn.writeFailed {
+		// the last frame may be incomplete: these bytes would become part of it.
+		return ErrConnClosed
+	}
 	_, err := conn.raw.Write(buf)
 	if err != nil {
 		conn.writeFailed = true
@@ -409,9 +413,5 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
-	if cw.conn.writeFailed {
-		// the last frame may be incomplete: these bytes would become part of it.
-		return
-	}
 	cw.conn.sendFrame(cw.buf)
 }
-- 
2.43.0


From af09de7d09b187c1599150ed15ccccb2a4395462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 41/44] fix: batch broadcasts fail once the flusher has ended

The select picked randomly between the ended flusher and free space in the
queue, so messages were counted as accepted and then lost.
---
 broadcast.go |  6 ++++++
 flusher.go   | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/broadcast.go b/broadcast.go
index a49d354..9c87722 100755
--- a/broadcast.go
+++ b/broadcast.go
@@ -156,6 +156,12 @@ func (u *Upgrader) batchBroadcast(ctx context.Context, conns []*Conn, data []byt
 	m := &batchMessage{buf: data}
 
 	for _, conn := range conns {
+		// checked first: select picks randomly between ready cases, and a
+		// message queued after the flusher has ended would be lost silently.
+		if err := u.Flusher.ended(); err != nil {
+			return n, err
+		}
+
 		select {
 		case <-u.Flusher.closed:
 			return n, ErrFlusherClosed
diff --git a/flusher.go b/flusher.go
index 4a36166..44fe379 100755
--- a/flusher.go
+++ b/flusher.go
@@ -185,6 +185,18 @@ func (f *batchFlusher) IsClosed() bool {
 	}
 }
 
+// ended returns the reason why the flusher accepts no more messages, or nil if it does.
+func (f *batchFlusher) ended() error {
+	select {
+	case <-f.closed:
+		return ErrFlusherClosed
+	case <-f.ctx.Done():
+		return f.ctx.Err()
+	default:
+		return nil
+	}
+}
+
 // listener runs the periodic flush timer in a dedicated background goroutine.
 // it also listens for the closed channel and the context.
 func (f *batchFlusher) listener() {
-- 
2.43.0


From 6717e365c38ad05fbe4de9f1c3fb6546f5e39090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 42/44] fix: read the payload of a ping before taking the lock
 of control frames

A ping whose payload was still arriving kept the lock, so closing the
connection blocked until the payload came or ReadWait passed, pings timed
out and closed the connection, and the write deadline of the pong could
pass before it was written.
---
 conn_write.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 5cea2a0..8a00d99 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -338,6 +338,25 @@ func (conn *Conn) pong(n int, isMasked bool) error {
 // All errors must be considered fatal, and the connection must be closed manually.
 // this function doesnt close the connection.
 func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
+	// read before locking: the payload may still be on its way, which must not
+	// keep others from writing control frames or closing the connection.
+	var payload []byte
+	if isMasked {
+		b, err := cw.conn.nRead(4)
+		if err != nil {
+			return ErrInternalServer
+		}
+		copy(cw.maskKey[:], b)
+	}
+	if n > 0 && n <= MaxControlFramePayload {
+		var err error
+		payload, err = cw.conn.nRead(n)
+		if err != nil {
+			return ErrConnClosed
+		}
+		cw.mask(payload)
+	}
+
 	t := time.NewTimer(cw.conn.upgrader.WriteWait)
 	defer t.Stop()
 
@@ -355,25 +374,8 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
-	cw.buf[1] = 0 // the buffer is reused, a previous frame may have had a payload
-
-	if isMasked {
-		b, err := cw.conn.nRead(4)
-		if err != nil {
-			return ErrInternalServer
-		}
-		copy(cw.maskKey[:], b)
-	}
-	if n > 0 && n <= MaxControlFramePayload {
-		payload, err := cw.conn.nRead(n)
-		if err != nil {
-			return ErrConnClosed
-		}
-		cw.buf[1] = byte(n)
-
-		cw.mask(payload)
-		cw.buf = append(cw.buf, payload...)
-	}
+	cw.buf[1] = byte(len(payload))
+	cw.buf = append(cw.buf, payload...)
 
 	if err := cw.conn.writeLock.lockTimer(t); err != nil {
 		return err
-- 
2.43.0


From 8bd697f158683cd0582e939b1b54f6913c6281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 43/44] fix: waiting control frames no longer extend the
 deadline of a write in progress

---
 conn_write.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/conn_write.go b/conn_write.go
index 8a00d99..de2977e 100755
--- a/conn_write.go
+++ b/conn_write.go
@@ -366,11 +366,6 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	}
 	defer cw.lock.unLock()
 
-	// set deadline
-	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
-		return err
-	}
-
 	// write header and payload
 	cw.buf = cw.buf[:2]
 	cw.buf[0] = 0x80 + opcode
@@ -382,6 +377,11 @@ func (cw *ControlWriter) writeControl(opcode byte, n int, isMasked bool) error {
 	}
 	defer cw.conn.writeLock.unLock()
 
+	// set deadline, with the write lock held: it must not extend that of another write.
+	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {
+		return err
+	}
+
 	return cw.conn.sendFrame(cw.buf)
 }
 
@@ -398,12 +398,6 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 	// whatever happens to the close frame, the transport gets closed.
 	defer cw.conn.raw.Close()
 
-	// set deadline
-	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
-	if err != nil {
-		return
-	}
-
 	cw.buf = cw.buf[:4]
 	cw.buf[0] = 0x80 + OpcodeClose
 	cw.buf[1] = 2
@@ -415,5 +409,12 @@ func (cw *ControlWriter) writeClose(closeCode uint16, reason string) {
 
 	// lock without unlocking because this is the last write.
 	cw.conn.writeLock.forceLock()
+
+	// set deadline, with the write lock held: it must not extend that of another write.
+	err := cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait))
+	if err != nil {
+		return
+	}
+
 	cw.conn.sendFrame(cw.buf)
 }
-- 
2.43.0


From 56f389cac7cdfd621d3d125e8f3c4457fe64c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:22 +0000
Subject: [PATCH 44/44] fix: reading passes over empty fragments instead of
 returning nothing

---
 conn_read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn_read.go b/conn_read.go
index f8c8815..eda94da 100755
--- a/conn_read.go
+++ b/conn_read.go
@@ -206,7 +206,9 @@ func (r *ConnReader) Read(p []byte) (n int, err error) {
 	}
 
 	// if we reached the end if the frame and a Continuation frame is expected.
-	if r.remaining == 0 && !r.fin {
+	// Empty frames are passed over: users of an io.Reader (bufio, for instance)
+	// give up on one that keeps returning nothing.
+	for r.remaining == 0 && !r.fin {
 		// checking if we reached the ReaderMaxFragments before reading the next frame.
 		if r.conn.upgrader.ReaderMaxFragments > 0 && r.fragments >= r.conn.upgrader.ReaderMaxFragments {
 			r.conn.CloseWithCode(ClosePolicyViolation, ErrTooMuchFragments.Error())
-- 
2.43.0

