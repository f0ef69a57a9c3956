#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Inbound messages are delivered exactly as sent",
  "For every stream of valid client frames, however messages are fragmented, masked, length-encoded, interleaved with control frames and split across network reads, the application reads exactly the messages that were sent: same order, same type, same payload bytes, whichever read call, reader buffer size and configured read-buffer size it uses. End-of-message is reported only after the last byte of the final fragment has been handed out, and a stream that ends early yields a fatal error, never a shortened message.",
  ["inputs","configurations"], "all frame sequences x payload lengths x mask keys x chunkings of the byte stream x read buffer sizes x read calls",
  "The suite reads a single one-byte unfragmented text frame; nothing exercises fragmentation, unmasking across reads, 16/64-bit lengths or short reads.",
  ["conn_read.go","mask.go","conn_utils.go","conn.go"],
  [("frame header parser / fragment loop","conn_read.go acceptFrame, ConnReader.Read"),("incremental unmasking","mask.go"),("peek+discard header reads","conn_utils.go nRead")],
  [("current frame","remaining bytes, mask position, fin of the frame being read","conn_read.go ConnReader")],
  ["values returned by NextReader/Read/ReadMessage/ReadString/ReadBinary/ReadJSON"])
p("C02", "Protocol violations are refused with the right close code",
  "A client byte stream that sets reserved bits, uses an unknown opcode, sends an unmasked frame, starts a message with a continuation frame, starts a new data message inside a fragmented one, or sends a fragmented or over-125-byte control frame makes the current read fail with a fatal error and the connection close with status 1002; invalid UTF-8 in a text message read whole (as message or string) does the same with status 1007 unless validation is switched off. Nothing at or after the violation is ever delivered as a complete message, and no stream containing only valid frames (including any valid UTF-8 text) is refused this way.",
  ["inputs"], "every two-byte frame header in every message state (idle, inside a fragmented message, after control frames), and every invalid/valid UTF-8 pattern over a byte alphabet, however fragmented",
  "Only one invalid-UTF-8 message is tested; header validation has no tests, and there are 65536 headers times several reader states.",
  ["conn_read.go","frame.go","conn.go"],
  [("header validation","conn_read.go acceptFrame"),("continuation checks","conn_read.go NextReader, ConnReader.Read"),("UTF-8 validation","conn_read.go ReadMessage")],
  (), ["error returned by the read call","close frame on the wire"])
p("C03", "Message-size and fragment limits are enforced exactly",
  "A message is readable if and only if its total payload, summed over all its fragments, is at most the configured maximum message size (-1 meaning no maximum) and it has at most the configured number of fragments (0 meaning no limit). Exceeding the size closes the connection with status 1009, exceeding the fragment count closes it with 1008, both as fatal read errors; control frames between fragments never count, and one message's consumption never carries over to the next.",
  ["inputs","configurations"], "every fragmentation of messages around the limits, for every limit value in range, over multi-message histories with interleaved control frames",
  "No test sets either limit to a value it reaches.",
  ["conn_read.go","options.go"],
  [("per-frame and cumulative size check","conn_read.go acceptFrame, ConnReader.Read"),("fragment counter","conn_read.go ConnReader.fragments")],
  [("totalSize, fragments","running totals for the current message","conn_read.go ConnReader")],
  ["error returned by the read call","close frame on the wire"])
p("C04", "Non-fatal read outcomes leave the stream in sync",
  "After a read call that returns without a fatal error but without consuming the whole message (type mismatch, JSON decoding error, JSON value that ends before the message does, an abandoned or partly read message reader, a rate-limited message), the next read call returns precisely the next message the client sent. Leftover payload bytes are never interpreted as frames and never leak into a later message.",
  ["inputs","histories"], "all histories of read calls over message sequences whose messages are short, long, fragmented, of the wrong type or not JSON",
  "No test performs a second read after a failed or partial one.",
  ["conn_read.go","conn_utils.go"],
  [("skipping the rest of a message","conn_utils.go skipRestOfMessage"),("start of next message","conn_read.go NextReader")],
  (), ["sequence of values returned by successive reads"])
p("C05", "Every ping is answered by one identical pong, in order",
  "While the connection is open and the application is reading, each ping from the client, with any payload of 0 to 125 bytes, at any point between or inside messages and under any configured buffer size, is answered by exactly one pong frame carrying the identical payload, in the order the pings arrived. A pong from the client that answers nothing is ignored and, like a ping, never disturbs the messages around it.",
  ["inputs","configurations","histories"], "all interleavings of pings (all payload lengths), unsolicited pongs, server pings and message fragments, for all read buffer sizes",
  "No test sends a ping or a pong.",
  ["conn_read.go","conn_write.go","conn.go"],
  [("pong reply","conn_write.go pong, writeControl"),("pong handling","conn.go handlePong")],
  [("control write buffer","reused for every control frame","conn.go ControlWriter")],
  ["frames the client receives"])
p("C06", "Closing handshake answers with the right status exactly once",
  "A close frame from the client is answered by one close frame that echoes its status code and reason (1000 when it carries none), or carries 1002 when the payload is one byte long, the code is not permitted on the wire, or the reason is not valid UTF-8; then the transport is closed and reads report a fatal error. A close started by the server sends one close frame with the given code and reason (a code not permitted on the wire is replaced by 1001; a reason too long for a control frame is left out), every further close is a no-op.",
  ["inputs","histories"], "all close payload lengths 0..125, all 65536 codes, valid and invalid UTF-8 reasons, in every message state, for both directions and repeated closes",
  "Tests close twice with one code and one short reason, only from the server side.",
  ["conn.go","conn_write.go","frame.go"],
  [("close frame parsing","conn.go handleClose"),("close code table","frame.go isValidCloseCode"),("close frame writer","conn_write.go writeClose")],
  (), ["close frame on the wire","transport closed"])
p("C07", "Outgoing messages are framed correctly for any write pattern",
  "For every sequence of message-writer writes, flushes and close, every convenience send (bytes, string, JSON), every payload length and every configured write-buffer size, the client receives frames that form exactly one message with the requested type whose payload is the concatenation of the bytes written. Frames are unmasked, have minimal length encoding, carry the type on the first frame and continuation on the others, and only the last has the final bit; a closed writer accepts nothing more.",
  ["inputs","configurations"], "all write/flush/close sequences up to a depth x chunk sizes around the buffer boundary x write buffer sizes x pooling on/off, and all payload lengths around 125/126/65535/65536",
  "Tests only check return values of a few writes; the bytes on the wire are never parsed except for one close frame.",
  ["conn_write.go","frame.go","upgrader.go"],
  [("buffering and splitting","conn_write.go ConnWriter.Write, flush, Close"),("header writer","frame.go writeHeaders")],
  [("start/used","frame extent inside the write buffer","conn_write.go ConnWriter")],
  ["bytes the client receives"])
p("C08", "Concurrent senders never corrupt or interleave the frame stream",
  "Whatever mix of goroutines concurrently sends messages, streams a message in pieces, broadcasts, batches, pings and answers pings on one connection, the bytes the client receives are always a legal WebSocket frame sequence in which every message is contiguous apart from control frames. Each message whose send returned success appears exactly once with its exact content, and messages sent by one goroutine appear in the order it sent them.",
  ["schedules"], "all interleavings (up to a preemption bound) of 2-3 concurrent senders of every kind on one connection",
  "The suite has no test with two concurrent writers that succeeds; interleavings of frame writes cannot be enumerated by a unit test.",
  ["conn_write.go","broadcast.go","conn_batcher.go","conn_utils.go"],
  [("message lock","conn_write.go NextWriter / Close"),("frame lock","conn.go writeLock"),("broadcast frame write","broadcast.go frame.writeToConn")],
  (), ["bytes the client receives","results of send calls"])
p("C09", "Close is single, final and returns under concurrency",
  "When a connection is closed from any number of goroutines (application, reader on a client close or error, keepalive, backpressure) while others read, send, stream, ping or broadcast, exactly one close frame is sent, no byte follows it, the disconnect hook runs exactly once, and every pending and later operation returns, failing operations with an error. A message the application had not finished is never completed on its behalf, and no concurrent operation panics or deadlocks.",
  ["schedules"], "all interleavings (up to a preemption bound) of closers with readers, senders, streaming writers, pings and broadcasts",
  "Tests close idle connections from one goroutine.",
  ["conn.go","conn_write.go","conn_utils.go"],
  [("close once","conn.go CloseWithCode"),("done channel checked by locks","conn_utils.go mu"),("locks kept after the close frame","conn_write.go writeClose")],
  [("done","closed when the connection is closed","conn.go Conn")],
  ["bytes the client receives","hook invocations","returned operations"])
p("C10", "A network failure ends the connection cleanly",
  "If any transport read, write or deadline call fails, times out or writes only part of a frame, at any point of any operation, the operation concerned returns a fatal error, the connection becomes closed (transport closed, disconnect hook run once), and every other pending operation returns. After a failed or partial write no further message data is written to that transport, and other connections are unaffected.",
  ["fault_sequences","schedules"], "every transport call of a scenario failed in turn (error, partial write, stall until deadline), alone and combined with a second failure, under all schedules up to a bound",
  "The mock connection of the suite never fails.",
  ["conn_write.go","conn.go","broadcast.go","conn_read.go"],
  [("write error handling","conn_write.go flush, pong, Ping"),("broadcast write error","broadcast.go broadcastListener"),("write deadline","SetWriteDeadline(WriteWait)")],
  (), ["returned errors","transport state","hook invocations"])
p("C11", "A cancelled send never wedges or corrupts the connection",
  "When the context of a send, message writer or broadcast is cancelled or expires at any moment, the call returns promptly, and afterwards the connection either is closed or works as before: later sends with a live context succeed, and the client sees a legal frame sequence in which the cancelled message is wholly present or wholly absent unless the connection was closed. The same holds when a send fails before any byte is sent, for example because a value cannot be marshalled.",
  ["schedules","inputs","fault_sequences"], "every cancellation point of single- and multi-frame sends, streaming writers and broadcasts, followed by further sends",
  "One test lets NextWriter time out; what happens to the connection and to later sends is not tested.",
  ["conn_write.go","conn_utils.go","broadcast.go"],
  [("context-aware locks","conn_utils.go lockCtx"),("writer release","conn_write.go Close, SendMessage, SendJSON")],
  (), ["results of later sends","bytes the client receives"])
p("C12", "Keepalive keeps live clients and drops dead ones",
  "A client that answers pings is pinged every ping interval (one outstanding ping at a time, empty well-formed ping frames) and is never disconnected for being idle while the application reads, however the pong races with the sending of the ping. A client that sends nothing at all is disconnected, with the blocked read returning a fatal error, no later than the read timeout after its last message or pong.",
  ["schedules","histories"], "all interleavings of ping sending, pong arrival, manual pings and client pings, over several keepalive periods in virtual time",
  "Ping intervals are 30 s or more in the tests, so keepalive never runs.",
  ["conn.go","conn_write.go"],
  [("ping loop","conn.go pingLoop"),("outstanding flag","conn_write.go Ping, conn.go handlePong"),("read deadline extension","conn.go handlePong")],
  [("pingSent","a ping is outstanding","conn.go Conn")],
  ["frames the client receives","time at which the read fails"])
p("C13", "A closed connection leaves nothing running",
  "Once a connection has been closed, by whichever side, error or manager operation, and in whatever state it was, every background task the library started for it (keepalive, broadcast delivery, batch delivery) terminates without further input and without waiting for another keepalive period. A flusher that is closed or whose context is cancelled likewise terminates.",
  ["schedules","histories"], "all connection lifecycles: idle, mid-message, broadcasting, batching, in rooms and managers, closed from either side, at every point",
  "Tests never look at goroutines.",
  ["conn.go","broadcast.go","conn_batcher.go","flusher.go"],
  [("ping loop exit","conn.go pingLoop"),("broadcast listener exit","broadcast.go broadcastListener"),("flusher listener exit","flusher.go listener")],
  (), ["set of live library goroutines"])
p("C14", "Connections never see each other's bytes",
  "Whatever connections sharing one upgrader do concurrently, including being closed while their writers are still held and being sent to after they are closed, each client receives only bytes the application sent to that connection. Reuse of internal buffers is never observable.",
  ["schedules","histories"], "all interleavings of one connection closing (with active, idle or later-used writers) and another being created and written",
  "No test uses two connections sharing a pool and inspects their output.",
  ["conn.go","conn_write.go","upgrader.go"],
  [("write buffer pool","upgrader.go writePool, conn.go CloseWithCode, conn_write.go newWriter")],
  [("pooled buffer","write buffer owned by one connection at a time","conn_write.go ConnWriter.pb")],
  ["bytes each client receives"])
p("C15", "The connection manager's registry matches reality",
  "At every quiescent point the manager's lookup and listing return exactly the open connections most recently registered under each key: a new connection under a used key replaces and disconnects the old one, the old one's closing never removes the new one, and a closed connection (even one closed while it is being registered) is not listed. The register hook runs once per connection, and the unregister hook runs at most once per connection, always with the connection that closed, and exactly once for a connection that closes while it is the registered one.",
  ["schedules","histories"], "all histories and interleavings of connect, reconnect under the same key, close by either side, lookup and listing, over two keys",
  "The only manager test builds one managed connection and compares fields.",
  ["manager.go","conn.go"],
  [("registration / replacement","manager.go Register"),("unregistration on close","manager.go newManagedConn, unregister")],
  [("conns","open connections by key","manager.go Manager")],
  ["Get, GetAllConns, GetAllConnsAsConn, hooks"])
p("C16", "Room membership follows joins, leaves, moves and closes",
  "At every quiescent point each room lists exactly the open connections that were added to it (by connect, add or move) and not since removed (by remove, move, remove-all or room close), a connection that closes is removed from every room it is in, and the room table holds exactly the rooms created and not closed. Each actual join runs the join hook once and each actual departure the leave hook once, with the arguments supplied for it; adding a member or removing a non-member does nothing.",
  ["schedules","histories"], "all operation sequences up to a depth and all interleavings of concurrent operations with connection close, over two rooms and two connections",
  "Rooms have no tests.",
  ["rooms_manager.go","conn.go"],
  [("membership map","rooms_manager.go Add, Remove, RemoveAll, Move"),("removal on close","rooms_manager.go Add, conn.go CloseWithCode"),("room table","rooms_manager.go RoomManager")],
  [("conns","members of a room","rooms_manager.go Room")],
  ["GetAllConns, Get, GetRoomKeys, hooks"])
p("C17", "Shutdown closes everything and always returns",
  "Shutting down a connection manager or a room manager, with any number of connections and rooms, hooks that call back into the manager, and concurrent closes, sends or broadcasts, returns after every connection registered before it began has been closed with a close frame (1000 for the connection manager, 1001 for the room manager) and leaves the registry empty of them. Disconnect, unregister and leave hooks each run exactly once per connection.",
  ["schedules","configurations"], "all interleavings of shutdown with concurrent operations, for 0..7 connections spread over 0..3 rooms, with and without hooks",
  "Shutdown is never called by a test.",
  ["manager.go","rooms_manager.go"],
  [("manager shutdown workers","manager.go Shutdown"),("room manager shutdown workers","rooms_manager.go Shutdown")],
  (), ["return of Shutdown, wire of each connection, hooks"])
p("C18", "Broadcast reaches exactly the intended recipients, in order",
  "A broadcast queues the exact message, with the right type, once to every member not excluded and to nobody else, and its returned count is the number of connections that accepted it; each accepted message is delivered exactly once and in broadcast order while that connection stays open and the context is live. A full queue affects only its own connection and is handled as configured: the message is dropped, or that connection is closed with 1008, or the broadcaster waits, and waiting ends when there is room, the context ends or that connection closes.",
  ["schedules","configurations","inputs"], "all recipient/exclusion subsets of up to 3 members, the three backpressure policies, queue sizes, slow, stalled and closing clients, concurrent broadcasters, for rooms and managers",
  "Broadcasting has no tests.",
  ["broadcast.go","rooms_manager.go","manager.go","conn.go"],
  [("queueing and backpressure","broadcast.go broadcast"),("delivery loop","broadcast.go broadcastListener"),("recipient selection","GetAllConns / GetAllConnsAsConn")],
  [("broadcastQueue","pending broadcast messages of a connection","conn.go Conn")],
  ["frames each client receives, returned counts"])
p("C19", "Batches contain every batched message once, in order",
  "Every message accepted for batching on a connection that stays open reaches the client exactly once, in the order it was batched, inside binary messages encoded as configured: a JSON array of the messages, length-prefixed records, or the custom sender's call, with the optional prefix and suffix items first and last. A batch is sent when the flush interval elapses or before it would exceed the maximum batch size, so a batch of more than one message never exceeds that size.",
  ["schedules","inputs","configurations"], "all sequences and interleavings of batch, JSON batch and batch-broadcast calls with flush ticks, for all strategies, prefix/suffix combinations, message sizes around the maximum and write buffer sizes",
  "Batching has no tests.",
  ["conn_batcher.go","flusher.go","broadcast.go"],
  [("accumulation and size limit","conn_batcher.go Batch"),("flush and send","conn_batcher.go flush, send"),("encoders","conn_batcher.go jsonArrayEncoder, lengthPrefixEncoder")],
  [("messages","messages waiting for the next flush","conn_batcher.go messageBatch")],
  ["messages the client receives"])
p("C20", "Closing the flusher loses no accepted message",
  "Closing the flusher, at any moment relative to concurrent batch calls, flush ticks and new or closing connections, delivers every message whose batch call succeeded, after which batch and batch-broadcast calls fail with the flusher-closed error; closing again is harmless. Cancelling the flusher's context makes them fail with the context's error, and enabling batching anew closes the previous flusher in the same way.",
  ["schedules","histories"], "all interleavings of flusher close/cancel with batch calls, ticks, upgrades and connection closes",
  "The flusher has no tests.",
  ["flusher.go","conn_batcher.go"],
  [("final flush","flusher.go listener, flushAll, Close"),("closed check","conn_batcher.go Batch"),("registration of connections","conn_batcher.go newBatch")],
  [("closed","flusher no longer accepts messages","flusher.go batchFlusher")],
  ["results of batch calls, messages the client receives"])
p("C21", "Rate limiting counts whole messages per connection",
  "With a limiter of r messages per second and burst b, a connection's data message is delivered if and only if a token bucket with those parameters, private to that connection, has a token at the time it is read; fragments, control frames and other connections never consume tokens. A refused message is discarded whole, the limit hook runs once for it, the read reports a non-fatal error when the hook returns nil and the hook's error as fatal otherwise, and the following messages are intact.",
  ["inputs","histories","configurations"], "all sequences of messages (plain, fragmented, with interleaved control frames) and time steps on two connections, for several rates and bursts",
  "The limiter has no tests.",
  ["rate_limiter.go","conn_utils.go","conn_read.go","upgrader.go"],
  [("token check per message","conn_read.go NextReader, conn_utils.go allow"),("discard","conn_utils.go skipRestOfMessage"),("registration","upgrader.go Upgrade")],
  [("clients","token bucket per connection","rate_limiter.go RateLimiter")],
  ["values returned by reads, hook invocations"])
p("C22", "The opening handshake accepts exactly the valid requests",
  "An upgrade succeeds if and only if the request is a GET with an Upgrade list containing websocket, a Connection list containing upgrade (both case-insensitive, possibly spread over several header lines), version 13 and a base64 16-byte key, has an acceptable subprotocol when raw connections are rejected, and every middleware accepts it; otherwise the client gets exactly one HTTP error response of the documented status (the middleware's own if it gives one) and no connection or hook comes into being. On success the client gets one 101 response with the accept value for its key and the first of its requested subprotocols that the server supports, if any, and the connect hook runs once, after the response is written.",
  ["inputs","configurations"], "all combinations of header variants, methods, subprotocol offers and configurations, middleware outcomes and transport failures",
  "The handshake has no tests.",
  ["upgrader.go","options.go"],
  [("header validation","upgrader.go validate*"),("subprotocol selection","upgrader.go selectSubProtocol"),("middlewares and hijack","upgrader.go Upgrade")],
  (), ["HTTP response, returned connection and error, hooks"])
p("C23", "No byte is lost between the handshake and the first frame",
  "Data the client sends before it has seen the handshake response, of any amount and split between the HTTP server's buffer and the network in any way, is read by the application as the first frames, complete and in order, for every configured read-buffer size. The handshake response is the first thing on the wire, and the buffers taken over from the HTTP server never corrupt later messages.",
  ["inputs","configurations"], "all splits of a pipelined frame stream between HTTP buffer and network x read buffer sizes x HTTP buffer sizes x write buffer sizes",
  "All tests start from an empty reader of the default size.",
  ["conn.go","upgrader.go"],
  [("choice of read buffer","conn.go newConn"),("draining the HTTP buffer","upgrader.go brNetConn"),("reuse of the HTTP write buffer","conn_write.go newWriter")],
  (), ["messages read, bytes written"])
p("C24", "Concurrent use of the public API is free of data races",
  "Operations documented as safe for concurrent use (sends, message writers obtained through the connection, ping, close, metadata, batching, broadcasting, manager and room operations), together with one reading goroutine and the library's own background tasks, perform no unsynchronised conflicting memory accesses under any schedule.",
  ["schedules"], "all interleavings (up to a preemption bound) of pairs and triples of public operations on shared connections, rooms and managers",
  "The suite is not run with the race detector, and the detector only judges the schedules that happen to occur.",
  ["conn.go","conn_write.go","broadcast.go","conn_batcher.go","flusher.go","manager.go","rooms_manager.go","rate_limiter.go"],
  [("locks, channels, atomics","all files")],
  (), ["happens-before race detector over every explored schedule"])
p("C25", "Fatal errors mean closed, other errors mean usable",
  "Whenever an operation on a connection returns an error of the fatal kind, that connection has been closed; whenever a read, send, writer, ping or batch operation on an open connection returns any other error (wrong opcode, closed writer, marshalling error, type mismatch, ping already outstanding, context error, batching not enabled), the connection is still open and both directions still work. Operations on a closed connection return errors and have no effect; for reads, sends and writers the error is fatal, so that a loop that goes on after other errors ends.",
  ["histories","inputs","fault_sequences"], "all operation sequences up to a depth over the whole connection API, with client-side events and transport faults between them",
  "Tests check a handful of error returns and never use the connection afterwards.",
  ["errors.go","conn_read.go","conn_write.go","conn.go","conn_batcher.go"],
  [("fatal wrapping","errors.go fatal, all callers"),("close before returning fatal","conn_read.go, conn_write.go")],
  (), ["returned errors, later use of the connection"])
p("C26", "A stalled client delays only itself, and only for the write wait",
  "When a client stops reading, before or in the middle of any frame, every operation then pending or called on its connection (send, stream, ping, answer to a ping, close) returns within the write wait of its call, and the connection is closed no later than that after the first blocked write; a client that resumes earlier loses nothing. When a client stops sending, even in the middle of a frame, sends, pings and closes on its connection do not wait for it at all. Meanwhile operations on other connections, broadcasts that are not configured to wait, batch calls, room operations, lookups, upgrades and replacing or registering connections do not wait and their messages arrive without delay, and a manager shutdown takes no longer than the write wait of the one stalled client.",
  ["schedules","fault_sequences"], "all interleavings (up to a bound) of operations on the stalled connection with operations on everything else, for every kind of operation on either side, every place in a frame where the client stops and every moment at which the others come",
  "The suite's transport never blocks, and what waits for what only shows under the schedules in which a lock is held across the stall.",
  ["conn_write.go","conn.go","broadcast.go","conn_batcher.go","flusher.go","manager.go","rooms_manager.go","conn_utils.go"],
  [("write deadline of every frame","conn_write.go sendFrame"),("locks given up when the connection is done","conn_utils.go mu"),("reading a control payload before taking locks","conn_write.go writeControl"),("closing outside the registries' locks","manager.go Shutdown, rooms_manager.go Shutdown, broadcast.go")],
  (), ["virtual time between call and return, transport close, bytes received by the other clients"])
p("C27", "A closed connection is forgotten",
  "Once a connection is closed and the application has dropped its own references, nothing that outlives it (the upgrader, its rate limiter and current or previous flusher, managers, rooms, other connections) keeps the connection alive, however it was used and ended, and however its end interleaves with being upgraded, registered, joined, moved, broadcast to, batched, read or with a shutdown or new flusher.",
  ["histories","schedules"], "all interleavings (up to a bound) of the end of a connection with every operation that makes the library remember it, and all combinations of use and end",
  "A leaked entry changes no result; tests neither look at what is reachable nor run the racing schedules in which an entry is added after it was removed.",
  ["conn.go","rate_limiter.go","flusher.go","manager.go","rooms_manager.go","upgrader.go"],
  [("clean-up on close","conn.go CloseWithCode"),("tables of connections","rate_limiter.go clients, flusher.go conns, manager.go conns, rooms_manager.go conns")],
  (), ["weak pointers to the connection after garbage collection"])
p("C28", "Hooks can call back into the library",
  "Every hook the application installs (middleware, OnConnect, OnDisconnect, OnRegister, OnUnregister, OnJoin, OnLeave, OnRateLimitHit, batch prefix, suffix and send functions) may itself call any operation of the library except reading the connection being read: on the same connection, other connections, the rate limiter's connections, managers, rooms and the flusher, under any schedule. The call and the operation that ran the hook both return and have their usual effect; messages accepted in a hook arrive. A hook sees the change it reports: a registered connection can be looked up and an unregistered one cannot, a joined member is listed and one that left is not, a disconnected connection refuses sends. Connect and disconnect hooks run once per connection, and every join is balanced by a leave.",
  ["histories","schedules"], "every hook x every way to reach it x every operation called from it, alone and concurrently with another operation, all schedules up to a bound",
  "Tests install no hooks that call anything; a lock held across a hook deadlocks only for the particular pair of hook and operation.",
  ["conn.go","manager.go","rooms_manager.go","upgrader.go","conn_utils.go","conn_batcher.go","flusher.go"],
  [("hooks outside the locks","conn.go CloseWithCode, manager.go Register unregister Shutdown, rooms_manager.go Add Remove RemoveAll Shutdown"),("prefix and suffix before the writer","conn_batcher.go sendWrapper"),("rate limit hook","conn_utils.go allow")],
  (), ["termination of every call, hook counts, registries, bytes received"])
p("C29", "Buffers and results belong to the caller",
  "The library never changes bytes the application passes in, nor the bytes next to them in a slice's spare capacity. Once a send, a stream write or a broadcast has returned, the caller may overwrite its slice without changing what any peer receives; a batched message is kept until it is delivered but only read. Bytes returned by a read never change afterwards, whatever is read or sent next, and the caller may overwrite them up to their capacity without affecting any later message or reply. Lists of connections and room keys are the caller's own copies. Requests' headers, the subprotocol list and lists of exclusions are left as they were.",
  ["inputs","schedules"], "every call that takes or returns bytes x sizes around every buffer size x configurations, all schedules of the queued deliveries up to a bound",
  "Tests pass constants and look at a result once; aliasing shows only when the owner reuses a slice while a buffer or queue still refers to it.",
  ["conn_write.go","conn_read.go","broadcast.go","conn_batcher.go","flusher.go","manager.go","rooms_manager.go","upgrader.go"],
  [("copy into the frame","broadcast.go broadcast"),("copy into the write buffer","conn_write.go Write"),("copy out of the read buffer","conn_read.go ReadMessage Read"),("encoders","conn_batcher.go"),("snapshots","manager.go GetAllConns, rooms_manager.go GetAllConns GetRoomKeys")],
  (), ["guard bytes around every slice, returned slices, bytes received"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
