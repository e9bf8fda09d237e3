#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

p("C01", "Inbound messages are delivered exactly as sent",
  "For every protocol-conforming client byte stream, however its messages are fragmented, masked, length-encoded, interleaved with ping/pong frames and split into network reads, and whatever the configured read buffer size and the sizes of the application's reads, the application receives exactly the messages the client sent: same types, same bytes, same order. A streaming reader ends with io.EOF exactly at the end of its message and never earlier or later.",
  ["inputs", "configurations"], "all conforming frame streams x network chunkings x read-buffer sizes x read APIs (ReadMessage, ReadString, ReadBinary, NextReader with any buffer lengths)",
  "One existing test reads one 1-byte frame; fragmentation, chunk boundaries, mask phase across reads, 16/64-bit lengths and interleaved control frames are never exercised.",
  ["conn_read.go", "conn.go", "mask.go", "conn_utils.go"], [("frame acceptance loop", "conn_read.go acceptFrame"), ("message reader", "conn_read.go ConnReader.Read"), ("payload unmasking with running mask position", "mask.go")],
  ["Conn.ReadMessage", "Conn.ReadString", "Conn.ReadBinary", "Conn.NextReader"])
p("C02", "Malformed input is rejected with the right close code, never delivered",
  "For every client byte stream, messages completed before the first protocol violation are delivered and nothing from the violation onwards is ever delivered as a message; the reading call returns a fatal error, the connection is closed, and the peer is sent the close code of that violation (1002 for framing, opcode, masking, RSV, control-frame, continuation and close-payload errors, 1009 for an impossible or excessive length). No byte stream makes the library panic, hang or spin, and a stream cut off in the middle of a frame or message yields a fatal error, never a shortened message.",
  ["inputs"], "all byte streams: conforming prefixes followed by every class of violation, truncations, bit flips and random bytes, in any network chunking",
  "No existing test feeds a malformed frame other than one invalid UTF-8 text frame; the input space is unbounded.",
  ["conn_read.go", "conn.go", "frame.go"], [("header validation", "conn_read.go acceptFrame"), ("continuation checks", "conn_read.go NextReader / ConnReader.Read"), ("close frame validation", "conn.go handleClose")],
  ["errors of Conn.ReadMessage/NextReader", "close frame seen by the peer", "net.Conn.Close"])
p("C03", "Message size and fragment limits are enforced exactly",
  "A message is delivered if and only if its total payload does not exceed MaxMessageSize (no limit when it is -1) and, when ReaderMaxFragments is set, it is made of at most that many data frames; otherwise the connection is closed with 1009 (size) or 1008 (fragments), the read fails fatally and the application is never handed more payload than the limit. The limits concern messages only: valid control frames are handled whatever the limits are and do not count as fragments.",
  ["inputs", "configurations"], "all limit settings x message sizes and fragment counts around, below and above them x interleaved control frames",
  "No existing test sets either limit or sends a fragmented message.",
  ["conn_read.go", "options.go"], [("frame length check", "conn_read.go acceptFrame"), ("running total and fragment count", "conn_read.go ConnReader.Read")],
  ["Conn.ReadMessage", "Conn.NextReader", "close code seen by the peer"])
p("C04", "Text messages are UTF-8 validated when validation is on",
  "With validation enabled, ReadMessage and ReadString deliver a text message if and only if its whole payload is valid UTF-8, regardless of where fragment or network boundaries fall inside characters; an invalid one fails fatally and closes the connection with 1007. With SkipUTF8Validation, and for binary messages always, payloads are delivered byte for byte unvalidated.",
  ["inputs", "configurations"], "all text payloads (valid, overlong, surrogate, out-of-range, truncated sequences) x fragmentations x validation settings",
  "Two tests use one single-byte payload each.",
  ["conn_read.go"], [("validation of the assembled message", "conn_read.go ReadMessage")], ["Conn.ReadMessage", "Conn.ReadString", "close code seen by the peer"])
p("C05", "Outbound messages are framed exactly as written",
  "For every sequence of send calls and streaming writes, of any sizes and with any write-buffer configuration, an RFC 6455 client decodes exactly the messages written: same types, same bytes, same order. Every frame is unmasked with reserved bits clear and a minimal-length header, each message is one data frame followed only by continuations with FIN on the last, and everything written before a successful Flush is on the wire when Flush returns.",
  ["inputs", "configurations", "histories"], "all sequences of SendMessage/SendString/SendBytes/NextWriter+Write+Flush+Close x sizes around buffer and header-format boundaries x WriteBufferSize and pooling settings",
  "Existing tests check that sends return nil; none decodes the bytes sent.",
  ["conn_write.go", "frame.go", "upgrader.go"], [("write buffer and flush", "conn_write.go ConnWriter"), ("header encoding", "frame.go writeHeaders")],
  ["bytes written to the net.Conn", "results of Write/Flush/Close"])
p("C06", "Concurrent writers never corrupt or interleave messages",
  "Whatever combination of direct sends, streaming writers, room or manager broadcasts, batches, pings and automatic pongs runs concurrently on a connection, and however the transport delays each write, the bytes on the wire are a valid frame stream in which no data frame falls inside another message's fragments. Every message whose send succeeded arrives exactly once and intact, and messages issued one after another through the same path arrive in that order.",
  ["schedules", "inputs"], "all interleavings of concurrent producers of all kinds x message sizes causing fragmentation x per-write transport delays",
  "The only concurrency test checks that a second NextWriter times out; no test runs two senders or a broadcast during a fragmented message.",
  ["conn_write.go", "broadcast.go", "conn_batcher.go", "conn_utils.go"], [("writer lock for whole messages", "conn_write.go NextWriter/Close"), ("frame write lock", "conn_utils.go mu"), ("broadcast frame write", "broadcast.go frame.writeToConn")],
  ["bytes written to the net.Conn"])
p("C07", "Control frames are answered correctly at any point",
  "Every valid ping, including ones between the fragments of a message, is answered by exactly one pong carrying the same payload, in order, without disturbing the surrounding message; pongs that answer nothing are ignored. Every control frame the server emits is a well-formed unfragmented frame whatever was sent before, and a pong answering a ping always re-arms it, however quickly it arrives, so that the next Ping succeeds.",
  ["inputs", "histories", "schedules"], "all sequences of client pings, pongs, data frames and server pings, payload lengths 0..125, pong latencies including immediate",
  "No existing test sends or receives a control frame other than the final close.",
  ["conn_read.go", "conn_write.go", "conn.go"], [("automatic pong", "conn_write.go pong/writeControl"), ("pong handling", "conn.go handlePong"), ("ping", "conn_write.go Ping")],
  ["frames written to the net.Conn", "result of Conn.Ping"])
p("C08", "Keepalive keeps responsive peers and drops silent ones",
  "While the application is reading, an otherwise idle peer is pinged every PingEvery and, as long as it answers, is never disconnected however long it stays idle. A peer that stops sending anything is disconnected, and the blocked read returns a fatal error, no later than ReadWait after its last answer or message. Pings of its own and pongs nobody asked for are neither.",
  ["histories", "configurations", "schedules"], "all timelines of messages, pong latencies and silences x PingEvery/ReadWait settings (ReadWait larger than PingEvery)",
  "No existing test lets any timer fire; the behaviour needs minutes of real time or a controlled clock.",
  ["conn.go", "conn_read.go", "conn_write.go"], [("ping loop", "conn.go pingLoop"), ("read deadline", "conn_read.go NextReader, conn.go handlePong")],
  ["virtual time of pings, of connection close and of the read error"])
p("C09", "Close handshake sends one correct, final close frame",
  "Closing a connection puts exactly one close frame on the wire, as the last thing written, then closes the transport; CloseWithCode sends the given code and reason when they are legal to send, and never an illegal code or an over-long reason. A client's close frame is answered with its own status code when that is legal (1000 when it has none) and with 1002 when its payload is malformed, whatever fragmented message was in progress.",
  ["inputs", "histories"], "all close codes and reasons from both sides x connection states (idle, mid-inbound-message, mid-outbound-message)",
  "One test closes an idle connection with one code.",
  ["conn.go", "conn_write.go", "frame.go"], [("close once", "conn.go CloseWithCode"), ("close frame writing", "conn_write.go writeClose"), ("client close handling", "conn.go handleClose")],
  ["frames written to the net.Conn", "net.Conn.Close"])
p("C10", "Connections close exactly once and stay closed",
  "However many goroutines, peer events and failures try to close a connection at once, OnDisconnect and each registered leave/unregister callback run exactly once and every call blocked on that connection returns. From then on every read, send, ping and writer call fails with a fatal error, nothing more is written, and a message that was still being written is never presented to the peer as complete.",
  ["schedules", "histories"], "all interleavings of closers (Close, CloseWithCode, client close, transport failure) with blocked or running readers, writers, pings and broadcasts",
  "Tests close connections one at a time from one goroutine with nothing in flight.",
  ["conn.go", "conn_write.go", "conn_utils.go", "conn_read.go"], [("closeOnce and done channel", "conn.go CloseWithCode"), ("lock acquisition aborts on close", "conn_utils.go mu"), ("abort of an unfinished message", "conn_write.go ConnWriter")],
  ["hook invocations", "errors of blocked and later calls", "bytes written"])
p("C11", "Closed connections and rejected upgrades leave nothing behind",
  "After a connection has closed for any reason, every goroutine the library started for it exits, its transport is closed, it is no longer a member of any room, manager, rate limiter or batcher, and the library keeps no reference to it. A failed upgrade likewise starts nothing, calls no connect hook and leaves no open transport that the caller cannot close.",
  ["histories", "fault_sequences"], "all connection histories ending in close or in a failed upgrade, with and without limiter, batching, rooms, managers and broadcasting",
  "Tests never check what survives a Close, and each leaks goroutines unnoticed.",
  ["conn.go", "upgrader.go", "rate_limiter.go", "flusher.go", "rooms_manager.go", "manager.go", "broadcast.go"], [("cleanup on close", "conn.go CloseWithCode"), ("ping loop exit", "conn.go pingLoop"), ("upgrade failure path", "upgrader.go Upgrade")],
  ["goroutine dump at quiescence", "reachability of the connection", "membership queries"])
p("C12", "Transport failures and stalls are contained",
  "When the transport fails or stalls at any point of any operation, every pending call on the connection returns within a small multiple of WriteWait/ReadWait, the operation that met the failure reports a fatal error, and the connection is closed; no call deadlocks, and no write to the transport lasts longer than WriteWait. A write that failed part-way never leads to the peer receiving a complete message that was not sent.",
  ["fault_sequences", "schedules"], "every transport call index x fault kind (error, partial write, stall until deadline, deadline-setting error, peer reset) x operation scenario",
  "The mock transport of the tests never fails and ignores deadlines.",
  ["conn_write.go", "conn.go", "broadcast.go", "conn_read.go"], [("flush error path", "conn_write.go flush"), ("broadcast write error path", "broadcast.go"), ("write deadlines", "conn_write.go")],
  ["completion of every call in virtual time", "error classes", "bytes written"])
p("C13", "Non-fatal errors leave the connection fully usable",
  "A call that returns an error which is not fatal (message type mismatch, undecodable JSON, unmarshalable value, invalid opcode, rate limit, expired or cancelled context) leaves the connection open and in sync: later reads return exactly the following messages and later sends succeed, including after a message was only partly read. A fatal error always means the connection is closed.",
  ["histories", "inputs"], "all sequences of operations in which some fail non-fatally, at any message size, fragmentation and point of expiry, followed by further traffic in both directions",
  "Tests stop at the first error and never use the connection again afterwards.",
  ["conn_read.go", "conn_write.go", "conn_utils.go", "errors.go"], [("skipping of unread payload", "conn_read.go NextReader, conn_utils.go skipRestOfMessage"), ("writer release on error", "conn_write.go SendMessage/SendJSON"), ("fatal error type", "errors.go")],
  ["results of later reads and sends", "bytes written"])
p("C14", "Handshake accepts exactly valid requests and negotiates correctly",
  "A request is upgraded if and only if it is a GET whose Upgrade header lists websocket, whose Connection header lists upgrade, whose version is 13 and whose key is base64 of 16 bytes (tokens case-insensitive, lists and repeated header lines equivalent), and, with RejectRaw, shares a subprotocol. The response carries the RFC 6455 accept value for the key and the client's most preferred subprotocol that the server supports, or none; a refused request gets an HTTP error status and an error, and its connection is not taken over.",
  ["inputs", "configurations"], "all HTTP upgrade requests (methods, header spellings, lists, repeated lines, keys, versions, subprotocol offers) x server subprotocol lists x RejectRaw",
  "No existing test performs a handshake.",
  ["upgrader.go"], [("header validation", "upgrader.go validate*"), ("subprotocol selection", "upgrader.go selectSubProtocol"), ("response", "upgrader.go Upgrade")],
  ["HTTP response bytes", "Upgrade result", "Conn.SubProtocol"])
p("C15", "Upgrade runs hooks in order and loses or misorders no bytes",
  "Middlewares run in registration order after a request has been validated, each at most once, and the first error stops the upgrade with that middleware's status (400 for a plain error) and no connect hook; on success OnConnect runs exactly once. Bytes the client sent together with or right after its request are read as its first frames whatever the buffer sizes, and the complete 101 response precedes any frame the server writes.",
  ["inputs", "configurations", "histories"], "all middleware chains and outcomes x pipelined client data of any length and chunking x buffer sizes x hooks that send or close",
  "No existing test performs a handshake.",
  ["upgrader.go", "conn.go", "options.go"], [("middleware chain", "upgrader.go Upgrade"), ("buffered data hand-over", "conn.go newConn, upgrader.go brNetConn")],
  ["HTTP response bytes", "hook calls", "first messages read"])
p("C16", "Rate limiting follows an independent token bucket per connection",
  "With a limiter of rate r and burst b, each connection independently behaves as a token bucket that starts full: a data message is delivered if and only if a token is available when it arrives, and consumes one; control frames and extra fragments consume none. A message over the limit is dropped whole with a non-fatal error, invokes OnRateLimitHit once, and leaves the connection in sync.",
  ["histories", "inputs", "configurations"], "all arrival timelines of messages, fragments and control frames on several connections x rates and bursts",
  "No existing test uses the limiter; exact behaviour depends on time.",
  ["rate_limiter.go", "conn_utils.go", "conn_read.go"], [("token bucket per connection", "rate_limiter.go"), ("admission before delivery", "conn_read.go NextReader, conn_utils.go allow")],
  ["results of reads over virtual time", "hook calls"])
p("C17", "The connection manager maps each key to its live connection",
  "At any quiescent point the manager holds exactly, for every key, the most recently registered connection that is still open: connecting under a used key closes the previous connection and replaces it, and the later cleanup of the replaced connection never removes or reports its successor. Lookups and listings with exclusions agree with that map; OnRegister runs once per registration and OnUnregister once, with that connection, when a registered connection closes.",
  ["histories", "schedules"], "all histories of connects, reconnects under the same key, server- and client-initiated closes and lookups, sequential and concurrent",
  "One test builds a ManagedConn struct; registration is never exercised.",
  ["manager.go", "conn.go"], [("registration and replacement", "manager.go Register"), ("removal on close", "manager.go unregister, conn.go CloseWithCode")],
  ["Manager.Get", "Manager.GetAllConns", "OnRegister/OnUnregister calls"])
p("C18", "Room membership follows joins, leaves, moves and closes exactly",
  "Room membership is exactly what the history of Connect, Add, Remove, Move, RemoveAll, room Close and connection closes implies: operations on absent or already present connections change nothing, and a connection that closes leaves every room it is in, even when it closed before or while being added. OnJoin and OnLeave (when set) run exactly once per actual join and leave, with the given arguments on Connect/Add, Remove and closing; room lookup and creation by key are consistent.",
  ["histories", "schedules"], "all histories of room operations over several rooms and connections, with and without hooks, sequential and concurrent",
  "No existing test touches rooms.",
  ["rooms_manager.go", "conn.go"], [("membership maps", "rooms_manager.go Room"), ("automatic removal on close", "rooms_manager.go Add, conn.go CloseWithCode")],
  ["Room.GetAllConns", "RoomManager.Get/GetRoomKeys", "hook calls"])
p("C19", "Broadcasts reach exactly the intended connections, once, intact",
  "A broadcast to a room or manager delivers the message, with its type and exact payload of any size, exactly once to every member connection that is not excluded and whose queue accepts it, and to nobody else; successive broadcasts reach each connection in order. The returned count is the number of connections that accepted it, and connections that are members throughout are unaffected by others joining, leaving or closing concurrently.",
  ["histories", "inputs", "schedules"], "all memberships, exclusion lists, payloads, broadcast kinds (string, bytes, JSON, nil or live context) and concurrent membership changes",
  "No existing test broadcasts.",
  ["broadcast.go", "rooms_manager.go", "manager.go", "conn.go"], [("queueing", "broadcast.go broadcast"), ("per-connection listener", "broadcast.go broadcastListener, conn.go enableBroadcasting")],
  ["messages decoded by every peer", "returned counts"])
p("C20", "Slow consumers are handled by the configured backpressure strategy",
  "When a connection's broadcast queue is full, Drop discards the message for that connection only and keeps it open, Close closes that connection with 1008, and Wait blocks until there is room, the context ends or the connection closes; messages already accepted are still delivered in order if the peer resumes. No strategy affects delivery to other connections, and no broadcast blocks forever because of a connection that has closed.",
  ["histories", "schedules", "configurations"], "all patterns of stalled, resuming, closing and failing peers x strategies x queue lengths x contexts, for plain and batch broadcasts",
  "No existing test broadcasts, let alone to a slow peer.",
  ["broadcast.go", "options.go"], [("queue-full handling", "broadcast.go broadcast/batchBroadcast")],
  ["messages decoded by every peer", "returned counts", "completion of broadcast calls"])
p("C21", "Batched messages are delivered exactly once, in order, in the chosen format",
  "Every message accepted by Batch, BatchJSON or a batch broadcast on a connection that stays open is delivered exactly once, in the order accepted, as an element of a binary batch message: a JSON array, 4-byte big-endian length-prefixed records, or the slice given to the custom sender. When prefix or suffix functions return data it is added once per batch as the first or last element, and no batch is empty.",
  ["histories", "inputs", "schedules"], "all sequences and interleavings of batched messages and flushes x strategies x prefix/suffix functions x sizes x transport delays",
  "No existing test uses batching.",
  ["conn_batcher.go", "flusher.go", "broadcast.go"], [("batch accumulation and flush", "conn_batcher.go"), ("encoders", "conn_batcher.go jsonArrayEncoder/lengthPrefixEncoder"), ("periodic flush", "flusher.go")],
  ["messages decoded by the peer", "custom sender arguments"])
p("C22", "Batches respect size limit, interval and shutdown",
  "The messages in one batch total at most MaxBatchSize bytes unless a single message alone exceeds it, and an accepted message is sent no later than one flush interval after it was accepted; batches whose next message would still have fitted are at least one interval apart. Closing the batcher flushes everything accepted before it and makes later batching fail with an error instead of losing data silently; after its context is cancelled batching fails with the context's error, and without batching enabled it fails as uninitialised; a batch broadcast waiting for room ends with the batcher.",
  ["histories", "configurations", "schedules"], "all timelines of batching, closing and cancelling, sequential and concurrent x size limits x intervals",
  "No existing test uses batching; the behaviour depends on time.",
  ["conn_batcher.go", "flusher.go"], [("size-triggered flush", "conn_batcher.go Batch"), ("ticker and close flush", "flusher.go listener")],
  ["batches decoded by the peer over virtual time", "errors of Batch/BatchJSON/BatchBroadcast"])
p("C23", "Shutdown closes every connection and terminates",
  "Manager.Shutdown and RoomManager.Shutdown always return, with any number of connections, while connections are closing, broadcasting, joining or leaving, and with hooks that call back into the manager or rooms. When they return, every connection that was registered is closed (normally for Manager, with 1001 for RoomManager) and the manager is empty.",
  ["histories", "schedules"], "all populations and concurrent activities at shutdown x hooks that query, broadcast or modify",
  "No existing test calls Shutdown.",
  ["manager.go", "rooms_manager.go"], [("parallel close", "manager.go Shutdown, rooms_manager.go Shutdown")],
  ["return of Shutdown in virtual time", "close codes seen by peers", "membership queries"])
p("C24", "No bytes leak between connections or messages through reused buffers",
  "Bytes handed to one connection never appear on, or alter what is sent by, another connection, and data returned by a read is never changed by later activity, however connections are opened, written to, aborted, closed and used after close while others reuse pooled buffers.",
  ["histories", "schedules", "configurations"], "all histories of opens, partial writes, closes and late sends over several connections sharing an upgrader x pooling settings",
  "Tests use one connection at a time.",
  ["conn.go", "conn_write.go", "upgrader.go", "conn_read.go"], [("write buffer pool", "conn.go CloseWithCode, conn_write.go newWriter"), ("read buffers", "conn_utils.go nRead")],
  ["bytes written to each net.Conn", "slices returned by reads"])
p("C25", "The concurrent API is free of data races",
  "Any concurrent use of the API that its documentation allows (one reader per connection; any number of senders, pingers, closers, batchers and broadcasters; concurrent manager and room operations) performs no unsynchronised conflicting memory access and no fatal runtime fault inside the library.",
  ["schedules", "programs"], "all concurrent programs over the documented-safe operations of connections, managers, rooms, limiter and batcher",
  "The existing suite runs without the race detector (and fails with it on the original tree).",
  ["conn.go", "conn_write.go", "broadcast.go", "manager.go", "rooms_manager.go", "conn_batcher.go", "flusher.go", "rate_limiter.go"], [("locks", "conn_utils.go mu; mutexes in manager.go, rooms_manager.go, flusher.go, rate_limiter.go")],
  ["Go race detector reports whose stacks are in the library"])
p("C26", "JSON helpers round-trip values",
  "For every JSON-encodable value, SendJSON, BroadcastJSON, BatchJSON and BatchBroadcastJSON deliver JSON that decodes to the same value as the standard encoding, in a text message (batch element for the batch forms), and for every text message holding one JSON value ReadJSON stores what the standard decoder would, whatever the fragmentation. Values that cannot be encoded and messages that are not valid JSON yield an error, send nothing, and leave the connection usable.",
  ["inputs"], "all JSON values (nested, unicode, large) and invalid documents x fragmentations x buffer sizes",
  "One test calls SendJSON and checks only that it returns nil.",
  ["conn_read.go", "conn_write.go", "conn_batcher.go", "rooms_manager.go", "manager.go"], [("encoding into the writer", "conn_write.go SendJSON"), ("decoding from the reader", "conn_read.go ReadJSON")],
  ["messages decoded by the peer", "values decoded by the application"])
p("C27", "Configured limits and documented defaults take effect",
  "Every option of an upgrader takes effect with exactly the configured value, and an option left unset with its documented default: MaxMessageSize (1 MB, -1 unlimited), ReaderMaxFragments (unlimited), WriteWait (5 s: a write to a stalled peer is given up then, whatever else is waiting to be written), ReadWait (60 s), PingEvery (50 s), BroadcastChannelsSize (8), BroadcastBackpressure (drop), MaxBatchSize (1 MB), the batching interval (50 ms), SkipUTF8Validation (validation on). This holds for every combination of options, whether the upgrader was made by NewUpgrader, with nil Options or by a manager given a nil upgrader, and independently of other upgraders and connections in the process.",
  ["inputs", "configurations"], "all combinations of set and unset options x all values x ways of making an upgrader x several upgraders at once",
  "The tests use one or two option combinations and never measure a limit or a duration.",
  ["options.go", "upgrader.go", "conn.go", "conn_read.go", "conn_write.go", "flusher.go", "broadcast.go"], [("defaults", "options.go WithDefault"), ("upgrader creation", "upgrader.go NewUpgrader"), ("write deadlines", "conn_write.go writeControl, flush"), ("managers without an upgrader", "manager.go NewManager, rooms_manager.go NewRoomManager")],
  ["limits, durations and queue lengths measured by the peer in virtual time"])
p("C28", "Resource use is bounded by what arrives and does not pile up",
  "What the server spends on a connection follows what actually arrives, not what a peer announces, and leaves nothing behind while the connection lives on. A frame header announcing any length reserves no memory for payload that has not arrived; any number of control frames, empty or tiny fragments and empty messages in a row needs constant stack, goroutines and held memory, also when the peer does not take the answers; while the application does not read, no more than a read buffer is taken from the transport. After any number of messages, sends (also ones whose context ended or that failed to encode), pings, broadcasts, batches, room joins, moves and closes, short-lived connections and refused requests, however large, the memory and goroutines held for the remaining connections are the same as before.",
  ["inputs", "histories", "configurations"], "all announced lengths, floods of small frames and histories of traffic x buffer sizes x ways of reading x peers that stop taking",
  "Tests run a few operations and measure nothing.",
  ["conn_read.go", "conn_write.go", "conn_utils.go", "conn.go", "conn_batcher.go", "flusher.go", "rooms_manager.go", "manager.go", "rate_limiter.go"], [("reading", "conn_read.go acceptFrame, Read, ReadMessage; conn_utils.go skipRestOfMessage"), ("answers to pings", "conn_write.go pong, writeControl"), ("registrations", "rooms_manager.go, manager.go, rate_limiter.go, flusher.go")],
  ["bytes allocated, heap after garbage collection, stacks and goroutines of the process", "bytes taken from the transport"])

p("C29", "Errors name their cause",
  "Every failing call returns an error that identifies why it failed, whatever path led there, also inside a FatalError: a context that ended gives that context's own Err() (Canceled, DeadlineExceeded or that of a context of another type), never another cause; a connection that is closed ErrConnClosed; a closed writer ErrWriterClosed and a nil one ErrWriterUnintialized; a closed or missing batcher ErrFlusherClosed or ErrBatchingUninitialized, and one whose context ended that context's error; an unanswered ping ErrPingAlreadySent; an invalid opcode ErrInvalidOPCODE; a message of the other type ErrMessageTypeMismatch; a value that cannot be encoded or decoded the encoder's or decoder's error; a violated protocol rule or limit its documented error; each refused handshake condition its own; a failing middleware, hijack, rate limit hook or transport the very error that it returned, and a peer that falls silent a timeout. An error after which the connection still works is not fatal, and one by which the call closed the connection is. A failing call returns no data, reader, writer or connection.",
  ["inputs", "histories", "schedules"], "all ways in which a call can fail x all calls x contexts of any type x transports that fail at any byte",
  "Tests check that a few calls fail, and the cause of fewer.",
  ["errors.go", "conn_read.go", "conn_write.go", "conn_utils.go", "conn_batcher.go", "broadcast.go", "upgrader.go", "flusher.go"], [("errors", "errors.go"), ("reading", "conn_read.go acceptFrame, Read, ReadMessage, ReadJSON"), ("writing", "conn_write.go Write, flush, Close, abort, SendJSON, Ping; conn_utils.go lockCtx"), ("batching and broadcasting", "conn_batcher.go Batch; broadcast.go broadcast, batchBroadcast"), ("handshake", "upgrader.go Upgrade")],
  ["the returned errors, their chain and their class", "the values returned beside them"])

p("C30", "A connection's trouble stays its own",
  "Whatever happens to some connections of an upgrader, manager, room or flusher - peers that take nothing, take it slowly, vanish, flood, break the protocol or stop within a frame, transports that fail, applications that do not read, leave a message unfinished or batch more than is taken, middlewares and hooks that take long for them, keys that are replaced, rooms that are emptied - every other connection works as if they were not there: its calls return at the same times with the same errors, its application reads the same messages and its peer receives the same frames at the same times, including broadcasts, batches, pings, new connections and lookups. The only exception is the documented one, a broadcast with BackpressureWait to a set that includes the slow connection.",
  ["histories", "schedules", "configurations", "faults"], "all scripts of healthy connections x all histories of sick ones x backpressure strategies, batching strategies, buffers and limiters",
  "A test has one or two connections, none of which is in trouble while the other is measured.",
  ["broadcast.go", "flusher.go", "conn_batcher.go", "conn_write.go", "manager.go", "rooms_manager.go", "upgrader.go", "rate_limiter.go", "conn.go"], [("broadcasts", "broadcast.go broadcast, batchBroadcast, broadcastListener"), ("flushing", "flusher.go flushAll; conn_batcher.go flushLocked, sendPending"), ("registrations and hooks", "manager.go Register, unregister; rooms_manager.go Add, Remove, Close"), ("handshakes", "upgrader.go Upgrade"), ("limiter hook", "conn_utils.go allow")],
  ["frames, their times and the results of calls of the healthy connections, with and without the others"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
