#!/usr/bin/env python3
# writes known_findings.txt: one "fixed:" line per fix commit in /repo
import subprocess, pathlib
F = '''e65a4b3 C11 the ping loop of a closed connection never ended (one goroutine and ticker left per connection)
a535541 C07 a control frame without payload kept the length of the previous one
44fffa1 C08 a pong arriving before Ping had returned was not recognised and the responsive peer was dropped
c2c60ea C08 a ping that could not be written left the connection open for ever
10e20bb C12 control frame writes shared one timer: data race and stale deadlines
83c847a C12 closing the connection while holding its write lock: deadlock when a control frame could not be written
bd6eddf C11 CloseWithCode returned without closing the transport when the close frame could not be written
da91a76 C09 a close reason cut in the middle of a character, or not UTF-8, was sent as it was
2c249ea C09 a close frame was written after a failed (partial) write, in the middle of another frame
1ca05b3 C24 closing a connection put the buffer of a writer in use back into the pool: its bytes appeared on other connections
19ef757 C10 close hooks ran inside closeOnce: a hook that closed the connection deadlocked
0ed3e65 C13 a flush whose context had ended could not be repeated: the header was put in front twice
2919f76 C13 SendJSON of a value that cannot be encoded (and sends whose context ended) kept the writer locked for ever, or left half a message
286e7ef C06 closing a writer twice ended the message of whoever had got the writer in between
73d0a1e C06 broadcast frames were written into the middle of fragmented messages
cf702c8 C13 a message that was not read to its end was taken for the next message
37971b7 C26 ReadJSON accepted messages with more data after the value
a1dbac1 C10 streaming reads on a closed connection still succeeded
ba12253 C03 control frames counted against MaxMessageSize, and -1 did not mean unlimited
43646d8 C03 ReaderMaxFragments did not count the first fragment
7c49cc1 C01 a read buffer smaller than a control frame made valid frames fail
a74ab0b C05 a write buffer of at most the header size made sends panic or loop
62972ce C14 a Connection, Upgrade or Sec-WebSocket-Protocol header repeated on several lines was read from its first line only
de84dd8 C15 the connection (with its goroutines) was started before the 101 response could be written; frames could precede it
223bbf7 C16 connections were registered with the limiter after OnConnect: unlimited in it, and left behind when closed in it
b89f406 C16 an error of OnRateLimitHit did not end the connection
441ad00 C07 an unsolicited pong during an outstanding ping closed the connection
120a5f0 C11 connections were added to the flusher before their batch existed (panic) and never removed by some paths
ac983b4 C18 a connection in several rooms or in a room and a manager left only one of them when it closed
635c10b C18 Room.Add of a member and Room.Remove of a non-member ran the hooks
b30ca63 C18 Room.RemoveAll and Room.Close panicked without an OnLeave hook
90f3fba C23 RoomManager.Shutdown deadlocked with hooks, closing connections and Room.Close
60551cb C17 Manager.Shutdown deadlocked with closing connections; a replaced connection unregistered its successor
27c7ab0 C17 a replaced connection was not closed properly (no close frame, hooks in the wrong order)
b0a950c C19 the broadcast queue was created after the connection was visible: data race, lost broadcasts
04427ef C20 the Wait strategy waited for ever for room in the queue of a closed connection
bcbce42 C21 batch broadcasts with a nil context panicked
ec2bb12 C21 batches overtook each other, exceeded the size limit and lost messages added while the flusher closed
de916c7 C10 Ping on a closed connection failed non-fatally while a ping was unanswered
7a0be05 C12 frames were written after a failed write by whoever got the lock first
af09de7 C22 batch broadcasts reported messages as sent after the flusher had ended
6717e36 C07 a ping whose payload was still arriving blocked Close, pings and its own pong
8bd697f C27 control frames waiting for their turn extended the deadline of a stalled write (SendBytes took a multiple of WriteWait)
56f389c C01 a streaming reader returned nothing for empty fragments: bufio readers failed after 100 of them'''
log = {}
for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %H'], capture_output=True, text=True).stdout.splitlines():
    a, b = l.split(); log[b] = a
out = ['# Genuine defects of snapws found by the checks. Lines "fixed:" are repaired in /repo and suppress nothing.']
for l in F.splitlines():
    h, p, t = l.split(' ', 2)
    assert any(x.startswith(h) for x in log), h
    out.append(f'fixed: property={p} {h} {t}')
pathlib.Path(__file__).resolve().parent.parent.joinpath('known_findings.txt').write_text('\n'.join(out) + '\n')
