package props

import (
	"context"
	"fmt"
	"io"
	"sync"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// what runs on the connection when it closes
const (
	doSend = iota
	doJSON
	doHold // a stream that writes, flushes, waits and ends
	doKeep // a stream that is never ended before the connection closes
	doWait // NextWriter that waits for its turn
	doPing
	doBcast
	doBatch
	doRoomBatch
	doKinds
)

type Act struct {
	Kind  int  `json:"k"`
	At    int  `json:"at,omitempty"` // ms
	N     int  `json:"n,omitempty"`
	Flush bool `json:"flush,omitempty"`
	Hold  int  `json:"hold,omitempty"` // ms
	Times int  `json:"times,omitempty"`
	Ctx   int  `json:"ctx,omitempty"` // 1 nil, 2 cancellable, 3 with a deadline far away
}

// liveCtx is a context that does not end during the case.
func liveCtx(c *core.Case, kind int) context.Context {
	switch kind {
	case 1:
		return nil
	case 2:
		ctx, cancel := context.WithCancel(bg)
		c.Cleanup(cancel)
		return ctx
	case 3:
		ctx, cancel := context.WithTimeout(bg, 1000*time.Hour)
		c.Cleanup(cancel)
		return ctx
	}
	return bg
}

// how the connection ends
const (
	endClose = iota
	endCode
	endClient   // the client's close frame
	endEOF      // the client goes away
	endReset    // reads fail
	endProtocol // the client breaks the protocol
	endKill     // reads and writes fail
	endManager  // the manager shuts down
	endReplace  // the manager gets another connection under the same key
	endKinds
)

type Closer struct {
	Kind int `json:"k"`
	At   int `json:"at,omitempty"` // ms
}

type c10Plan struct {
	WriteBuf int      `json:"writebuf,omitempty"`
	Latency  int      `json:"latency,omitempty"`
	Credit   int      `json:"credit,omitempty"` // bytes after the handshake until the peer stalls, +1
	Read     int      `json:"read,omitempty"`   // 0 none, 1 whole messages, 2 streaming inside a message, 3 stopped inside a message
	Batch    int      `json:"batch,omitempty"`
	Hook     int      `json:"hook,omitempty"` // OnDisconnect: 1 closes again, 2 sends, 3 leaves the room, 4 slow
	PingOut  bool     `json:"pingout,omitempty"`
	Acts     []Act    `json:"acts,omitempty"`
	Closers  []Closer `json:"closers"`
}

func genAct(t *rapid.T, kinds ...int) Act {
	return Act{Kind: pick(t, "kind", kinds...), At: pick(t, "at", 0, 0, 0, 1, 2, 5), N: pick(t, "n", 0, 1, 20, 100, 500), Flush: rapid.Bool().Draw(t, "flush"),
		Hold: pick(t, "hold", 0, 1, 3, 10), Times: pick(t, "times", 1, 1, 2, 5), Ctx: intn(t, "ctx", 0, 3)}
}

func genClosers(t *rapid.T, max int, kinds ...int) []Closer {
	var out []Closer
	for range intn(t, "nclosers", 1, max) {
		out = append(out, Closer{pick(t, "ckind", kinds...), pick(t, "cat", 0, 0, 1, 2, 3, 5, 20, 100)})
	}
	return out
}

func init() {
	all := make([]int, doKinds)
	for i := range all {
		all[i] = i
	}
	core.Register(&core.Prop{
		ID:         "C10",
		RaceShards: 1,
		New:        func() any { return &c10Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c10Plan{
				WriteBuf: pick(t, "writebuf", 0, 0, 30, 100),
				Latency:  pick(t, "latency", 0, 0, 1, 3),
				Credit:   pick(t, "credit", 0, 0, 0, 1, 2, 30, 200),
				Read:     pick(t, "read", 0, 1, 1, 1, 2, 2, 3),
				Batch:    intn(t, "batch", 0, 3),
				Hook:     pick(t, "hook", 0, 0, 1, 2, 3, 4),
				PingOut:  chance(t, "pingout", 30),
			}
			for range intn(t, "nacts", 0, 5) {
				p.Acts = append(p.Acts, genAct(t, all...))
			}
			p.Closers = genClosers(t, 4, endClose, endClose, endCode, endClient, endEOF, endReset, endProtocol, endKill, endManager, endReplace)
			if p.Read == 0 || p.Read == 3 { // nobody would notice
				p.Closers = append(p.Closers, Closer{endClose, pick(t, "last", 0, 10, 200)})
			}
			return p
		},
		Run:      c10Run,
		Quick:    60000,
		Thorough: 800000,
		Rule:     "one connection in two rooms and a manager with 0-5 concurrent activities (sends, JSON, streams held open, waiting writers, pings, blocking broadcasts, batches; a blocked or mid-message reader) over a transport with latency or a stalling peer, ended by 1-5 concurrent closers of 9 kinds, with disconnect hooks that call back; afterwards every call is tried again; non-trivial: an activity was in progress when the connection closed, or at least two closers",
	})
}

func c10Run(c *core.Case, plan any) {
	p := plan.(*c10Plan)
	if len(p.Closers) == 0 {
		p.Closers = []Closer{{Kind: endClose}}
	}
	tl := newTally()
	opts := &snapws.Options{WriteBufferSize: p.WriteBuf, BroadcastChannelsSize: 1, BroadcastBackpressure: snapws.BackpressureWait}
	var room *snapws.Room[string]
	var first *snapws.Conn
	opts.OnDisconnect = func(k *snapws.Conn) {
		if k != first {
			return
		}
		tl.add("disconnect")
		switch p.Hook {
		case 1:
			k.Close()
		case 2:
			k.SendString(bg, []byte("hook"))
		case 3:
			room.Remove(k)
		case 4:
			time.Sleep(50 * time.Millisecond)
		}
	}
	u := snapws.NewUpgrader(opts)
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 10*time.Millisecond)
	case 2:
		u.EnablePrefixBatching(bctx, 10*time.Millisecond)
	}
	mgr := snapws.NewManager[string](u)
	mgr.OnUnregister = func(k *snapws.ManagedConn[string]) {
		if k.Conn == first {
			tl.add("unregister")
		}
	}
	rooms := snapws.NewRoomManager[string](u)
	rooms.DefaultOnLeave = func(r *snapws.Room[string], k *snapws.Conn, _ ...any) { tl.add("leave " + r.Key) }
	mc := mem.New("c")
	mc.Latency = time.Duration(p.Latency) * time.Millisecond
	first = open(c, u, mc, OpenOpts{})
	if first == nil {
		return
	}
	conn := first
	mgr.Register("k", &snapws.ManagedConn[string]{Conn: conn, Key: "k", Manager: mgr})
	room = rooms.Add("a")
	room.Add(conn)
	rooms.Add("b").Add(conn)

	var ops []*core.Op
	var stream io.Reader
	switch p.Read {
	case 1:
		ops = append(ops, c.Go("reader", func() {
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					if !isFatal(err) {
						c.Violate("not-fatal", "ReadMessage on a closing connection returned the non-fatal error %v", err)
					}
					return
				}
			}
		}))
	case 2:
		mc.Feed(dataFrame(ref.Binary, false, []byte("begin")))
		ops = append(ops, c.Go("reader", func() {
			r, _, err := conn.NextReader()
			if err == nil {
				stream = r
				_, err = streamRead(r, []int{4}, 1000)
			}
			if !isFatal(err) {
				c.Violate("not-fatal", "a streaming read on a closing connection returned %v", err)
			}
		}))
	}
	if p.Read == 3 {
		// the rest of the frame stays in the connection's buffer
		mc.Feed(dataFrame(ref.Binary, p.PingOut, []byte("begin and more")))
		if !c.Must("hang", "a streaming read", time.Minute, func() {
			r, _, err := conn.NextReader()
			if err == nil {
				_, err = r.Read(make([]byte, 5))
			}
			if err != nil {
				c.Violate("read", "a streaming read failed: %v", err)
			}
			stream = r
		}) {
			return
		}
	}
	if p.PingOut {
		conn.Ping()
	}
	synctest.Wait()
	if p.Credit > 0 {
		mc.SetCredit(int64(p.Credit - 1))
	}

	type sent struct {
		data []byte
		err  error
		sync bool
	}
	var mu sync.Mutex
	var msgs []*sent
	var kept []*snapws.ConnWriter
	put := func(d []byte, err error, sync bool) {
		mu.Lock()
		msgs = append(msgs, &sent{d, err, sync})
		mu.Unlock()
	}
	check := func(name string, err error) {
		if err == nil {
			return
		}
		if mc.LibClosed() && !isFatal(err) && err != snapws.ErrPingAlreadySent {
			c.Violate("not-fatal", "%s failed with the non-fatal error %v though the connection is closed", name, err)
		}
	}
	for i, a := range p.Acts {
		ops = append(ops, c.Go(fmt.Sprintf("activity %d (kind %d)", i, a.Kind), func() {
			time.Sleep(time.Duration(a.At) * time.Millisecond)
			ctx := liveCtx(c, a.Ctx)
			for k := range max(1, a.Times) {
				d := AMsg{N: a.N}.payload('M', i, k)
				switch a.Kind {
				case doSend:
					err := conn.SendBytes(ctx, d)
					check("SendBytes", err)
					put(d, err, true)
				case doJSON:
					err := conn.SendJSON(ctx, string(d))
					check("SendJSON", err)
					put([]byte(`"`+string(d)+"\"\n"), err, true)
				case doHold, doKeep, doWait:
					w, err := conn.NextWriter(ctx, ref.Binary)
					if err != nil {
						check("NextWriter", err)
						break
					}
					if a.Kind != doWait {
						_, err = w.Write(d[:len(d)/2])
						if err == nil && a.Flush {
							err = w.Flush()
						}
						time.Sleep(time.Duration(a.Hold) * time.Millisecond)
					}
					if a.Kind == doKeep {
						mu.Lock()
						kept = append(kept, w)
						msgs = append(msgs, &sent{d[:len(d)/2], io.ErrUnexpectedEOF, true})
						mu.Unlock()
						return
					}
					if a.Kind == doWait {
						check("Close of a writer", w.Close())
						break
					}
					if err == nil {
						_, err = w.Write(d[len(d)/2:])
					}
					e2 := w.Close()
					if err != nil && e2 == nil {
						c.Violate("ended", "Close of a writer reported success after Write or Flush had failed with %v", err)
					}
					if err == nil {
						err = e2
					}
					put(d, err, true)
				case doPing:
					err := conn.Ping()
					check("Ping", err)
				case doBcast:
					_, err := room.BroadcastBytes(ctx, d)
					put(d, err, false)
				case doBatch:
					conn.Batch(d)
				case doRoomBatch:
					room.BatchBroadcast(ctx, d)
				}
				if mc.LibClosed() && k > 2 {
					return
				}
			}
		}))
	}
	for i, k := range p.Closers {
		o := c.Go(fmt.Sprintf("closer %d (kind %d)", i, k.Kind), func() {
			time.Sleep(time.Duration(k.At) * time.Millisecond)
			switch k.Kind {
			case endClose:
				conn.Close()
			case endCode:
				conn.CloseWithCode(uint16(3000+i), "bye")
			case endClient:
				if p.Read == 2 {
					mc.Feed(dataFrame(ref.Cont, false, []byte("more")))
				}
				mc.Feed(closeFrame(1000, "done"))
			case endEOF:
				mc.FeedEOF()
			case endReset:
				mc.FeedErr(errReset)
			case endProtocol:
				mc.Feed([]byte{0xC3, 0x80, 1, 2, 3, 4})
			case endKill:
				mc.Kill()
			case endManager:
				mgr.Shutdown()
			case endReplace:
				m2 := mem.New("other")
				c2, err := mgr.Connect("k", newRW(m2, OpenOpts{}), goodReq())
				if err != nil {
					c.Violate("upgrade-failed", "Connect failed: %v", err)
					return
				}
				tidy(c, c2.Conn, m2)
			}
		})
		ops = append(ops, o)
	}
	closed := time.Now()
	for _, o := range ops {
		if !o.Wait(time.Until(closed.Add(10 * time.Minute))) {
			c.Violate("hang", "%s did not return though the connection is closing:\n%s", o.Name, firstStack())
			return
		}
	}
	// EOF, reset and the like are noticed only by readers and by writers
	if (p.Read == 0 || p.Read == 3) && !mc.LibClosed() {
		if !c.Must("hang", "Close", time.Minute, func() { conn.Close() }) {
			return
		}
	}
	time.Sleep(time.Second)
	if mc.LibClosed() && (p.Batch == 1 || p.Batch == 2) {
		c.Must("hang", "Batch", time.Minute, func() {
			if err := conn.Batch([]byte("1")); err == nil {
				c.Violate("after-close", "Batch on a closed connection succeeded")
			}
			if err := conn.BatchJSON(1); err == nil {
				c.Violate("after-close", "BatchJSON on a closed connection succeeded")
			}
		})
	}
	bcancel() // no more ticks
	time.Sleep(time.Minute)
	synctest.Wait()
	if !mc.LibClosed() {
		c.Violate("not-closed", "the transport was not closed")
		return
	}
	for _, k := range []string{"disconnect", "unregister", "leave a", "leave b"} {
		if n := tl.get(k); n != 1 {
			c.Violate("callback-count", "%s callback ran %d times", k, n)
		}
	}
	late := mc.OutLen()
	// from now on everything fails
	fatal := func(name string, f func() error) {
		var err error
		if !c.Must("hang", name+" on a closed connection", time.Minute, func() { err = f() }) {
			return
		}
		if !isFatal(err) {
			c.Violate("after-close", "%s on a closed connection returned %v, want a fatal error", name, err)
		}
	}
	var v any
	fatal("ReadMessage", func() error { _, _, err := conn.ReadMessage(); return err })
	fatal("ReadString", func() error { _, err := conn.ReadString(); return err })
	fatal("ReadBinary", func() error { _, err := conn.ReadBinary(); return err })
	fatal("ReadJSON", func() error { return conn.ReadJSON(&v) })
	fatal("NextReader", func() error { _, _, err := conn.NextReader(); return err })
	if stream != nil {
		fatal("Read of a message in progress", func() error { _, err := stream.Read(make([]byte, 10)); return err })
	}
	fatal("SendMessage", func() error { return conn.SendMessage(bg, ref.Text, []byte("late")) })
	fatal("SendString", func() error { return conn.SendString(nil, []byte("late")) })
	fatal("SendBytes", func() error { return conn.SendBytes(liveCtx(c, 3), nil) })
	fatal("SendJSON", func() error { return conn.SendJSON(liveCtx(c, 2), 1) })
	fatal("NextWriter", func() error { _, err := conn.NextWriter(bg, ref.Text); return err })
	fatal("NextWriter", func() error { _, err := conn.NextWriter(liveCtx(c, 2), ref.Text); return err })
	fatal("Ping", conn.Ping)
	for _, w := range kept {
		fatal("Write of an open writer", func() error { _, err := w.Write([]byte("late")); return err })
		fatal("Flush of an open writer", w.Flush)
		fatal("Close of an open writer", w.Close)
	}
	c.Must("hang", "closing again", time.Minute, func() { conn.Close(); conn.CloseWithCode(4000, "x") })
	if p.Batch == 1 || p.Batch == 2 {
		c.Must("hang", "Batch", time.Minute, func() {
			if err := conn.Batch([]byte("1")); err == nil {
				c.Violate("after-close", "Batch on a closed connection succeeded")
			}
		})
	}
	time.Sleep(time.Minute)
	if mc.OutLen() != late {
		c.Violate("written-after-close", "%d bytes were written after the connection had closed", mc.OutLen()-late)
	}
	for _, k := range []string{"disconnect", "unregister", "leave a", "leave b"} {
		if n := tl.get(k); n != 1 {
			c.Violate("callback-count", "%s callback ran %d times in the end", k, n)
		}
	}
	// what the peer saw
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	arrived := map[string]int{}
	for _, m := range s.Msgs {
		arrived[string(m.Data)]++
	}
	known := map[string]bool{}
	for _, m := range msgs {
		n := arrived[string(m.data)]
		known[string(m.data)] = true
		switch {
		case n > 1:
			c.Violate("duplicate", "a message arrived %d times", n)
		case m.sync && m.err == nil && n == 0:
			c.Violate("lost", "a message of %d bytes whose send succeeded did not arrive", len(m.data))
		case m.sync && m.err != nil && n > 0:
			c.Violate("failed-but-complete", "a message of %d bytes that failed with %v was presented to the peer as complete", len(m.data), m.err)
		}
	}
	for d := range arrived {
		if !known[d] && d != "" && d[0] == 'M' && p.Batch != 2 {
			c.Violate("cut-message", "the peer received %s as a complete message", trunc([]byte(d), 40))
		}
	}
	c.ClassIf(len(p.Closers) > 1, "several-closers")
	c.ClassIf(len(kept) > 0, "stream-open")
	c.ClassIf(p.Credit > 0, "stalled-peer")
	c.ClassIf(s.Open != nil, "cut-stream")
	for _, k := range p.Closers {
		c.Class(fmt.Sprint("closer-", k.Kind))
	}
	for _, o := range ops[:len(ops)-len(p.Closers)] {
		if o.Ended.After(closed) || len(kept) > 0 {
			c.NonTrivial()
		}
	}
	if len(p.Closers) > 1 {
		c.NonTrivial()
	}
}
