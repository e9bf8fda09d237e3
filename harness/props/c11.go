package props

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"testing/synctest"
	"time"
	"weak"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// what a connection is used for before it closes
const (
	useNothing = iota
	useRead
	useSend
	useStreamOpen // a writer that is never ended
	useBcast
	useBatch
	usePing
	useMove
	useStall // the peer takes nothing any more, the broadcast queue is full
	useKinds
)

type c11Conn struct {
	Via   int   `json:"via"` // 0 Upgrade, 1 Manager.Connect, 2 RoomManager.Connect
	Key   int   `json:"key,omitempty"`
	Rooms []int `json:"rooms,omitempty"`
	Uses  []int `json:"uses,omitempty"`
	End   int   `json:"end"`
	Fail  int   `json:"fail,omitempty"` // 1 bad request, 2 middleware, 3 hijack, 4 response write, 5 deadline, 6 short write
	Late  bool  `json:"late,omitempty"` // joined to a room after it has closed
	Hook  bool  `json:"hook,omitempty"` // closed in OnConnect
}

type c11Plan struct {
	Limit  bool      `json:"limit,omitempty"`
	Batch  int       `json:"batch,omitempty"`
	NoPool bool      `json:"nopool,omitempty"`
	Strat  int       `json:"strat,omitempty"`
	Conns  []c11Conn `json:"conns"`
	Gap    int       `json:"gap,omitempty"` // ms
	GC     bool      `json:"gc,omitempty"`
	// the batcher is closed (1), cancelled (2) or replaced (3) before connection EndAt is opened, or (4-6) before it is closed
	EndBatch int `json:"endbatch,omitempty"`
	EndAt    int `json:"endat,omitempty"`
}

func init() {
	core.Register(&core.Prop{
		ID:    "C11",
		Leaks: true,
		New:   func() any { return &c11Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c11Plan{Limit: chance(t, "limit", 50), Batch: intn(t, "batch", 0, 3), NoPool: chance(t, "nopool", 30), Strat: intn(t, "strat", 0, 2),
				Gap: pick(t, "gap", 0, 0, 1, 30, 1000, 60000), GC: chance(t, "gc", 40)}
			for range intn(t, "n", 1, 5) {
				k := c11Conn{Via: intn(t, "via", 0, 2), Key: intn(t, "key", 0, 2), End: pick(t, "end", endClose, endCode, endClient, endEOF, endReset, endProtocol, endKill, endManager)}
				for range intn(t, "nrooms", 0, 3) {
					k.Rooms = append(k.Rooms, intn(t, "room", 0, 2))
				}
				for range intn(t, "nuses", 0, 4) {
					k.Uses = append(k.Uses, intn(t, "use", 0, useKinds-1))
				}
				if chance(t, "fails", 20) {
					k.Fail = intn(t, "fail", 1, 6)
				}
				k.Late = chance(t, "late", 15)
				k.Hook = chance(t, "hook", 10)
				p.Conns = append(p.Conns, k)
			}
			if p.Batch > 0 && chance(t, "ends", 30) {
				p.EndBatch, p.EndAt = intn(t, "endbatch", 1, 6), intn(t, "endat", 0, len(p.Conns)-1)
			}
			return p
		},
		Run:      c11Run,
		Quick:    35000,
		Thorough: 400000,
		Rule:     "1-5 connections (upgraded directly, through a manager or a room manager; some upgrades fail in one of 6 ways) with and without limiter, batching and pooling, each used in generated ways (reading, sending, unfinished writers, broadcasts, batches, pings, moves between rooms, a stalled peer with a full queue) and ended in one of 8 ways; afterwards goroutines, transports, memberships and (in part of the cases) reachability from the library are checked; non-trivial: a connection with a membership, limiter or batcher closed, or an upgrade failed",
	})
}

// libGoroutines counts the bubble's goroutines that run library code.
func libGoroutines() (n int, one string) {
	synctest.Wait()
	for _, s := range core.BubbleStacks() {
		if strings.Contains(s, core.OwnPkg) {
			continue // a call of the harness
		}
		n++
		one = s
	}
	return
}

func c11Run(c *core.Case, plan any) {
	p := plan.(*c11Plan)
	opts := &snapws.Options{DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: 2, BroadcastBackpressure: snapws.BackpressureStrategy(p.Strat), PingEvery: 20 * time.Second, ReadWait: 45 * time.Second}
	tl := newTally()
	refuse, closing := false, false
	opts.OnConnect = func(k *snapws.Conn) {
		tl.add("connect")
		if closing {
			k.Close()
		}
	}
	opts.Middlwares = []snapws.Middlware{func(http.ResponseWriter, *http.Request) error {
		if refuse {
			return errors.New("no")
		}
		return nil
	}}
	u := snapws.NewUpgrader(opts)
	if p.Limit {
		u.Limiter = snapws.NewRateLimiter(100, 100)
	}
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	enable := func() {
		switch p.Batch {
		case 1:
			u.EnableJSONBatching(bctx, 50*time.Millisecond)
		case 2:
			u.EnablePrefixBatching(bctx, 50*time.Millisecond)
		case 3:
			u.EnableBatching(bctx, 50*time.Millisecond, func(ctx context.Context, k *snapws.Conn, m [][]byte) error {
				return k.SendBytes(ctx, m[0])
			})
		}
	}
	enable()
	endBatch := func(i, base int) {
		if p.Batch == 0 || i != p.EndAt {
			return
		}
		switch p.EndBatch - base {
		case 1:
			u.Flusher.Close()
		case 2:
			bcancel()
		case 3:
			enable()
		default:
			return
		}
		c.Class("batcher-ended")
	}
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[int](u)
	// hooks are not needed: rooms without them must work as well
	base, _ := libGoroutines()
	var weaks []weak.Pointer[snapws.Conn]
	var mcs []*mem.Conn
	for i, k := range p.Conns {
		endBatch(i, 0)
		mc := mem.New(fmt.Sprint("c", i))
		answerPings(mc)
		mcs = append(mcs, mc)
		var w weak.Pointer[snapws.Conn]
		o := c.Go(fmt.Sprint("connection ", i), func() { w = c11One(c, p, k, i, u, mgr, rooms, mc, tl, &refuse, &closing, func() { endBatch(i, 3) }) })
		if !o.Wait(time.Hour) {
			c.Violate("hang", "%s: a call did not return:\n%s", o.Name, firstStack())
			return
		}
		if c.Failed() {
			return
		}
		weaks = append(weaks, w)
		time.Sleep(time.Duration(p.Gap) * time.Millisecond)
	}
	// all are closed: give stalled writes their time
	time.Sleep(30 * time.Second)
	mc0 := 0
	for i, k := range p.Conns {
		mc := mcs[i]
		if k.Fail > 0 && k.Fail <= 3 {
			if mc.LibClosed() || mc.OutLen() > 0 {
				c.Violate("taken-over", "the refused upgrade %d touched the transport", i)
			}
			continue
		}
		mc0++
		if !mc.LibClosed() {
			c.Violate("transport-open", "the transport of connection %d (end %d, fail %d) is still open", i, k.End, k.Fail)
		}
	}
	if n, one := libGoroutines(); n > base {
		c.Violate("goroutine-left", "%d goroutines of the library are left after all connections have closed (%d before); one is:\n%s", n, base, one)
	}
	if got := len(mgr.GetAllConns()) + len(mgr.GetAllConnsAsConn()); got != 0 {
		c.Violate("manager-member", "the manager still lists %d closed connections", got/2)
	}
	for _, k := range rooms.GetRoomKeys() {
		if n := len(rooms.Get(k).GetAllConns()); n != 0 {
			c.Violate("room-member", "room %d still has %d closed connections", k, n)
		}
	}
	if c.Failed() {
		return
	}
	if p.GC {
		for range 5 {
			runtime.GC()
			left := 0
			for _, w := range weaks {
				if w.Value() != nil {
					left++
				}
			}
			if left == 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		for i, w := range weaks {
			if w.Value() != nil {
				c.Violate("still-referenced", "connection %d (via %d, end %d) is still referenced by the library after it has closed", i, p.Conns[i].Via, p.Conns[i].End)
			}
		}
		c.Class("reachability-checked")
	}
	runtime.KeepAlive(u)
	runtime.KeepAlive(mgr)
	runtime.KeepAlive(rooms)
	for _, k := range p.Conns {
		if k.Fail > 0 {
			c.Class("failed-upgrade")
			c.NonTrivial()
		} else {
			c.Class(fmt.Sprint("end-", k.End))
		}
		if k.Via > 0 || len(k.Rooms) > 0 || p.Limit || p.Batch > 0 {
			c.NonTrivial()
		}
		for _, x := range k.Uses {
			c.ClassIf(k.Fail == 0, fmt.Sprint("use-", x))
		}
	}
}

// c11One is the life of one connection; no reference to it survives the call.
func c11One(c *core.Case, p *c11Plan, k c11Conn, i int, u *snapws.Upgrader, mgr *snapws.Manager[int], rooms *snapws.RoomManager[int], mc *mem.Conn, tl *tally, refuse, closing *bool, beforeEnd func()) (w weak.Pointer[snapws.Conn]) {
	rw, req := newRW(mc, OpenOpts{}), goodReq()
	switch k.Fail {
	case 1:
		req.Header.Del("Sec-WebSocket-Key")
	case 2:
		*refuse = true
	case 3:
		rw.failHij = errors.New("cannot hijack")
	case 4:
		mc.SetFault(0, mem.Fault{Err: true})
	case 5:
		mc.FailSetWD = 1
	case 6:
		mc.SetFault(0, mem.Fault{Stall: true, Partial: 20})
	}
	*closing = k.Hook
	before := tl.get("connect")
	var conn *snapws.Conn
	var room *snapws.Room[int]
	var err error
	switch k.Via {
	case 0:
		conn, err = u.Upgrade(rw, req)
	case 1:
		var m *snapws.ManagedConn[int]
		m, err = mgr.Connect(k.Key, rw, req)
		if m != nil {
			conn = m.Conn
		}
	case 2:
		conn, room, err = rooms.Connect(rw, req, k.Key)
		if k.Fail == 0 && err == nil && room == nil {
			c.Violate("no-room", "Connect returned no room")
			return
		}
	}
	*refuse, *closing = false, false
	if k.Fail > 0 {
		if err == nil || conn != nil {
			c.Violate("upgrade-succeeded", "an upgrade that must fail (%d) returned %v, %v", k.Fail, conn, err)
		}
		if tl.get("connect") != before {
			c.Violate("connect-hook", "OnConnect ran for a failed upgrade (%d)", k.Fail)
		}
		return
	}
	if k.Hook && err != nil && conn == nil {
		return // refused because it is closed already
	}
	if err != nil || conn == nil {
		c.Violate("upgrade-failed", "upgrade failed: %v", err)
		return
	}
	c.ClassIf(k.Hook, "closed-in-hook")
	w = weak.Make(conn)
	for _, r := range k.Rooms {
		if !k.Late {
			rooms.Add(r).Add(conn)
		}
	}
	var reader *core.Op
	read := func() {
		if reader == nil {
			reader = c.Go("reader", func() {
				for {
					if _, _, err := conn.ReadMessage(); isFatal(err) {
						return
					}
				}
			})
		}
	}
	for _, x := range k.Uses {
		switch x {
		case useRead:
			read()
			mc.Feed(dataFrame(ref.Binary, true, []byte("hello")))
			f := ref.Frame{Fin: true, Op: ref.Ping, Payload: []byte("p")}
			mc.Feed(f.Encode(nil))
			synctest.Wait()
		case useSend:
			c.Do("send", time.Minute, func() { conn.SendBytes(bg, make([]byte, 5000)) })
		case useStreamOpen:
			c.Do("writer", time.Minute, func() {
				ctx, cancel := context.WithTimeout(bg, time.Second)
				defer cancel()
				if w, err := conn.NextWriter(ctx, ref.Binary); err == nil {
					w.Write([]byte("half"))
					w.Flush()
				}
			})
		case useBcast:
			c.Do("broadcast", time.Minute, func() {
				ctx, cancel := context.WithTimeout(bg, time.Second)
				defer cancel()
				rooms.Add(0).BroadcastString(ctx, []byte("to all"))
				mgr.BroadcastBytes(ctx, []byte("to all"))
			})
		case useBatch:
			conn.Batch([]byte("1"))
			rooms.Add(1).BatchBroadcast(bg, []byte("2"))
		case usePing:
			conn.Ping()
		case useMove:
			rooms.Add(0).Move(conn, 1)
		case useStall:
			mc.SetCredit(3)
			if len(k.Rooms) > 0 && !k.Late {
				c.Do("broadcast", time.Minute, func() {
					ctx, cancel := context.WithTimeout(bg, time.Second)
					defer cancel()
					for range 5 {
						rooms.Add(k.Rooms[0]).BroadcastString(ctx, []byte("to all"))
					}
				})
			}
		}
	}
	if k.End == endClient || k.End == endEOF || k.End == endReset || k.End == endProtocol {
		read() // somebody has to notice
	}
	beforeEnd()
	switch k.End {
	case endClose:
		conn.Close()
	case endCode:
		conn.CloseWithCode(4000, "bye")
	case endClient:
		mc.Feed(closeFrame(1001, ""))
	case endEOF:
		mc.FeedEOF()
	case endReset:
		mc.FeedErr(errReset)
	case endProtocol:
		mc.Feed([]byte{0xC3, 0x80, 1, 2, 3, 4})
	case endKill:
		mc.Kill()
		read()
	case endManager:
		mgr.Shutdown()
		if k.Via != 1 {
			rooms.Shutdown()
		}
		conn.Close()
	}
	if reader != nil && !reader.Wait(10*time.Minute) {
		c.Violate("hang", "a read did not return after the connection ended (%d)", k.End)
		return
	}
	if !isClosedSoon(mc) {
		c.Violate("transport-open", "the transport of connection %d is still open after it ended (%d)", i, k.End)
		return
	}
	if k.Late {
		time.Sleep(10 * time.Second)
		for _, r := range k.Rooms {
			rooms.Add(r).Add(conn)
		}
	}
	return
}

func isClosedSoon(mc *mem.Conn) bool {
	for range 300 {
		if mc.LibClosed() {
			return true
		}
		time.Sleep(100 * time.Millisecond)
	}
	return mc.LibClosed()
}
