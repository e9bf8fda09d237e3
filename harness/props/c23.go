package props

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// SdConn is one connection at the shutdown.
type SdConn struct {
	In    int  `json:"in,omitempty"`    // manager: 0 registered, 1 not; rooms: bit set of rooms
	Stall bool `json:"stall,omitempty"` // takes nothing
	Busy  bool `json:"busy,omitempty"`  // a sender keeps writing
	Held  bool `json:"held,omitempty"`  // the application holds its writer
	Lat   int  `json:"lat,omitempty"`
}

// SdOp is something happening around the shutdown.
type SdOp struct {
	K  int `json:"k"`
	I  int `json:"i,omitempty"`
	R  int `json:"r,omitempty"`
	At int `json:"at,omitempty"`
}

const (
	sdClose = iota
	sdClientClose
	sdReset
	sdBroadcast
	sdQuery
	sdConnect
	sdJoin
	sdLeave
	sdMove
	sdRoomClose
	sdSend
	sdKinds
)

type c23Plan struct {
	Rooms   bool     `json:"rooms,omitempty"`
	Hook    int      `json:"hook,omitempty"` // 0 none, 1 query, 2 broadcast, 3 modify, 4 slow, 5 close (another), 6 shutdown
	Which   int      `json:"which,omitempty"`
	Wait    bool     `json:"wait,omitempty"`
	Batch   bool     `json:"batch,omitempty"`
	Limit   bool     `json:"limit,omitempty"`
	Conns   []SdConn `json:"conns,omitempty"`
	Churn   int      `json:"churn,omitempty"` // that many of the last connections are operated on
	Threads [][]SdOp `json:"threads,omitempty"`
	At      int      `json:"at,omitempty"`
	Twice   int      `json:"twice,omitempty"` // 1: concurrently, 2: afterwards
}

func init() {
	core.Register(&core.Prop{
		ID:         "C23",
		RaceShards: 2,
		New:        func() any { return &c23Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c23Plan{Rooms: rapid.Bool().Draw(t, "rooms"), Hook: intn(t, "hook", 0, 6), Which: intn(t, "which", 1, 7), Wait: chance(t, "wait", 30), Batch: chance(t, "batch", 20), Limit: chance(t, "limit", 20),
				At: pick(t, "at", 0, 1, 2, 5), Twice: pick(t, "twice", 0, 0, 1, 2)}
			n := pick(t, "n", 0, 1, 2, 3, 5, 8, 12)
			if chance(t, "many", 10) {
				n = pick(t, "nmany", 25, 40)
			}
			for range n {
				k := SdConn{In: intn(t, "in", 0, 7), Lat: pick(t, "lat", 0, 0, 0, 1, 4)}
				if chance(t, "mode", 40) {
					switch intn(t, "modek", 0, 2) {
					case 0:
						k.Stall = true
					case 1:
						k.Busy = true
					case 2:
						k.Held = true
					}
				}
				p.Conns = append(p.Conns, k)
			}
			p.Churn = intn(t, "churn", 0, min(n, 4))
			for range intn(t, "nthreads", 0, 4) {
				var l []SdOp
				for range intn(t, "nops", 1, 6) {
					l = append(l, SdOp{K: intn(t, "k", 0, sdKinds-1), I: intn(t, "i", 0, 3), R: intn(t, "r", 0, 2), At: pick(t, "oat", 0, 0, 0, 1, 2, 4)})
				}
				p.Threads = append(p.Threads, l)
			}
			return p
		},
		Run:      c23Run,
		Quick:    30000,
		Thorough: 400000,
		Rule:     "shutdown of a manager or a room manager with 0-40 connections (idle, stalled, sending, with a held writer) while 0-4 threads close, reset, broadcast, query, connect, join, leave, move and close rooms, with hooks that query, broadcast, modify, sleep, close others or shut down again, once, twice at a time or twice in a row; non-trivial: at least two registered connections and either concurrent threads or a hook",
		Assumptions: []string{
			"connections registered while Shutdown is already running need not be closed by it",
			"of two concurrent Shutdown calls, only when both have returned all connections are closed"},
	})
}

func c23Run(c *core.Case, plan any) {
	p := plan.(*c23Plan)
	ms := time.Millisecond
	const ww = 200
	opts := &snapws.Options{WriteWait: ww * ms, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, BroadcastChannelsSize: 2}
	if p.Wait {
		opts.BroadcastBackpressure = snapws.BackpressureWait
	}
	u := snapws.NewUpgrader(opts)
	if p.Limit {
		u.Limiter = snapws.NewRateLimiter(1000, 10)
	}
	if p.Batch {
		u.EnableJSONBatching(nil, 3*ms)
		c.Cleanup(u.Flusher.Close)
	}
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[string](u)
	shutdown := mgr.Shutdown
	if p.Rooms {
		shutdown = rooms.Shutdown
	}
	type sdc struct {
		s    SdConn
		i    int
		mc   *mem.Conn
		conn *snapws.Conn
	}
	var mu sync.Mutex
	var conns []*sdc
	var extra []*sdc // connected by threads and hooks
	var hookDepth atomic.Int32
	var ready, added atomic.Bool
	roomOf := func(i int) *snapws.Room[string] { return rooms.Get(keyName("r", i)) }
	connect := func(name string) *sdc {
		mc := mem.New(name)
		k := &sdc{mc: mc}
		var err error
		if p.Rooms {
			k.conn, _, err = rooms.Connect(newRW(mc, OpenOpts{}), goodReq(), keyName("r", 0))
		} else {
			var x *snapws.ManagedConn[string]
			if x, err = mgr.Connect(name, newRW(mc, OpenOpts{}), goodReq()); err == nil {
				k.conn = x.Conn
			}
		}
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return nil
		}
		tidy(c, k.conn, mc)
		drain(c, name, k.conn)
		return k
	}
	// with Wait, a call blocks as long as a member that survives is stalled
	soon := func() context.Context {
		ctx, cancel := context.WithTimeout(bg, 50*ms)
		c.Cleanup(cancel)
		return ctx
	}
	hook := func(w int, k *snapws.Conn) {
		if !ready.Load() || p.Which&w == 0 || hookDepth.Add(1) > 60 {
			return
		}
		switch p.Hook {
		case 1:
			mgr.GetAllConns("x")
			mgr.Get("c0")
			for _, n := range rooms.GetRoomKeys() {
				if r := rooms.Get(n); r != nil {
					r.GetAllConns(k)
				}
			}
		case 2:
			ctx := soon()
			mgr.BroadcastString(ctx, []byte("hook"))
			if r := roomOf(1); r != nil {
				r.BroadcastBytes(ctx, []byte("hook"), k)
			}
			if p.Batch {
				mgr.BatchBroadcast(ctx, []byte("1"))
			}
		case 3:
			added.Store(true)
			if r := rooms.Add("r2"); r != nil {
				r.Remove(k)
			}
			if p.Rooms {
				rooms.Add("new").Close()
				if r := roomOf(0); r != nil {
					r.Remove(k)
				}
			} else if mgr.Get("c1") != nil {
				mgr.Get("c1").Close()
			}
		case 4:
			time.Sleep(3 * ms)
		case 5:
			k.Close()
			mu.Lock()
			var o *sdc
			if len(conns) > 0 && p.Churn > 0 {
				o = conns[len(conns)-1]
			}
			mu.Unlock()
			if o != nil {
				o.conn.Close()
			}
		case 6:
			if hookDepth.Load() < 8 {
				shutdown()
			}
		}
	}
	u.OnDisconnect = func(k *snapws.Conn) { hook(1, k) }
	mgr.OnUnregister = func(m *snapws.ManagedConn[string]) { hook(2, m.Conn) }
	rooms.DefaultOnLeave = func(_ *snapws.Room[string], k *snapws.Conn, _ ...any) { hook(4, k) }
	for i := range 3 {
		rooms.Add(keyName("r", i))
	}
	for i, s := range p.Conns {
		mc := mem.New(fmt.Sprint("c", i))
		k := &sdc{s: s, i: i, mc: mc}
		var err error
		if p.Rooms || s.In != 0 {
			k.conn, err = u.Upgrade(newRW(mc, OpenOpts{}), goodReq())
		} else {
			var x *snapws.ManagedConn[string]
			if x, err = mgr.Connect(keyName("c", i), newRW(mc, OpenOpts{}), goodReq()); err == nil {
				k.conn = x.Conn
			}
		}
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		tidy(c, k.conn, mc)
		drain(c, mc.Name, k.conn)
		if p.Rooms {
			for r := range 3 {
				if s.In&(1<<r) != 0 {
					roomOf(r).Add(k.conn)
				}
			}
		}
		mc.Latency = time.Duration(s.Lat) * ms
		if s.Stall {
			mc.SetCredit(0)
		}
		if s.Held {
			if w, err := k.conn.NextWriter(bg, snapws.OpcodeText); err == nil {
				w.Write([]byte("never finished"))
			}
		}
		conns = append(conns, k)
	}
	stable := max(0, len(conns)-p.Churn)
	ready.Store(true)
	for _, k := range conns {
		if k.s.Busy {
			c.Go("sender", func() {
				for range 200 {
					if err := k.conn.SendBytes(bg, make([]byte, 5000)); isFatal(err) {
						return
					}
					time.Sleep(ms)
				}
			})
		}
	}
	var ops []*core.Op
	for ti, l := range p.Threads {
		ops = append(ops, c.Go(fmt.Sprint("thread ", ti), func() {
			for j, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				var k *sdc
				if p.Churn > 0 {
					k = conns[stable+o.I%p.Churn]
				}
				r := roomOf(o.R)
				switch o.K {
				case sdBroadcast:
					if p.Rooms && r != nil {
						r.BroadcastString(soon(), []byte("hello"))
					} else {
						mgr.BroadcastString(soon(), []byte("hello"))
					}
					continue
				case sdQuery:
					mgr.GetAllConns()
					mgr.Get("c0")
					rooms.GetRoomKeys()
					continue
				case sdConnect:
					added.Store(true)
					if x := connect(fmt.Sprintf("t%d.%d", ti, j)); x != nil {
						mu.Lock()
						extra = append(extra, x)
						mu.Unlock()
					}
					continue
				case sdRoomClose:
					// room 2 only: its members may survive the shutdown
					if r := roomOf(2); r != nil {
						r.Close()
					}
					continue
				}
				if k == nil {
					continue
				}
				switch o.K {
				case sdClose:
					k.conn.Close()
				case sdClientClose:
					k.mc.Feed(closeFrame(1000, "bye"))
				case sdReset:
					k.mc.Kill()
				case sdJoin:
					if r != nil {
						r.Add(k.conn)
					} else if !p.Rooms {
						added.Store(true)
						mgr.Register("again"+k.mc.Name, &snapws.ManagedConn[string]{Conn: k.conn, Key: "again" + k.mc.Name, Manager: mgr})
					}
				case sdLeave:
					if r != nil {
						r.Remove(k.conn)
					}
				case sdMove:
					if r != nil {
						r.Move(k.conn, keyName("r", (o.R+1)%3))
					}
				case sdSend:
					k.conn.SendString(soon(), []byte("text"))
				}
			}
		}))
	}
	time.Sleep(time.Duration(p.At) * ms)
	limit := time.Duration(len(p.Conns)+20)*(3*ww+100)*ms + 20*time.Second
	var sd []*core.Op
	for range 1 + b2i(p.Twice == 1) {
		sd = append(sd, c.Go("Shutdown", shutdown))
	}
	for _, o := range sd {
		if !o.Wait(limit) {
			c.Violate("hang", "Shutdown did not return within %v:\n%s", limit, firstStack())
			return
		}
	}
	// what holds the moment it has returned
	if p.Hook == 6 { // that of a hook may be the one that closes them
		time.Sleep(time.Duration(len(p.Conns)) * 3 * ww * ms)
	}
	roomClosed := false // members of room 2 only may have left by then
	for _, l := range p.Threads {
		for _, o := range l {
			roomClosed = roomClosed || o.K == sdRoomClose
		}
	}
	member := func(k *sdc) (sure, may bool) {
		if !p.Rooms {
			return k.s.In == 0, k.s.In == 0
		}
		in := k.s.In
		may = in != 0
		if roomClosed && in&4 != 0 {
			in &^= 4
			if p.Hook == 3 {
				in &^= 1 // by the hook
			}
		}
		return in != 0, may
	}
	regs := 0
	for _, k := range conns {
		sure, may := member(k)
		if may {
			regs++
		}
		if k.i >= stable {
			continue
		}
		if sure && !k.mc.LibClosed() {
			c.Violate("still-open", "Shutdown has returned and %s, which was registered, is not closed", k.mc.Name)
			return
		}
	}
	if p.Twice == 2 {
		if !c.Must("hang", "second Shutdown", limit, shutdown) {
			return
		}
	}
	empty := len(mgr.GetAllConns()) == 0
	if !p.Rooms && !added.Load() && !empty {
		c.Violate("not-empty", "the manager still has %d connections after Shutdown", len(mgr.GetAllConns()))
	}
	if p.Rooms && !added.Load() && len(rooms.GetRoomKeys()) != 0 {
		c.Violate("not-empty", "the room manager still has rooms after Shutdown: %v", rooms.GetRoomKeys())
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs after Shutdown:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(2 * time.Second)
	want := 1000
	if p.Rooms {
		want = 1001
	}
	for _, k := range conns {
		sure, may := member(k)
		if !may && k.i < stable && k.mc.LibClosed() && !k.s.Stall && p.Hook != 5 {
			c.Violate("closed-other", "%s was not registered and was closed (code %d)", k.mc.Name, wire(k.mc).CloseCode)
			return
		}
		s := validWire(c, k.mc)
		if c.Failed() {
			return
		}
		if k.i >= stable || !sure || k.s.Stall || p.Hook == 5 || p.Hook == 3 {
			continue
		}
		if s.CloseAt < 0 || s.CloseCode != want {
			c.Violate("code", "%s was closed by Shutdown with code %d, want %d", k.mc.Name, s.CloseCode, want)
			return
		}
		if s.CloseAt >= 0 && s.Frames[s.CloseAt].Op != ref.Close {
			c.Infra("close frame index")
		}
	}
	if regs > 1 && (len(p.Threads) > 0 || p.Hook > 0) {
		c.NonTrivial()
	}
	c.Class([]string{"manager", "rooms"}[b2i(p.Rooms)])
	c.ClassIf(p.Twice == 1, "two-at-a-time")
	for _, k := range p.Conns {
		c.ClassIf(k.Stall, "stalled")
		c.ClassIf(k.Held, "held-writer")
	}
}
