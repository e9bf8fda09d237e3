package props

import (
	"context"
	"errors"
	"fmt"
	"hash/crc32"
	"net/http"
	"slices"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// what happens on a healthy connection
const (
	heSend = iota
	heText
	heJSON
	hePing
	heClient     // its peer sends a message
	heClientPing // its peer sends a ping
	heRoomCast
	heMgrCast
	heRoomBatch
	heMgrBatch
	heBatch
	heMove
	heRemove
	heAdd
	heHold // a message is begun
	heFinish
	heClose
	heLook // lookups
	heOwnRoom
	heKinds
)

// what happens on a sick one
const (
	siStall = iota
	siGo
	siSlow
	siFail
	siEOF
	siViolate
	siFlood
	siHalf
	siSend
	siHold
	siPing
	siClose
	siCode
	siMove
	siRemove
	siAdd
	siBatch
	siReplace
	siCast  // to a room of the sick only
	siEmpty // the room of the sick is emptied or closed
	siKinds
)

// ItOp is one step; its time follows from its place in the plan.
type ItOp struct {
	K int `json:"k"`
	C int `json:"c"` // connection
	N int `json:"n,omitempty"`
	R int `json:"r,omitempty"`
}

type c30Plan struct {
	Healthy int    `json:"healthy"`
	Late    int    `json:"late,omitempty"` // bits: connects at its first step
	Sick    int    `json:"sick"`
	Silent  int    `json:"silent,omitempty"` // bits: its application does not read
	Mute    int    `json:"mute,omitempty"`   // bits: its peer takes nothing from the start
	Apart   bool   `json:"apart,omitempty"`  // the sick have a room of their own
	Slow    int    `json:"slow,omitempty"`   // ms that hooks and middlewares take for the sick
	H       []ItOp `json:"h"`
	S       []ItOp `json:"s"`
	Strat   int    `json:"strat,omitempty"`
	Queue   int    `json:"queue,omitempty"`
	WBuf    int    `json:"wbuf,omitempty"`
	NoPool  bool   `json:"nopool,omitempty"`
	Batch   int    `json:"batch,omitempty"`
	MaxB    int    `json:"maxb,omitempty"`
	Every   int    `json:"every,omitempty"` // half ms
	Latency int    `json:"latency,omitempty"`
	Limit   int    `json:"limit,omitempty"`
}

func init() {
	core.Register(&core.Prop{
		ID:  "C30",
		New: func() any { return &c30Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c30Plan{Healthy: intn(t, "healthy", 1, 3), Sick: pick(t, "sick", 1, 1, 2, 3, 6), Apart: chance(t, "apart", 25), Slow: pick(t, "slow", 0, 0, 0, 40, 400),
				Strat: pick(t, "strat", 0, 0, 1, 1, 2), Queue: pick(t, "queue", 0, 1, 2, 8), WBuf: pick(t, "wbuf", 0, 20, 64, 512), NoPool: chance(t, "nopool", 20),
				Batch: pick(t, "batch", 0, 1, 2, 3), MaxB: pick(t, "maxb", 0, 30, 200), Every: pick(t, "every", 0, 81, 141), Latency: pick(t, "latency", 0, 0, 1), Limit: pick(t, "limit", 0, 0, 0, 3)}
			p.Late = intn(t, "late", 0, 7)
			p.Silent = intn(t, "silent", 0, 63)
			p.Mute = intn(t, "mute", 0, 63)
			for range intn(t, "nh", 3, 30) {
				p.H = append(p.H, ItOp{K: intn(t, "k", 0, heKinds-1), C: intn(t, "c", 0, p.Healthy-1), N: pick(t, "n", 0, 1, 10, 100, 1000), R: intn(t, "r", 1, 2)})
			}
			for range intn(t, "ns", 2, 20) {
				p.S = append(p.S, ItOp{K: intn(t, "k", 0, siKinds-1), C: intn(t, "c", 0, p.Sick-1), N: pick(t, "n", 0, 1, 10, 100, 3000), R: intn(t, "r", 1, 2)})
			}
			return p
		},
		Run:      c30Run,
		Quick:    40000,
		Thorough: 800000,
		Rule:     "1-3 healthy connections follow a script of up to 30 steps, once alone and once beside 1-6 sick connections (peers that take nothing, fail, vanish, flood, break the protocol or stop within a frame, applications that do not read or do not finish messages, slow hooks and middlewares, replaced keys) of the same upgrader, manager, rooms and flusher; non-trivial: a sick connection did something while the healthy ones exchanged at least 3 frames or messages",
	})
}

// itTrace is what one healthy connection saw.
type itTrace struct {
	mu                   sync.Mutex
	frames, reads, steps []string
}

type itSick struct {
	mu   sync.Mutex
	conn *snapws.Conn
	mc   *mem.Conn
	room int
}

func c30Run(c *core.Case, plan any) {
	p := plan.(*c30Plan)
	p.Healthy = min(max(p.Healthy, 1), 3)
	p.Sick = min(max(p.Sick, 1), 6)
	alone := c30Trace(c, p, false)
	if c.Failed() {
		return
	}
	beside := c30Trace(c, p, true)
	if c.Failed() {
		return
	}
	n := 0
	for _, t := range beside {
		n += len(t.frames) + len(t.reads)
	}
	if n >= 3 && len(p.S) > 0 {
		c.NonTrivial()
	}
	c.Class(fmt.Sprint("strategy-", p.Strat))
	for _, o := range p.S {
		c.Class(fmt.Sprint("sick-", o.K))
	}
	what := differ(alone, beside)
	if what == "" {
		return
	}
	// it counts only if no run alone gives what a run beside the sick does
	as, bs := [][]*itTrace{alone}, [][]*itTrace{beside}
	for range 8 {
		as = append(as, c30Trace(c, p, false))
		bs = append(bs, c30Trace(c, p, true))
		if c.Failed() {
			return
		}
		for _, a := range as {
			for _, b := range bs {
				if differ(alone, a) != "" || differ(a, b) == "" {
					c.Class("not-deterministic")
					return
				}
			}
		}
	}
	c.Violate("isolation", "%s", what)
}

func differ(a, b []*itTrace) string {
	for i := range a {
		for _, x := range []struct {
			what string
			a, b []string
		}{{"its peer received", a[i].frames, b[i].frames}, {"its application read", a[i].reads, b[i].reads}, {"its calls gave", a[i].steps, b[i].steps}} {
			for j := range max(len(x.a), len(x.b)) {
				l, r := "nothing more", "nothing more"
				if j < len(x.a) {
					l = x.a[j]
				}
				if j < len(x.b) {
					r = x.b[j]
				}
				if l != r {
					return fmt.Sprintf("healthy connection %d, alone: %s [%s]; beside sick connections: [%s]", i, x.what, l, r)
				}
			}
		}
	}
	return ""
}

func c30Trace(c *core.Case, p *c30Plan, sick bool) []*itTrace {
	const ms = time.Millisecond
	start := time.Now()
	at := func() time.Duration { return time.Since(start) }
	until := func(d time.Duration) {
		// who is late still takes one step at a time
		time.Sleep(max(time.Until(start.Add(d)), 137*time.Microsecond))
	}
	opts := &snapws.Options{WriteWait: 300 * ms, ReadWait: 10 * time.Second, PingEvery: 9 * time.Second, WriteBufferSize: p.WBuf, DisableWriteBuffersPooling: p.NoPool,
		BroadcastChannelsSize: p.Queue, MaxBatchSize: p.MaxB, BroadcastBackpressure: []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[p.Strat%3]}
	if p.Every > 0 {
		opts.PingEvery = time.Duration(p.Every) * ms / 2
	}
	// waiting for the slow is documented: those who do not want it use other rooms
	apart := p.Apart || p.Strat%3 == 2
	all := p.Strat%3 != 2
	slow := func(is bool) {
		if is {
			time.Sleep(time.Duration(p.Slow) * ms)
		}
	}
	opts.Middlwares = append(opts.Middlwares, func(_ http.ResponseWriter, r *http.Request) error {
		slow(r.Header.Get("X-Sick") != "")
		return nil
	})
	var smu sync.Mutex
	isSick := map[*snapws.Conn]bool{}
	sickConn := func(k *snapws.Conn) bool { smu.Lock(); defer smu.Unlock(); return isSick[k] }
	u := snapws.NewUpgrader(opts)
	if p.Limit > 0 {
		u.Limiter = snapws.NewRateLimiter(200, p.Limit)
		u.Limiter.OnRateLimitHit = func(k *snapws.Conn) error { slow(sickConn(k)); return nil }
	}
	bctx, cancel := context.WithCancel(bg)
	defer cancel()
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 20*ms)
	case 2:
		u.EnablePrefixBatching(bctx, 20*ms)
	case 3:
		u.EnableBatching(bctx, 20*ms, func(ctx context.Context, k *snapws.Conn, l [][]byte) error {
			slow(sickConn(k))
			return k.SendBytes(ctx, slices.Concat(l...))
		})
	}
	mgr := snapws.NewManager[int](u)
	mgr.OnRegister = func(k *snapws.ManagedConn[int]) {
		if k.Key >= 100 {
			smu.Lock()
			isSick[k.Conn] = true
			smu.Unlock()
		}
		slow(k.Key >= 100)
	}
	mgr.OnUnregister = func(k *snapws.ManagedConn[int]) { slow(k.Key >= 100) }
	rooms := snapws.NewRoomManager[int](u)
	rooms.DefaultOnJoin = func(_ *snapws.Room[int], k *snapws.Conn, _ ...any) { slow(sickConn(k)) }
	rooms.DefaultOnLeave = rooms.DefaultOnJoin
	rooms.Add(1)
	rooms.Add(2)
	rooms.Add(9)

	var mcs []*mem.Conn
	var conns []*snapws.Conn
	var mmu sync.Mutex
	connect := func(key int, mc *mem.Conn) *snapws.Conn {
		mmu.Lock()
		mcs = append(mcs, mc)
		mmu.Unlock()
		var extra []string
		if key >= 100 {
			extra = []string{"X-Sick: 1\r\n"}
		}
		k, err := mgr.Connect(key, newRW(mc, OpenOpts{}), goodReq(extra...))
		if err != nil {
			return nil
		}
		mmu.Lock()
		conns = append(conns, k.Conn)
		mmu.Unlock()
		tidy(c, k.Conn, mc)
		return k.Conn
	}

	var ops []*core.Op
	out := make([]*itTrace, p.Healthy)
	for i := range p.Healthy {
		t := &itTrace{}
		out[i] = t
		ops = append(ops, c.Go(fmt.Sprint("healthy ", i), func() {
			if p.Late>>i&1 == 1 {
				for j, o := range p.H {
					if o.C == i {
						until(time.Duration(j+1)*10*ms + ms + time.Duration(j+1)*time.Microsecond)
						break
					}
				}
			}
			mc := mem.New(fmt.Sprint("healthy ", i))
			if p.Latency > 0 && (p.WBuf == 0 || p.WBuf > 100) {
				mc.Latency = 1713 * time.Microsecond
			}
			onFrame(mc, func(op int, d []byte) {
				t.mu.Lock()
				t.frames = append(t.frames, fmt.Sprintf("at %v: %s of %d bytes %08x", at(), opName(op), len(d), crc32.ChecksumIEEE(d)))
				t.mu.Unlock()
				if op == ref.Ping {
					f := ref.Frame{Fin: true, Op: ref.Pong, Key: [4]byte{9, 8, 7, 6}, Payload: d}
					mc.Feed(f.Encode(nil))
				}
			})
			note := func(name string, err error) {
				t.mu.Lock()
				t.steps = append(t.steps, fmt.Sprintf("at %v: %s: %v", at(), name, err))
				t.mu.Unlock()
			}
			conn := connect(i, mc)
			if conn == nil {
				note("Connect", errors.New("failed"))
				return
			}
			note("Connect", nil)
			c.Go(fmt.Sprint("reader of healthy ", i), func() {
				for {
					op, d, err := conn.ReadMessage()
					t.mu.Lock()
					t.reads = append(t.reads, fmt.Sprintf("at %v: type %d, %d bytes %08x, error %v", at(), op, len(d), crc32.ChecksumIEEE(d), err))
					t.mu.Unlock()
					if isFatal(err) {
						return
					}
				}
			})
			room := rooms.Get(1 + i%2)
			room.Add(conn)
			note("Room.Add", nil)
			var w *snapws.ConnWriter
			cast := func() context.Context { // as long as a broadcast may wait
				ctx, cancel := context.WithTimeout(bg, 4300*time.Microsecond)
				c.Cleanup(cancel)
				return ctx
			}
			for j, o := range p.H {
				if o.C != i {
					continue
				}
				until(time.Duration(j+1)*10*ms + 3*ms + time.Duration(j+1)*time.Microsecond)
				d := Pay{N: o.N, Seed: uint32(j)}.Text()
				k := o.K
				if w != nil && (k == heSend || k == heText || k == heJSON || k == heHold) {
					k = heFinish // it is held by this one
				}
				var err error
				switch k {
				case heSend:
					err = conn.SendBytes(bg, d)
				case heText:
					err = conn.SendString(nil, d)
				case heJSON:
					err = conn.SendJSON(bg, string(d))
				case hePing:
					err = conn.Ping()
				case heClient:
					mc.Feed(dataFrame(ref.Text, true, d))
				case heClientPing:
					f := ref.Frame{Fin: true, Op: ref.Ping, Key: [4]byte{7, 7, 1, 2}, Payload: d[:min(len(d), 125)]}
					mc.Feed(f.Encode(nil))
				case heRoomCast:
					_, err = rooms.Get(o.R).BroadcastString(cast(), d)
				case heMgrCast:
					if all {
						_, err = mgr.BroadcastBytes(cast(), d)
					}
				case heRoomBatch:
					_, err = rooms.Get(o.R).BatchBroadcast(cast(), []byte("1"))
				case heMgrBatch:
					if all {
						_, err = mgr.BatchBroadcastJSON(cast(), j)
					}
				case heBatch:
					err = conn.Batch([]byte(fmt.Sprint(j)))
				case heMove:
					if r := rooms.Get(3 - o.R); slices.Contains(r.GetAllConns(), conn) {
						r.Move(conn, o.R)
					}
				case heRemove:
					rooms.Get(o.R).Remove(conn)
				case heAdd:
					rooms.Get(o.R).Add(conn)
				case heHold:
					if w, err = conn.NextWriter(bg, snapws.OpcodeText); err == nil {
						_, err = w.Write(d)
					}
				case heFinish:
					if w != nil {
						err = w.Close()
						w = nil
					}
				case heClose:
					conn.CloseWithCode(4000, "done")
				case heLook:
					if mgr.Get(i) != nil && !slices.Contains(mgr.GetAllConnsAsConn(), mgr.Get(i).Conn) {
						err = errors.New("not listed")
					}
					mgr.GetAllConns(i)
					rooms.GetRoomKeys()
					rooms.Get(o.R).GetAllConns(conn)
				case heOwnRoom:
					r := rooms.Add(50 + i)
					r.Add(conn)
					_, err = r.BroadcastBytes(cast(), d)
					r.Remove(conn)
					r.Close()
				}
				note(fmt.Sprint("step ", j, " of kind ", k), err)
			}
		}))
	}

	var sicks []*itSick
	if sick {
		join := func(r int) *snapws.Room[int] {
			if apart {
				r = 9
			}
			return rooms.Get(r)
		}
		for i := range p.Sick {
			s := &itSick{}
			sicks = append(sicks, s)
			enter := func() {
				mc := mem.New(fmt.Sprint("sick ", i))
				if p.Mute>>i&1 == 1 {
					mc.SetCredit(int64(150 * (i % 2)))
				}
				s.mu.Lock()
				s.mc = mc
				s.mu.Unlock()
				conn := connect(100+i, mc)
				if conn == nil {
					return
				}
				s.mu.Lock()
				s.conn = conn
				s.mu.Unlock()
				if p.Silent>>i&1 == 0 {
					c.Go(fmt.Sprint("reader of sick ", i), func() {
						for {
							if _, _, err := conn.ReadMessage(); isFatal(err) {
								return
							}
						}
					})
				}
				if r := join(1 + i%2); r != nil {
					r.Add(conn)
				}
			}
			c.Go(fmt.Sprint("sick ", i), enter)
			for j, o := range p.S {
				if o.C != i {
					continue
				}
				c.Go(fmt.Sprint("sick ", i, " step ", j), func() {
					until(time.Duration(j+1)*10*ms + 5*ms + 500*time.Microsecond + time.Duration(j+1)*time.Microsecond)
					s.mu.Lock()
					conn, mc := s.conn, s.mc
					s.mu.Unlock()
					if conn == nil {
						return
					}
					d := Pay{N: o.N, Seed: uint32(j)}.Bytes()
					switch o.K {
					case siStall:
						mc.SetCredit(int64(o.N % 7))
					case siGo:
						mc.SetCredit(-1)
					case siSlow:
						mc.SetFault(mc.WriteCalls(), mem.Fault{Delay: time.Duration(o.N) * ms})
					case siFail:
						mc.SetFault(mc.WriteCalls(), mem.Fault{Err: true, Partial: 1})
					case siEOF:
						mc.FeedEOF()
					case siViolate:
						mc.Feed(dataFrame(3+o.N%4, true, d))
					case siFlood:
						for n := range 60 {
							mc.Feed(dataFrame([]int{ref.Text, ref.Ping, ref.Pong}[(n+o.R)%3], true, []byte("flood")))
						}
					case siHalf:
						b := dataFrame(ref.Binary, false, d)
						mc.Feed(b[:len(b)/2+1])
					case siSend:
						for range 1 + o.R {
							conn.SendBytes(bg, d)
						}
					case siHold:
						if w, err := conn.NextWriter(bg, snapws.OpcodeText); err == nil {
							w.Write(d)
						}
					case siPing:
						conn.Ping()
					case siClose:
						conn.Close()
					case siCode:
						conn.CloseWithCode(4001, "sick")
					case siMove:
						if r := join(3 - o.R); !apart && slices.Contains(r.GetAllConns(), conn) {
							r.Move(conn, o.R)
						}
					case siRemove:
						if r := join(o.R); r != nil {
							r.Remove(conn)
						}
					case siAdd:
						if r := join(o.R); r != nil {
							r.Add(conn)
						}
					case siBatch:
						for range 20 {
							conn.Batch(d)
						}
					case siReplace:
						enter()
					case siCast:
						if r := join(9); apart && r != nil {
							for range 5 {
								r.BroadcastBytes(bg, d)
								r.BatchBroadcast(bg, []byte("2"))
							}
						}
					case siEmpty:
						if r := join(9); apart && r != nil {
							if o.R == 1 {
								r.RemoveAll()
							} else {
								rooms.Add(9)
								r.Close()
								rooms.Add(9)
							}
						}
					}
				})
			}
		}
	}
	stuck := false
	for _, o := range ops {
		if !o.Wait(time.Minute) {
			stuck = true
		}
	}
	if stuck && !sick {
		c.Violate("hang", "the script of the healthy connections does not end")
	}
	until(time.Duration(max(len(p.H), len(p.S))+1)*10*ms + 50*ms + 700*time.Microsecond)
	for _, t := range out {
		t.mu.Lock() // the trace is complete: what follows is not a part of it
		t.frames, t.reads, t.steps = slices.Clone(t.frames), slices.Clone(t.reads), slices.Clone(t.steps)
		t.mu.Unlock()
	}
	final := make([]*itTrace, len(out))
	for i, t := range out {
		t.mu.Lock()
		final[i] = &itTrace{frames: t.frames, reads: t.reads, steps: t.steps}
		t.mu.Unlock()
	}
	cancel()
	mmu.Lock()
	ms2, cs := slices.Clone(mcs), slices.Clone(conns)
	mmu.Unlock()
	for _, m := range ms2 {
		m.Kill()
	}
	for _, k := range cs {
		k.Close()
	}
	time.Sleep(2*time.Second + 777*time.Microsecond)
	return final
}
