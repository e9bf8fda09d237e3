package props

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sync/atomic"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// operations of a concurrent program
const (
	cpSend = iota
	cpSendJSON
	cpStream // a writer that is taken, written to, flushed and closed
	cpHold   // a writer that is taken and finished by a later operation of the same thread
	cpFinish
	cpPing
	cpClose
	cpMeta
	cpBatch
	cpBatchJSON
	cpMgrBroadcast
	cpMgrBatch
	cpMgrConnect
	cpMgrRegister
	cpMgrQuery
	cpMgrUse // an operation on whatever connection the manager returns
	cpMgrShutdown
	cpRmConnect
	cpRmAdd
	cpRmQuery
	cpRmShutdown
	cpRoomJoin
	cpRoomLeave
	cpRoomMove
	cpRoomBroadcast
	cpRoomBatch
	cpRoomQuery
	cpRoomUse
	cpRoomClose
	cpRoomRemoveAll
	cpFlusherClose
	cpBatchCancel
	cpClientMsg
	cpClientPing
	cpClientClose
	cpReset
	cpFault
	cpUpgradeBad
	cpKinds
)

// weights of the operations that end things are low
var cpWeighted = func() []int {
	var w []int
	for k := range cpKinds {
		n := 4
		switch k {
		case cpSend, cpStream, cpMgrBroadcast, cpRoomBroadcast, cpBatch, cpRoomJoin, cpRoomLeave, cpRoomMove, cpClientMsg:
			n = 7
		case cpMgrShutdown, cpRmShutdown, cpFlusherClose, cpBatchCancel, cpRoomRemoveAll:
			n = 1
		case cpReset, cpFault, cpUpgradeBad, cpClientClose:
			n = 2
		}
		for range n {
			w = append(w, k)
		}
	}
	return w
}()

// CpOp is one operation of a thread.
type CpOp struct {
	K  int `json:"k"`
	I  int `json:"i,omitempty"`
	R  int `json:"r,omitempty"`
	N  int `json:"n,omitempty"`
	At int `json:"at,omitempty"`
	V  int `json:"v,omitempty"`
}

type c25Plan struct {
	Conns    int      `json:"conns"`
	WriteBuf int      `json:"writebuf,omitempty"`
	NoPool   bool     `json:"nopool,omitempty"`
	Queue    int      `json:"queue,omitempty"`
	Strategy int      `json:"strategy,omitempty"`
	Batch    int      `json:"batch,omitempty"` // 1 JSON, 2 prefix, 3 custom
	MaxBatch int      `json:"maxbatch,omitempty"`
	Limit    bool     `json:"limit,omitempty"`
	Hooks    int      `json:"hooks,omitempty"`
	Every    int      `json:"every,omitempty"` // keepalive period in ms
	Latency  int      `json:"latency,omitempty"`
	Read     int      `json:"read,omitempty"`
	Threads  [][]CpOp `json:"threads"`
}

func init() {
	core.Register(&core.Prop{
		ID:         "C25",
		RaceShards: 8,
		New:        func() any { return &c25Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c25Plan{Conns: pick(t, "conns", 1, 1, 2, 2, 3, 5), WriteBuf: pick(t, "writebuf", 0, 20, 64), NoPool: chance(t, "nopool", 20), Queue: pick(t, "queue", 0, 1, 2), Strategy: intn(t, "strategy", 0, 2),
				Batch: intn(t, "batch", 0, 3), MaxBatch: pick(t, "maxbatch", 0, 0, 40, 200), Limit: chance(t, "limit", 30), Hooks: pick(t, "hooks", 0, 0, 1, 2, 3, 255), Every: pick(t, "every", 0, 0, 1, 3), Latency: pick(t, "latency", 0, 0, 1), Read: intn(t, "read", 0, 4)}
			for range intn(t, "nthreads", 2, 6) {
				var l []CpOp
				for range intn(t, "nops", 1, 12) {
					l = append(l, CpOp{K: rapid.SampledFrom(cpWeighted).Draw(t, "k"), I: intn(t, "i", 0, p.Conns-1), R: intn(t, "r", 0, 2), N: pick(t, "n", 0, 1, 5, 30, 126, 700), At: pick(t, "at", 0, 0, 0, 0, 1, 2, 5), V: intn(t, "v", 0, 7)})
				}
				p.Threads = append(p.Threads, l)
			}
			if chance(t, "same", 30) { // all threads do (nearly) the same at the same time
				for i := range p.Threads {
					p.Threads[i] = p.Threads[0]
				}
			}
			return p
		},
		Run:      c25Run,
		Quick:    24000,
		Thorough: 250000,
		Rule:     "2-6 threads run 1-12 operations each out of 38 kinds on 1-5 shared connections with one reader each, a manager, a room manager with three rooms, the limiter and the batcher, with hooks, keepalive, pooled and unpooled buffers, transport faults; everything runs under the race detector; non-trivial: at least two threads with different operations overlapped on the same objects (two threads of at least two operations each)",
		Assumptions: []string{
			"configuration (Options, hooks, Flusher fields) is not changed while connections are in use",
			"the race detector sees races of the executed schedules only; the harness adds no synchronisation between the threads other than that of the transports"},
	})
}

func c25Run(c *core.Case, plan any) {
	p := plan.(*c25Plan)
	ms := time.Millisecond
	if p.Conns < 1 {
		return
	}
	opts := &snapws.Options{WriteWait: 100 * ms, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, WriteBufferSize: p.WriteBuf, DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: p.Queue, BroadcastBackpressure: snapws.BackpressureStrategy(p.Strategy), MaxBatchSize: p.MaxBatch, SubProtocols: []string{"a", "b"}}
	if p.Every > 0 {
		opts.PingEvery, opts.ReadWait = time.Duration(p.Every)*ms, time.Duration(p.Every)*3*ms
	}
	u := snapws.NewUpgrader(opts)
	// contexts end by themselves: registering cleanups would synchronise the threads
	soon := func() context.Context {
		ctx, cancel := context.WithTimeout(bg, 30*ms)
		time.AfterFunc(time.Minute, cancel)
		return ctx
	}
	if p.Limit {
		u.Limiter = snapws.NewRateLimiter(1000, 2)
		if p.Hooks&2 != 0 {
			u.Limiter.OnRateLimitHit = func(k *snapws.Conn) error {
				k.MetaData.Store("hit", 1)
				if p.Hooks&4 != 0 {
					k.CloseWithCode(snapws.ClosePolicyViolation, "slow down")
					return errors.New("too fast")
				}
				return nil
			}
		}
	}
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 2*ms)
	case 2:
		u.EnablePrefixBatching(bctx, 2*ms)
	case 3:
		u.EnableBatching(bctx, 2*ms, func(ctx context.Context, k *snapws.Conn, m [][]byte) error {
			for _, b := range m {
				if err := k.SendBytes(ctx, b); err != nil {
					return err
				}
			}
			return nil
		})
	}
	if p.Batch > 0 && p.Batch < 3 && p.Hooks&8 != 0 {
		u.Flusher.BatchPrefixFunc = func(k *snapws.Conn, m [][]byte) []byte { k.MetaData.Store("n", len(m)); return nil }
	}
	if p.Batch > 0 {
		c.Cleanup(u.Flusher.Close)
	}
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[int](u)
	var depth atomic.Int32
	hook := func(k *snapws.Conn, bit int) {
		k.MetaData.Store(bit, "hook")
		if p.Hooks&bit == 0 || depth.Add(1) > 40 {
			return
		}
		switch bit {
		case 1:
			k.SendString(soon(), []byte("welcome"))
		case 2:
			mgr.GetAllConns()
			if r := rooms.Get(1); r != nil {
				r.GetAllConns(k)
			}
		case 16:
			if r := rooms.Get(0); r != nil {
				r.BroadcastBytes(soon(), []byte("joined"), k)
			}
		case 32:
			mgr.BroadcastString(soon(), []byte("left"))
		}
	}
	u.OnConnect = func(k *snapws.Conn) { hook(k, 1) }
	u.OnDisconnect = func(k *snapws.Conn) { hook(k, 2) }
	mgr.OnRegister = func(m *snapws.ManagedConn[string]) { hook(m.Conn, 16) }
	mgr.OnUnregister = func(m *snapws.ManagedConn[string]) { hook(m.Conn, 32) }
	rooms.DefaultOnJoin = func(_ *snapws.Room[int], k *snapws.Conn, _ ...any) { hook(k, 16) }
	rooms.DefaultOnLeave = func(_ *snapws.Room[int], k *snapws.Conn, _ ...any) { hook(k, 32) }
	u.Use(func(w http.ResponseWriter, r *http.Request) error {
		if r.Header.Get("X-Refuse") != "" {
			return snapws.NewMiddlewareErr(403, "no")
		}
		return nil
	})
	var initial [3]*snapws.Room[int]
	for i := range initial {
		initial[i] = rooms.Add(i)
	}
	// reader reads in one of the documented ways
	reader := func(name string, conn *snapws.Conn, how int) {
		c.Go("reader of "+name, func() {
			buf := make([]byte, 40)
			for i := how; ; i++ {
				var err error
				switch {
				case i%5 == 0:
					_, _, err = conn.ReadMessage()
				case i%5 == 1:
					_, err = conn.ReadString()
				case i%5 == 2:
					var v any
					err = conn.ReadJSON(&v)
				case i%5 == 3:
					_, err = conn.ReadBinary()
				default:
					var r io.Reader
					if r, _, err = conn.NextReader(); err == nil {
						for err == nil {
							_, err = r.Read(buf)
						}
						if err == io.EOF {
							err = nil
						}
					}
				}
				if isFatal(err) {
					return
				}
			}
		})
	}
	newMC := func(name string) *mem.Conn {
		mc := mem.New(name)
		mc.Latency = time.Duration(p.Latency) * ms
		if p.Every > 0 {
			answerPings(mc)
		}
		return mc
	}
	type cpc struct {
		mc   *mem.Conn
		conn *snapws.Conn
		man  *snapws.ManagedConn[string]
	}
	conns := make([]*cpc, p.Conns)
	for i := range conns {
		k := &cpc{mc: newMC(fmt.Sprint("connection ", i))}
		man, err := mgr.Connect(fmt.Sprint("c", i), newRW(k.mc, OpenOpts{}), goodReq())
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		k.conn, k.man = man.Conn, man
		tidy(c, k.conn, k.mc)
		conns[i] = k
		rooms.Get(i%3).Add(k.conn, i)
		reader(fmt.Sprint(i), k.conn, p.Read+i)
	}
	var ops []*core.Op
	for th, l := range p.Threads {
		ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
			held := map[int]*snapws.ConnWriter{}
			finish := func(i int) {
				if w := held[i]; w != nil {
					delete(held, i)
					w.Write([]byte("end"))
					w.Close()
				}
			}
			defer func() {
				for i := range held {
					finish(i)
				}
			}()
			data := func(n int) []byte { return Pay{N: n, Seed: uint32(th)}.Text() }
			use := func(k *snapws.Conn, v, n int) {
				switch v {
				case 0, 1:
					k.SendString(soon(), data(n))
				case 2:
					k.Ping()
				case 3:
					k.MetaData.Range(func(_, _ any) bool { return true })
					_ = k.SubProtocol
					k.NetConn()
				case 4:
					k.Batch(data(n))
				case 5:
					rooms.Add(1).Add(k)
				case 6:
					rooms.Add(2).Remove(k)
				case 7:
					k.Close()
				}
			}
			for at, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				k := conns[o.I%len(conns)]
				// looking a room up would synchronise with the operation before
				room := initial[o.R%3]
				if o.N%2 == 1 && o.K >= cpMgrConnect {
					if room = rooms.Get(o.R); room == nil {
						room = rooms.Add(o.R)
					}
				}
				switch o.K {
				case cpSend:
					k.conn.SendMessage(soon(), uint8(1+o.V%2), data(o.N))
				case cpSendJSON:
					k.conn.SendJSON(soon(), map[string]int{"a": o.N})
				case cpStream:
					if w, err := k.conn.NextWriter(soon(), uint8(1+o.V%2)); err == nil {
						for range 1 + o.V {
							w.Write(data(o.N))
							if o.V%3 == 1 {
								w.Flush()
							}
						}
						w.Close()
						if o.V > 5 {
							w.Write([]byte("late"))
							w.Flush()
							w.Close()
						}
					}
				case cpHold:
					if held[o.I] == nil {
						if w, err := k.conn.NextWriter(soon(), uint8(1+o.V%2)); err == nil {
							w.Write(data(o.N))
							held[o.I] = w
						}
					} else {
						held[o.I].Write(data(o.N))
					}
				case cpFinish:
					finish(o.I)
				case cpPing:
					k.conn.Ping()
				case cpClose:
					if o.V < 3 {
						k.conn.CloseWithCode(uint16(1000+o.V), "bye")
					} else if o.V < 5 {
						k.conn.Close()
					} else {
						use(k.conn, 3, 0)
					}
				case cpMeta:
					k.conn.MetaData.Store(o.V, o.N)
					k.conn.MetaData.Load(o.V)
				case cpBatch:
					k.conn.Batch(data(o.N))
				case cpBatchJSON:
					k.conn.BatchJSON(o.N)
				case cpMgrBroadcast:
					switch o.V % 3 {
					case 0:
						mgr.BroadcastString(soon(), data(o.N))
					case 1:
						mgr.BroadcastBytes(soon(), data(o.N), "c0", "nobody")
					case 2:
						mgr.BroadcastJSON(soon(), o.N, "c1")
					}
				case cpMgrBatch:
					if o.V%2 == 0 {
						mgr.BatchBroadcast(soon(), data(o.N))
					} else {
						mgr.BatchBroadcastJSON(soon(), o.N, "c0")
					}
				case cpMgrConnect:
					name := fmt.Sprint("c", o.V)
					mc := newMC("another " + name)
					if m, err := mgr.Connect(name, newRW(mc, OpenOpts{}), goodReq("Sec-WebSocket-Protocol: b\r\n")); err == nil {
						tidy(c, m.Conn, mc)
						reader(name, m.Conn, o.V)
						if o.V > 3 {
							room.Add(m.Conn)
						}
					}
				case cpMgrRegister:
					mgr.Register(k.man.Key, k.man)
				case cpMgrQuery:
					switch o.V % 4 {
					case 0:
						mgr.Get(fmt.Sprint("c", o.I))
					case 1:
						mgr.GetAllConns("c0")
					case 2:
						mgr.GetAllConnsAsConn()
					case 3:
						mgr.GetAllConnsAsConn("c0", "c1")
					}
				case cpMgrUse:
					if o.V < 4 {
						if m := mgr.Get(fmt.Sprint("c", o.I)); m != nil {
							use(m.Conn, o.V, o.N)
						}
					} else {
						for _, m := range mgr.GetAllConnsAsConn("c0") {
							use(m, o.V, o.N)
							break
						}
					}
				case cpMgrShutdown:
					mgr.Shutdown()
				case cpRmConnect:
					mc := newMC("a member")
					if conn, _, err := rooms.Connect(newRW(mc, OpenOpts{}), goodReq(), o.R, o.V); err == nil {
						tidy(c, conn, mc)
						reader("member", conn, o.V)
					}
				case cpRmAdd:
					if o.V < 5 { // a new one
						rooms.Add(100*(th+1) + at)
					} else {
						rooms.Add(o.V)
					}
				case cpRmQuery:
					if o.V%2 == 0 {
						rooms.GetRoomKeys()
					} else {
						rooms.Get(o.V)
					}
				case cpRmShutdown:
					rooms.Shutdown()
				case cpRoomJoin:
					room.Add(k.conn, o.V)
				case cpRoomLeave:
					room.Remove(k.conn)
				case cpRoomMove:
					room.Move(k.conn, o.V%3)
				case cpRoomBroadcast:
					switch o.V % 3 {
					case 0:
						room.BroadcastString(soon(), data(o.N))
					case 1:
						room.BroadcastBytes(soon(), data(o.N), k.conn)
					case 2:
						room.BroadcastJSON(soon(), "x")
					}
				case cpRoomBatch:
					if o.V%2 == 0 {
						room.BatchBroadcast(soon(), data(o.N))
					} else {
						room.BatchBroadcastJSON(soon(), []int{1}, k.conn)
					}
				case cpRoomQuery:
					room.GetAllConns(k.conn)
				case cpRoomUse:
					for _, m := range room.GetAllConns() {
						use(m, o.V, o.N)
						break
					}
				case cpRoomClose:
					if o.V < 5 {
						rooms.Add(100*(th+1) + o.R).Close()
					} else {
						room.Close()
					}
				case cpRoomRemoveAll:
					room.RemoveAll()
				case cpFlusherClose:
					if p.Batch > 0 {
						u.Flusher.Close()
						u.Flusher.IsClosed()
					}
				case cpBatchCancel:
					bcancel()
				case cpClientMsg:
					s := string(data(o.N))
					if o.V > 5 {
						s = fmt.Sprintf("%q", s)
					}
					op := ref.Text
					if o.V%2 == 0 {
						op = ref.Binary
					}
					if n := len(s) / 2; o.V < 3 {
						f := append(dataFrame(op, false, []byte(s[:n])), dataFrame(ref.Cont, true, []byte(s[n:]))...)
						k.mc.Feed(f)
					} else {
						k.mc.Feed(dataFrame(op, true, []byte(s)))
					}
				case cpClientPing:
					f := ref.Frame{Fin: true, Op: ref.Ping, Key: [4]byte{1, 2, 3, 4}, Payload: data(min(o.N, 125))}
					if o.V > 4 {
						f.Op = ref.Pong
					}
					k.mc.Feed(f.Encode(nil))
				case cpClientClose:
					k.mc.Feed(closeFrame(1001, "x"))
				case cpReset:
					k.mc.Kill()
				case cpFault:
					f := mem.Fault{Delay: time.Duration(o.V) * 3 * ms}
					switch o.V {
					case 0:
						f = mem.Fault{Err: true, Partial: 1}
					case 1:
						f = mem.Fault{Stall: true}
					}
					k.mc.SetFault(k.mc.WriteCalls(), f)
				case cpUpgradeBad:
					mc := newMC("refused")
					if o.V%2 == 0 {
						u.Upgrade(newRW(mc, OpenOpts{}), goodReq("X-Refuse: 1\r\n"))
					} else {
						w := newRW(mc, OpenOpts{})
						w.failHij = errors.New("no hijacking")
						u.Upgrade(w, goodReq())
					}
				}
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	bcancel()
	for _, k := range conns {
		k.conn.Close()
	}
	time.Sleep(time.Second)
	for _, k := range conns {
		validWire(c, k.mc)
	}
	n := 0
	for _, l := range p.Threads {
		if len(l) > 1 {
			n++
		}
	}
	if n > 1 {
		c.NonTrivial()
	}
	c.ClassIf(p.Batch > 0, "batching")
	c.ClassIf(p.Every > 0, "keepalive")
	c.ClassIf(p.Hooks > 0, "hooks")
}
