package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	resAnnounced = iota // a frame header announces much, little follows
	resFlood            // very many tiny frames in a row
	resUnread           // the application does not read
	resHistory          // the same traffic again and again
	resKinds
)

// what happens in one round of resHistory
const (
	hisIn      = iota // a message arrives
	hisSend           // a message is sent
	hisStream         // in several frames
	hisJSON           // as JSON
	hisExpired        // a send whose context ends while it waits
	hisPing
	hisRoom // a broadcast
	hisMgr
	hisBatch
	hisBatchAll
	hisJoin   // joins and leaves a room
	hisMove   // to another room and back
	hisNewKey // a room that exists for a moment
	hisChurn  // another connection comes and goes
	hisReject // a request is refused
	hisKinds
)

type hisOp struct {
	Kind int `json:"kind"`
	N    int `json:"n,omitempty"`
	How  int `json:"how,omitempty"`
}

type c28Plan struct {
	Kind   int  `json:"kind"`
	Max    int  `json:"max,omitempty"` // MaxMessageSize
	RBuf   int  `json:"rbuf,omitempty"`
	WBuf   int  `json:"wbuf,omitempty"`
	NoPool bool `json:"nopool,omitempty"`
	Br     int  `json:"br,omitempty"`
	API    int  `json:"api,omitempty"` // how the application reads
	// announced, unread
	Before []InMsg `json:"before,omitempty"`
	Decl   uint64  `json:"decl,omitempty"`
	Op     int     `json:"op,omitempty"`
	Sent   int     `json:"sent,omitempty"`
	Frag   bool    `json:"frag,omitempty"` // announced by a later fragment
	// flood
	Frames []int `json:"frames,omitempty"` // cycle of kinds, see floodFrame
	Count  int   `json:"count,omitempty"`
	Stall  bool  `json:"stall,omitempty"` // the peer takes nothing
	Chunk  int   `json:"chunk,omitempty"`
	// history
	Conns  int     `json:"conns,omitempty"`
	Batch  int     `json:"batch,omitempty"`
	Limit  int     `json:"limit,omitempty"`
	Ops    []hisOp `json:"ops,omitempty"`
	Rounds int     `json:"rounds,omitempty"`
}

func init() {
	core.Register(&core.Prop{
		ID:  "C28",
		New: func() any { return &c28Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c28Plan{Kind: pick(t, "kind", resAnnounced, resFlood, resUnread, resHistory, resHistory)}
			p.RBuf = pick(t, "rbuf", 0, 0, 1, 130, 512, 4096, 65536)
			p.WBuf = pick(t, "wbuf", 0, 0, 64, 512, 4096, 65536)
			p.Br = pick(t, "br", 0, 16, 256, 4096, 8192)
			p.NoPool = chance(t, "nopool", 40)
			p.API = intn(t, "api", 0, 6)
			p.Chunk = pick(t, "chunk", 0, 1, 37, 1000, 4096, 60000)
			switch p.Kind {
			case resAnnounced, resUnread:
				p.Max = pick(t, "max", 0, -1, -1, 1<<30, 3000000)
				for range pick(t, "nbefore", 0, 0, 1, 3) {
					p.Before = append(p.Before, genInMsg(t, 3000, ref.Ping, ref.Pong))
				}
				p.Decl = pick(t, "decl", uint64(1<<20), 1<<20-1, 900000, 1<<21, 2999999, 1<<26, 1<<30, 1<<31, 1<<33, 1<<40, 1<<62, 1<<63-1, 1<<63)
				p.Op = pick(t, "op", ref.Text, ref.Binary)
				p.Frag = chance(t, "frag", 35)
				p.Sent = pick(t, "sent", 0, 1, 10, 511, 513, 5000, 40000)
				if p.Kind == resUnread {
					p.Max, p.Decl = -1, uint64(pick(t, "unread", 1000, 70000, 300000, 1<<20, 3<<20))
				}
			case resFlood:
				p.Max = pick(t, "max", 0, -1)
				p.Count = pick(t, "count", 300, 3000, 20000, 20000)
				for range pick(t, "ncycle", 1, 1, 2, 4) {
					p.Frames = append(p.Frames, intn(t, "frame", 0, 6))
				}
				p.Stall = chance(t, "stall", 40)
			case resHistory:
				p.Conns, p.Batch = intn(t, "conns", 1, 3), intn(t, "batch", 0, 3)
				p.Limit = pick(t, "limit", 0, 0, 5, 1000)
				for range intn(t, "nops", 1, 5) {
					p.Ops = append(p.Ops, hisOp{Kind: intn(t, "op", 0, hisKinds-1), N: pick(t, "n", 0, 1, 20, 200, 5000, 70000), How: intn(t, "how", 0, 7)})
				}
				p.Rounds = pick(t, "rounds", 100, 200, 400)
				if chance(t, "long", 6) {
					p.Rounds = 3000
					for i := range p.Ops {
						p.Ops[i].N = min(p.Ops[i].N, 200)
					}
				}
			}
			return p
		},
		Run:      c28Run,
		Quick:    5000,
		Thorough: 35000,
		Rule:     "one of: headers (first or later fragments) announcing up to 2^63 bytes with little behind them, floods of up to 20000 control frames, empty and tiny fragments and empty messages with a peer that takes the answers or does not, up to 3 MB sent to an application that does not read, and 100-3000 rounds of generated traffic (messages, sends, expired sends, pings, broadcasts, batches, joins, moves, short-lived rooms and connections, refused requests) repeated three times; bytes allocated, heap after garbage collection, stacks, goroutines and bytes taken from the transport are measured; non-trivial: all but plain histories of one operation",
		Assumptions: []string{
			"the bounds leave room for any implementation that does not retain or reserve in proportion to what is announced or has passed: 300 kB of fixed cost, 40 bytes allocated per byte received and 2 kB per frame, 16 kB and 80 objects of growth in each of two repetitions"},
	})
}

type resUse struct {
	total, heap, objects, stack int
	goroutines                  int
}

// use measures after a garbage collection, if gc.
func use(gc bool) resUse {
	synctest.Wait()
	if gc {
		runtime.GC()
		runtime.GC() // pools keep their contents for one collection
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return resUse{int(m.TotalAlloc), int(m.HeapAlloc), int(m.HeapObjects), int(m.StackInuse), runtime.NumGoroutine()}
}

// appRead is an application reading one message in one of the ways there are; stop when false.
func appRead(conn *snapws.Conn, api, i int) bool {
	var err error
	switch api {
	case 0:
		_, _, err = conn.ReadMessage()
	case 1:
		_, err = conn.ReadBinary()
	case 2:
		_, err = conn.ReadString()
	case 3:
		var v any
		err = conn.ReadJSON(&v)
	case 4: // abandoned
		_, _, err = conn.NextReader()
	case 5:
		var r io.Reader
		if r, _, err = conn.NextReader(); err == nil {
			_, err = io.Copy(io.Discard, r)
		}
	case 6: // partly
		var r io.Reader
		if r, _, err = conn.NextReader(); err == nil && i%2 == 0 {
			var b [100]byte
			_, err = r.Read(b[:])
		}
	}
	return !isFatal(err)
}

func c28Reader(c *core.Case, conn *snapws.Conn, api int) {
	c.Go("reader", func() {
		for i := 0; appRead(conn, api, i); i++ {
		}
	})
}

func c28Run(c *core.Case, plan any) {
	p := plan.(*c28Plan)
	if p.Kind == resHistory {
		c28History(c, p)
		return
	}
	c.NonTrivial()
	u := snapws.NewUpgrader(&snapws.Options{MaxMessageSize: p.Max, ReadBufferSize: p.RBuf, WriteBufferSize: p.WBuf, DisableWriteBuffersPooling: p.NoPool,
		SkipUTF8Validation: true, ReadWait: time.Hour, PingEvery: 30 * time.Minute})
	mc := mem.New("c")
	mc.Discard = true
	conn := open(c, u, mc, OpenOpts{Br: p.Br})
	if conn == nil {
		return
	}
	feed := func(b []byte) { chunked(mc, b, []int{max(p.Chunk, len(b)/200)}) }
	switch p.Kind {
	case resAnnounced:
		c28Reader(c, conn, p.API)
		var before []ref.Frame
		for _, m := range p.Before {
			before = append(before, m.frames()...)
		}
		feed(encode(before))
		a := use(true)
		var b []byte
		if p.Frag {
			b = dataFrame(p.Op, false, []byte("[1,"))
			b = append(b, 0x80, 0x80|127)
		} else {
			b = append(b, 0x80|byte(p.Op), 0x80|127)
		}
		b = binary.BigEndian.AppendUint64(b, p.Decl)
		b = append(b, 1, 2, 3, 4)
		b = append(b, bytes.Repeat([]byte{'['}, min(p.Sent, int(min(p.Decl, 1<<20)-1)))...)
		feed(b)
		z := use(false)
		if got, limit := z.total-a.total, 300000+40*len(b); got > limit {
			c.Violate("announced", "%d bytes were allocated for %d received bytes of a frame that announces %d (bound %d)", got, len(b), p.Decl, limit)
		}
		c.Class("announced")
		c28Goroutines(c, a, z, "a frame that announces a lot")
		mc.FeedEOF()
		synctest.Wait()
		if z = use(false); z.total-a.total > 600000+80*len(b) {
			c.Violate("announced", "%d bytes were allocated for %d received bytes of a frame that announces %d and never arrives", z.total-a.total, len(b), p.Decl)
		}
	case resUnread:
		a := use(true)
		data := bytes.Repeat([]byte{'x'}, 1000)
		n := 0
		for i := 0; n < int(p.Decl); i++ {
			b := dataFrame(p.Op, true, data[:(i*37)%1000])
			if i%5 == 4 {
				b = dataFrame(ref.Ping, true, data[:i%126])
			}
			n += len(b)
			mc.Feed(b)
		}
		fed := use(false)
		time.Sleep(time.Minute)
		z := use(false)
		if taken := n - mc.Unread(); taken > 2*max(p.RBuf, p.Br, 4096)+65536 {
			c.Violate("read-ahead", "%d of %d bytes were taken from the transport although the application does not read (read buffer %d)", taken, n, p.RBuf)
		}
		if got := z.total - fed.total; got > 300000 {
			c.Violate("read-ahead", "%d bytes were allocated while nobody reads", got)
		}
		c28Goroutines(c, a, z, "messages nobody reads")
		c.Class("unread")
	case resFlood:
		c28Flood(c, p, conn, mc)
	}
}

func c28Goroutines(c *core.Case, a, z resUse, what string) {
	if z.goroutines > a.goroutines+12 {
		c.Violate("goroutines", "%d goroutines before and %d after %s; one is:\n%s", a.goroutines, z.goroutines, what, firstStack())
	}
}

// floodFrame is frame k of a flood.
func floodFrame(kind int, inMsg *bool, k int) []byte {
	switch kind {
	case 0:
		return dataFrame(ref.Ping, true, nil)
	case 1:
		return dataFrame(ref.Ping, true, bytes.Repeat([]byte{byte(k)}, 125))
	case 2:
		return dataFrame(ref.Pong, true, nil)
	case 3:
		return dataFrame(ref.Pong, true, bytes.Repeat([]byte{byte(k)}, 120))
	}
	op := ref.Binary
	if *inMsg {
		op = ref.Cont
	}
	switch kind {
	case 4: // an empty fragment
		*inMsg = true
		return dataFrame(op, false, nil)
	case 5: // a tiny fragment
		*inMsg = true
		return dataFrame(op, false, []byte{' '})
	default: // an empty end or message
		*inMsg = false
		return dataFrame(op, true, nil)
	}
}

func c28Flood(c *core.Case, p *c28Plan, conn *snapws.Conn, mc *mem.Conn) {
	c28Reader(c, conn, p.API)
	if p.Stall {
		mc.SetCredit(100)
	}
	var b []byte
	in := false
	for k := range p.Count {
		b = append(b, floodFrame(p.Frames[k%len(p.Frames)], &in, k)...)
	}
	size := (max(p.Chunk, len(b)/500) + 8191) &^ 8191 // no waste
	a := use(true)
	for o := 0; o < len(b); o += size {
		mc.Feed(b[o:min(o+size, len(b))])
	}
	z := use(false)
	c28Goroutines(c, a, z, "a flood of small frames")
	if got, limit := z.total-a.total, 300000+40*len(b)+2048*p.Count; got > limit {
		c.Violate("flood-cost", "%d bytes were allocated for %d frames of %d bytes together (bound %d)", got, p.Count, len(b), limit)
	}
	if got := z.stack - a.stack; got > 1<<20 {
		c.Violate("flood-stack", "the stacks grew by %d bytes over %d frames", got, p.Count)
	}
	unread := mc.Unread()
	y := use(true)
	if got := y.heap - a.heap - unread - size; got > 150000 {
		c.Violate("flood-held", "%d bytes more are held after %d frames of %d bytes, %d of which are still unread", got, p.Count, len(b), unread)
	}
	runtime.KeepAlive(b)
	c.Class("flood")
	if p.Stall {
		c.ClassIf(unread > 0, "flood-stalled")
		time.Sleep(time.Minute) // given up
		y = use(true)
		if got := y.heap - a.heap - mc.Unread() - size; got > 150000 {
			c.Violate("flood-held", "%d bytes more are held after the connection has been given up", got)
		}
		c28Goroutines(c, a, use(false), "a flood whose answers were not taken")
	}
}

type c28Rig struct {
	c      *core.Case
	p      *c28Plan
	u      *snapws.Upgrader
	mgr    *snapws.Manager[string]
	rooms  *snapws.RoomManager[string]
	room   *snapws.Room[string]
	other  *snapws.Room[string]
	conns  []*snapws.Conn
	mcs    []*mem.Conn
	refuse bool
	live   context.Context
	n      int
}

func (g *c28Rig) connect(via int, key string) (*snapws.Conn, *mem.Conn) {
	mc := mem.New("c")
	mc.Discard = true
	onFrame(mc, func(op int, d []byte) {
		switch op {
		case ref.Ping:
			mc.Feed((&ref.Frame{Fin: true, Op: ref.Pong, Payload: d}).Encode(nil))
		}
	})
	var conn *snapws.Conn
	var err error
	w := newRW(mc, OpenOpts{Br: g.p.Br})
	switch via {
	case 0:
		conn, err = g.u.Upgrade(w, goodReq())
	case 1:
		var k *snapws.ManagedConn[string]
		if k, err = g.mgr.Connect(key, w, goodReq()); err == nil {
			conn = k.Conn
		}
	default:
		conn, _, err = g.rooms.Connect(w, goodReq(), "r")
	}
	if err != nil {
		g.c.Violate("upgrade-failed", "%v", err)
		return nil, nil
	}
	go func() {
		for i := 0; appRead(conn, g.p.API, i); i++ {
		}
	}()
	return conn, mc
}

func (g *c28Rig) step(o hisOp) {
	g.n++
	conn, mc := g.conns[g.n%len(g.conns)], g.mcs[g.n%len(g.conns)]
	data := bytes.Repeat([]byte{'1'}, o.N+1)
	ctx, cancel := g.live, context.CancelFunc(func() {})
	switch o.How % 4 {
	case 1:
		ctx = nil
	case 2:
		ctx = bg
	case 3:
		ctx, cancel = context.WithTimeout(g.live, 20*time.Second)
	}
	defer cancel()
	var err error
	switch o.Kind {
	case hisIn:
		op := ref.Text
		if o.How&1 > 0 {
			op = ref.Binary
		}
		switch o.How >> 1 {
		case 0:
			mc.Feed(dataFrame(op, true, data))
		case 1:
			mc.Feed(dataFrame(op, false, data))
			mc.Feed(dataFrame(ref.Ping, true, data[:min(len(data), 125)]))
			mc.Feed(dataFrame(ref.Cont, true, data))
		case 2:
			mc.Feed(dataFrame(op, false, data))
			mc.Feed(dataFrame(ref.Pong, true, data[:min(len(data), 125)]))
			mc.Feed(dataFrame(ref.Cont, false, nil))
			mc.Feed(dataFrame(ref.Cont, true, nil))
		case 3:
			mc.Feed(dataFrame(ref.Ping, true, data[:min(len(data), 125)]))
			mc.Feed(dataFrame(op, true, []byte("[}")))
		}
		synctest.Wait()
	case hisSend:
		err = conn.SendBytes(ctx, data)
	case hisStream:
		var w *snapws.ConnWriter
		if w, err = conn.NextWriter(ctx, snapws.OpcodeBinary); err == nil {
			w.Write(data)
			w.Flush()
			w.Write(data)
			err = w.Close()
		}
	case hisJSON:
		err = conn.SendJSON(ctx, map[string]any{"a": string(data), "b": []int{1, 2}})
		if o.How > 3 && conn.SendJSON(ctx, func() {}) == nil {
			err = errors.New("a function was sent as JSON")
		}
	case hisExpired:
		var w *snapws.ConnWriter
		if w, err = conn.NextWriter(ctx, snapws.OpcodeBinary); err == nil {
			short, stop := context.WithTimeout(g.live, time.Millisecond)
			if conn.SendBytes(short, data) == nil {
				err = errors.New("sent while another message was being written")
			}
			stop()
			e := w.Close()
			if err == nil {
				err = e
			}
		}
	case hisPing:
		if err = conn.Ping(); err == snapws.ErrPingAlreadySent {
			err = nil
		}
		synctest.Wait()
	case hisRoom:
		_, err = g.room.BroadcastBytes(ctx, data)
	case hisMgr:
		_, err = g.mgr.BroadcastString(ctx, data, keyName("k", 0))
	case hisBatch:
		if g.p.Batch > 0 {
			err = conn.Batch(data)
		}
	case hisBatchAll:
		if g.p.Batch > 0 {
			_, err = g.room.BatchBroadcast(ctx, data)
		}
	case hisJoin:
		g.other.Add(conn, 1, "x")
		g.other.Remove(conn)
	case hisMove:
		g.room.Move(conn, "other")
		g.other.Move(conn, "r")
	case hisNewKey:
		r := g.rooms.Add(fmt.Sprint("room ", g.n))
		r.Add(conn, data)
		if o.How&1 > 0 {
			r.Remove(conn)
		}
		r.Close()
	case hisChurn:
		k, kmc := g.connect(o.How%3, fmt.Sprint("churn ", g.n))
		if k == nil {
			return
		}
		g.room.Add(k)
		g.other.Add(k, data)
		kmc.Feed(dataFrame(ref.Binary, true, data))
		k.SendBytes(nil, data)
		if g.p.Batch > 0 {
			k.Batch(data)
		}
		synctest.Wait()
		switch o.How >> 1 {
		case 0:
			k.Close()
		case 1:
			kmc.Feed(closeFrame(1000, ""))
		case 2:
			kmc.FeedEOF()
		default:
			kmc.Kill()
		}
		time.Sleep(time.Millisecond)
		kmc.Kill()
		k.Close()
	case hisReject:
		kmc := mem.New("c")
		kmc.Discard = true
		w := newRW(kmc, OpenOpts{})
		r := goodReq()
		switch o.How % 4 {
		case 0:
			r.Header.Del("Upgrade")
		case 1:
			g.refuse = true
		case 2:
			w.failHij = errors.New("no")
		case 3:
			kmc.SetFault(0, mem.Fault{Err: true})
		}
		if o.How < 4 {
			_, err = g.u.Upgrade(w, r)
		} else {
			_, err = g.mgr.Connect(fmt.Sprint("rejected ", g.n), w, r)
		}
		g.refuse = false
		if err == nil {
			err = errors.New("a request that must be refused was not")
		} else {
			err = nil
		}
	}
	if err != nil {
		g.c.Violate("failed", "operation %v failed: %v", o, err)
	}
	if g.n%16 == 0 {
		time.Sleep(100 * time.Millisecond)
	}
}

func c28History(c *core.Case, p *c28Plan) {
	g := &c28Rig{c: c, p: p}
	opts := &snapws.Options{ReadBufferSize: p.RBuf, WriteBufferSize: p.WBuf, DisableWriteBuffersPooling: p.NoPool, SkipUTF8Validation: p.Limit > 0,
		BroadcastBackpressure: snapws.BackpressureWait, ReadWait: 1000 * time.Hour, PingEvery: time.Hour}
	opts.Middlwares = []snapws.Middlware{func(http.ResponseWriter, *http.Request) error {
		if g.refuse {
			return errors.New("no")
		}
		return nil
	}}
	g.u = snapws.NewUpgrader(opts)
	if p.Limit > 0 {
		g.u.Limiter = snapws.NewRateLimiter(p.Limit, p.Limit)
	}
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		g.u.EnableJSONBatching(bctx, 50*time.Millisecond)
	case 2:
		g.u.EnablePrefixBatching(bctx, 50*time.Millisecond)
	case 3:
		g.u.EnableBatching(bctx, 50*time.Millisecond, func(ctx context.Context, k *snapws.Conn, m [][]byte) error {
			return k.SendBytes(ctx, m[0])
		})
	}
	var lcancel context.CancelFunc
	g.live, lcancel = context.WithCancel(bg)
	c.Cleanup(lcancel)
	g.mgr = snapws.NewManager[string](g.u)
	g.rooms = snapws.NewRoomManager[string](g.u)
	g.room, g.other = g.rooms.Add("r"), g.rooms.Add("other")
	phase := func(name string, rounds int) bool {
		return c.Must("hang", name, 100*time.Hour, func() {
			for range rounds {
				for _, o := range p.Ops {
					if g.step(o); c.Failed() {
						return
					}
				}
			}
			time.Sleep(30 * time.Second) // all timers run out
		}) && !c.Failed()
	}
	if !c.Must("hang", "connecting", time.Hour, func() {
		for i := range p.Conns {
			conn, mc := g.connect(1, keyName("k", i))
			if conn == nil {
				return
			}
			tidy(c, conn, mc)
			g.room.Add(conn)
			g.conns, g.mcs = append(g.conns, conn), append(g.mcs, mc)
		}
	}) || c.Failed() {
		return
	}
	idle := use(true)
	if !phase("warming up", 20) {
		return
	}
	a := use(true)
	if !phase("the first repetition", p.Rounds) {
		return
	}
	m := use(true)
	if !phase("the second repetition", p.Rounds) {
		return
	}
	z := use(true)
	ops := p.Rounds * len(p.Ops)
	if len(p.Ops) > 1 {
		c.NonTrivial()
	}
	c.Class("history")
	for _, o := range p.Ops {
		c.ClassIf(o.Kind == hisChurn, "churn")
		c.ClassIf(o.Kind == hisExpired, "expired-sends")
	}
	if c.Trace {
		c.Logf("idle %+v\nafter warming up %+v\nafter %d operations %+v\nafter as many again %+v", idle, a, ops, m, z)
	}
	c28Goroutines(c, idle, z, fmt.Sprint(2*ops, " operations"))
	if g1, g2 := m.goroutines-a.goroutines, z.goroutines-m.goroutines; g1 > 0 && g2 > 0 {
		c.Violate("goroutines", "the goroutines grew by %d and again by %d over %d operations each", g1, g2, ops)
	}
	d1, d2 := m.heap-a.heap, z.heap-m.heap
	o1, o2 := m.objects-a.objects, z.objects-m.objects
	if d1 > 16000 && d2 > 16000 || o1 > 80 && o2 > 80 {
		c.Violate("held", "the memory held grew by %d and again by %d bytes (%d and %d objects) over %d operations each that leave nothing behind", d1, d2, o1, o2, ops)
	}
	if got := z.heap - idle.heap; got > 400000 {
		c.Violate("held", "%d bytes more are held than before %d operations that leave nothing behind", got, 2*ops)
	}
	// one of each, large
	if !c.Must("hang", "large messages", 100*time.Hour, func() {
		g.n = -1
		for _, o := range []hisOp{{Kind: hisIn, How: p.Rounds / 100}, {Kind: hisSend}, {Kind: hisJSON}, {Kind: hisRoom}, {Kind: hisMgr}, {Kind: hisBatch}} {
			o.N = 500000
			g.step(o)
			time.Sleep(time.Second)
		}
		time.Sleep(30 * time.Second)
	}) || c.Failed() {
		return
	}
	if y := use(true); y.heap-z.heap > 300000 {
		c.Violate("held", "%d bytes more are held after messages of 500000 bytes have been received and sent", y.heap-z.heap)
	}
}
