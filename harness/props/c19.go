package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	bcString = iota
	bcBytes
	bcJSON
	bcBadJSON
	bcJoin  // connection I joins room Tgt
	bcLeave // connection I leaves room Tgt
	bcClose // connection I closes
	bcSend  // a message on connection I alone
	bcStream
)

// BcOp is one broadcast, or something happening around it.
type BcOp struct {
	K    int   `json:"k"`
	Tgt  int   `json:"t,omitempty"` // 0, 1: rooms, 2: manager
	Pay  Pay   `json:"pay"`
	Ex   []int `json:"ex,omitempty"`  // excluded connections (-1: nil or an unknown key)
	Ctx  int   `json:"ctx,omitempty"` // 0 background, 1 nil, 2 live, 3 already cancelled, 4 ends after Ms
	Ms   int   `json:"ms,omitempty"`
	At   int   `json:"at,omitempty"` // ms before the operation
	I    int   `json:"i,omitempty"`
	Cuts []int `json:"cuts,omitempty"`
}

type c19Plan struct {
	Member   []int    `json:"member"` // stable connections: bit set of groups
	Churn    []int    `json:"churn,omitempty"`
	Queue    int      `json:"queue,omitempty"`
	Strategy int      `json:"strategy,omitempty"`
	WriteBuf int      `json:"writebuf,omitempty"`
	Latency  []int    `json:"latency,omitempty"`
	Seq      []BcOp   `json:"seq,omitempty"`
	Conc     [][]BcOp `json:"conc,omitempty"`
}

func genBcOp(t *rapid.T, n, max int, kinds ...int) BcOp {
	o := BcOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), Tgt: intn(t, "tgt", 0, 2), I: intn(t, "i", 0, n-1)}
	if o.K <= bcBadJSON || o.K >= bcSend {
		o.Pay = genPay(t, max)
	}
	if o.K >= bcSend { // one small write buffer after the other
		o.Pay.N = min(o.Pay.N, 1500)
	}
	if o.K <= bcBadJSON {
		if chance(t, "ex", 50) {
			for range pick(t, "nex", 1, 1, 2, 3, 4, 4, 9, 17, 33, 65, n) {
				o.Ex = append(o.Ex, intn(t, "x", -1, n-1))
			}
		}
		o.Ctx = pick(t, "ctx", 0, 0, 0, 1, 2, 2, 3, 4)
		if o.Ctx == 4 {
			o.Ms = pick(t, "ms", 1, 2, 5, 20)
		}
	}
	if o.K == bcStream {
		for range intn(t, "nw", 0, 4) {
			o.Cuts = append(o.Cuts, intn(t, "cutAt", 0, o.Pay.N))
		}
	}
	return o
}

func init() {
	core.Register(&core.Prop{
		ID:         "C19",
		RaceShards: 1,
		New:        func() any { return &c19Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c19Plan{Queue: pick(t, "queue", 0, 0, 1, 2, 3, 30), Strategy: intn(t, "strategy", 0, 2), WriteBuf: pick(t, "writebuf", 0, 0, 20, 64, 300)}
			n := pick(t, "n", 1, 2, 3, 4, 6, 8)
			if chance(t, "many", 5) {
				n = pick(t, "nmany", 20, 33)
			}
			for range n {
				p.Member = append(p.Member, intn(t, "member", 0, 7))
			}
			for range pick(t, "nchurn", 0, 0, 1, 2, 3) {
				p.Churn = append(p.Churn, intn(t, "cmember", 0, 7))
			}
			p.Latency = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 7}), 0, 4).Draw(t, "latency")
			all := n + len(p.Churn)
			max := 200000
			if n > 8 {
				max = 9000
			}
			for range intn(t, "nseq", 0, 8) {
				p.Seq = append(p.Seq, genBcOp(t, all, max, bcString, bcString, bcBytes, bcBytes, bcJSON, bcBadJSON, bcJoin, bcLeave, bcClose, bcSend))
				p.Seq[len(p.Seq)-1].At = pick(t, "idle", 0, 0, 0, 0, 0, 0, 15, 25000)
			}
			if chance(t, "conc", 65) {
				for range intn(t, "nthreads", 2, 4) {
					var l []BcOp
					for range intn(t, "nops", 1, 6) {
						o := genBcOp(t, all, 9000, bcString, bcString, bcBytes, bcJSON, bcSend, bcStream, bcJoin, bcLeave, bcClose)
						o.At = pick(t, "at", 0, 0, 0, 0, 0, 1, 1, 3, 3, 25000)
						l = append(l, o)
					}
					p.Conc = append(p.Conc, l)
				}
			}
			return p
		},
		Run:      c19Run,
		Quick:    40000,
		Thorough: 350000,
		Rule:     "1-8 (sometimes 20 or 33) stable connections and 0-3 churning ones in two rooms and a manager; a sequential history of broadcasts of every kind, payload size, exclusion list and context mixed with joins, leaves, closes and plain sends, each judged exactly; then 0-4 concurrent threads of broadcasts, sends, joins, leaves and closes judged by intervals; non-trivial: a broadcast had at least two recipients or one excluded member",
		Assumptions: []string{
			"a broadcast whose context ends may reach any subset of its recipients",
			"in the concurrent part a connection that joins, leaves or closes during a broadcast may or may not get it"},
	})
}

type bcConn struct {
	i    int
	mc   *mem.Conn
	mcn  *snapws.ManagedConn[string]
	seen int // messages already judged
}

type bcRec struct {
	o          BcOp
	src, seq   int
	op         int
	data       []byte
	n          int
	err        error
	start, end int64
	only       *bcConn // a plain send
	got        int
	sure, may  map[*bcConn]bool
}

type bcSpan struct {
	k          *bcConn
	g          int
	join       bool
	start, end int64
}

func c19Run(c *core.Case, plan any) {
	p := plan.(*c19Plan)
	if len(p.Member) == 0 {
		return
	}
	ms := time.Millisecond
	opts := &snapws.Options{WriteWait: 20 * time.Second, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, BroadcastChannelsSize: p.Queue,
		BroadcastBackpressure: []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[p.Strategy], WriteBufferSize: p.WriteBuf}
	u := snapws.NewUpgrader(opts)
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[string](u)
	rm := []*snapws.Room[string]{rooms.Add(keyName("r", 0)), rooms.Add(keyName("r", 1))}
	var conns []*bcConn
	stable := len(p.Member)
	member := [3]map[*bcConn]bool{{}, {}, {}}
	for i, m := range append(append([]int{}, p.Member...), p.Churn...) {
		k := &bcConn{i: i, mc: mem.New(fmt.Sprint("c", i))}
		if len(p.Latency) > 0 {
			k.mc.Latency = time.Duration(p.Latency[i%len(p.Latency)]) * ms
		}
		var err error
		if m&4 != 0 {
			k.mcn, err = mgr.Connect(keyName("k", i), newRW(k.mc, OpenOpts{}), goodReq())
			member[2][k] = true
		} else {
			var conn *snapws.Conn
			conn, err = u.Upgrade(newRW(k.mc, OpenOpts{}), goodReq())
			k.mcn = &snapws.ManagedConn[string]{Conn: conn}
		}
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		tidy(c, k.mcn.Conn, k.mc)
		drain(c, k.mc.Name, k.mcn.Conn)
		for g := range 2 {
			if m&(1<<g) != 0 {
				rm[g].Add(k.mcn.Conn)
				member[g][k] = true
			}
		}
		conns = append(conns, k)
	}
	dead := map[*bcConn]bool{}
	var mu sync.Mutex
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	inEx := func(o BcOp, k *bcConn) bool {
		for _, x := range o.Ex {
			if x == k.i {
				return true
			}
		}
		return false
	}
	// do performs a broadcast or send; tag makes the payload unique
	do := func(r *bcRec, tag string) {
		o := r.o
		ctx, cancel := bg, context.CancelFunc(func() {})
		switch o.Ctx {
		case 1:
			ctx = nil
		case 2:
			ctx, cancel = context.WithCancel(bg)
			c.Cleanup(cancel) // stays alive until everything has been delivered
		case 3:
			ctx, cancel = context.WithCancel(bg)
			cancel()
		case 4:
			ctx, cancel = context.WithTimeout(bg, time.Duration(o.Ms)*ms)
			c.Cleanup(cancel)
		}
		r.op = ref.Binary
		if o.K == bcString || o.K == bcJSON {
			r.op = ref.Text
		}
		r.data = o.Pay.Of(r.op == ref.Text)
		if tag != "" {
			r.data = append([]byte(tag), r.data...)
		}
		var v any
		if o.K == bcJSON {
			v = string(r.data)
			r.data, _ = json.Marshal(v)
		}
		if o.K == bcBadJSON {
			v = func() {}
		}
		in := bytes.Clone(r.data)
		var exc []*snapws.Conn
		var exk []string
		for _, x := range o.Ex {
			if x < 0 || x >= len(conns) {
				exc, exk = append(exc, nil), append(exk, "nobody")
			} else {
				exc, exk = append(exc, conns[x].mcn.Conn), append(exk, keyName("k", x))
			}
		}
		r.start = tick()
		switch o.K {
		case bcString:
			if o.Tgt == 2 {
				r.n, r.err = mgr.BroadcastString(ctx, in, exk...)
			} else {
				r.n, r.err = rm[o.Tgt].BroadcastString(ctx, in, exc...)
			}
		case bcBytes:
			if o.Tgt == 2 {
				r.n, r.err = mgr.BroadcastBytes(ctx, in, exk...)
			} else {
				r.n, r.err = rm[o.Tgt].BroadcastBytes(ctx, in, exc...)
			}
		case bcJSON, bcBadJSON:
			if o.Tgt == 2 {
				r.n, r.err = mgr.BroadcastJSON(ctx, v, exk...)
			} else {
				r.n, r.err = rm[o.Tgt].BroadcastJSON(ctx, v, exc...)
			}
		case bcSend:
			r.err = r.only.mcn.SendBytes(bg, in)
		}
		r.end = tick()
		if o.K <= bcJSON {
			if !bytes.Equal(in, r.data) {
				c.Violate("input-changed", "the broadcast changed the caller's slice")
			}
			// the caller may reuse its slice
			for i := range in {
				in[i] ^= 0x55
			}
		}
	}
	wait := 2 * time.Second
	nontriv := false
	// ---- sequential part
	for idx, o := range p.Seq {
		time.Sleep(time.Duration(o.At) * ms)
		if o.I >= len(conns) {
			continue
		}
		k := conns[o.I]
		switch o.K {
		case bcJoin, bcLeave:
			if o.Tgt > 1 {
				continue
			}
			if o.K == bcJoin {
				rm[o.Tgt].Add(k.mcn.Conn)
				if !dead[k] {
					member[o.Tgt][k] = true
				}
			} else {
				rm[o.Tgt].Remove(k.mcn.Conn)
				delete(member[o.Tgt], k)
			}
			continue
		case bcClose:
			if o.I < stable {
				continue
			}
			k.mcn.Close()
			dead[k] = true
			for g := range member {
				delete(member[g], k)
			}
			k.seen = len(wire(k.mc).Msgs)
			continue
		case bcSend:
			if dead[k] {
				continue
			}
		}
		r := &bcRec{o: o, only: k}
		if !c.Must("hang", fmt.Sprintf("operation %d (%d)", idx, o.K), time.Minute, func() { do(r, "") }) {
			return
		}
		time.Sleep(wait)
		want := map[*bcConn]bool{}
		if o.K == bcSend {
			if r.err != nil {
				c.Violate("send", "operation %d: SendBytes failed: %v", idx, r.err)
			}
			want[k] = true
		} else if o.K == bcBadJSON {
			if r.err == nil || isFatal(r.err) || r.n != 0 {
				c.Violate("bad-json", "operation %d: broadcasting a value that has no JSON form returned %d, %v", idx, r.n, r.err)
			}
		} else {
			for m := range member[o.Tgt] {
				if !inEx(o, m) {
					want[m] = true
				} else {
					nontriv = true
				}
			}
			nontriv = nontriv || len(want) > 1
			if o.Ctx < 3 && (r.err != nil || r.n != len(want)) {
				c.Violate("count", "operation %d: broadcast to %d connections returned %d, %v", idx, len(want), r.n, r.err)
			}
			if r.n < 0 || r.n > len(want) || r.err != nil && r.err != context.Canceled && r.err != context.DeadlineExceeded {
				c.Violate("count", "operation %d: broadcast to %d connections returned %d, %v", idx, len(want), r.n, r.err)
			}
		}
		for _, x := range conns {
			s := validWire(c, x.mc)
			if c.Failed() {
				return
			}
			fresh := s.Msgs[min(x.seen, len(s.Msgs)):]
			x.seen = len(s.Msgs)
			if !want[x] {
				if len(fresh) > 0 {
					c.Violate("stray", "operation %d: connection %d (excluded or no member) got %d messages", idx, x.i, len(fresh))
				}
				continue
			}
			if len(fresh) == 0 && o.Ctx >= 3 && o.K <= bcJSON {
				continue
			}
			if len(fresh) != 1 {
				c.Violate("exactly-once", "operation %d (kind %d, %d bytes): connection %d got %d messages", idx, o.K, len(r.data), x.i, len(fresh))
				continue
			}
			if m := fresh[0]; m.Op != r.op || !bytes.Equal(m.Data, r.data) {
				c.Violate("content", "operation %d: connection %d got a %s message, want %s: %s", idx, x.i, opName(m.Op), opName(r.op), diff(m.Data, r.data))
			} else if m.Frames != 1 && o.K <= bcJSON {
				c.Logf("broadcast in %d frames", m.Frames)
			}
		}
		for _, x := range conns {
			if x.mc.LibClosed() && !dead[x] {
				c.Violate("closed", "operation %d closed connection %d (code %d)", idx, x.i, wire(x.mc).CloseCode)
			}
		}
		if c.Failed() {
			return
		}
	}
	if nontriv {
		c.NonTrivial()
		c.Class("sequential")
	}
	if len(p.Conc) == 0 {
		return
	}
	// ---- concurrent part
	var recs []*bcRec
	var spans []bcSpan
	var closing = map[*bcConn]int64{} // first start of a close
	var ops []*core.Op
	total := 0
	for _, l := range p.Conc {
		total += len(l)
	}
	base := [3]map[*bcConn]bool{}
	for g := range 3 {
		base[g] = map[*bcConn]bool{}
		for k := range member[g] {
			base[g][k] = true
		}
	}
	for ti, l := range p.Conc {
		ops = append(ops, c.Go(fmt.Sprint("thread ", ti), func() {
			for j, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if o.I >= len(conns) {
					continue
				}
				k := conns[o.I]
				switch o.K {
				case bcJoin, bcLeave:
					if o.Tgt > 1 || o.I < stable {
						continue
					}
					s := bcSpan{k: k, g: o.Tgt, join: o.K == bcJoin, start: tick()}
					if s.join {
						rm[o.Tgt].Add(k.mcn.Conn)
					} else {
						rm[o.Tgt].Remove(k.mcn.Conn)
					}
					s.end = tick()
					mu.Lock()
					spans = append(spans, s)
					mu.Unlock()
				case bcClose:
					if o.I < stable {
						continue
					}
					t := tick()
					mu.Lock()
					if _, ok := closing[k]; !ok {
						closing[k] = t
					}
					mu.Unlock()
					k.mcn.Close()
				default:
					r := &bcRec{o: o, src: ti, seq: j, only: k}
					tag := fmt.Sprintf("%d.%d|", ti, j)
					if o.K == bcStream {
						// written in pieces, with pauses
						r.op, r.data = ref.Binary, append([]byte(tag), o.Pay.Bytes()...)
						r.start = tick()
						w, err := k.mcn.NextWriter(bg, snapws.OpcodeBinary)
						for _, part := range cutBytes(r.data, o.Cuts) {
							if err == nil {
								_, err = w.Write(part)
							}
							if err == nil {
								err = w.Flush()
							}
							time.Sleep(ms)
						}
						if w != nil {
							if e := w.Close(); err == nil {
								err = e
							}
						}
						r.err, r.end = err, tick()
					} else {
						do(r, tag)
					}
					mu.Lock()
					recs = append(recs, r)
					mu.Unlock()
				}
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(20 * time.Second)
	c.NonTrivial()
	c.Class("concurrent")
	// who had to get what
	roomy := p.Strategy == 2 || max(p.Queue, 8*b2i(p.Queue == 0)) >= total
	for _, r := range recs {
		r.sure, r.may = map[*bcConn]bool{}, map[*bcConn]bool{}
		if r.o.K >= bcSend {
			r.may[r.only] = true
			_, cl := closing[r.only]
			if !dead[r.only] && !cl && !(p.Strategy == 1 && !roomy) {
				r.sure[r.only] = true
				if r.err != nil {
					c.Violate("send", "a send on open connection %d failed: %v", r.only.i, r.err)
				}
			} else if r.err == nil {
				r.sure[r.only] = true
			}
			continue
		}
		for _, k := range conns {
			if dead[k] || inEx(r.o, k) {
				continue
			}
			sure, may := base[r.o.Tgt][k], base[r.o.Tgt][k]
			for _, s := range spans {
				if s.k != k || s.g != r.o.Tgt {
					continue
				}
				if s.join && s.start < r.end {
					may = true
				}
				if !s.join && s.start < r.end { // left, or may have left
					sure = false
				}
			}
			if !sure { // joined before, and no leave started before the end
				for _, s := range spans {
					if s.k != k || s.g != r.o.Tgt || !s.join || s.end > r.start {
						continue
					}
					ok := true
					for _, x := range spans {
						if x.k == k && x.g == s.g && !x.join && x.end > s.start && x.start < r.end {
							ok = false
						}
					}
					sure = sure || ok
				}
			}
			// surely gone: a leave after every possible join
			if may {
				gone := false
				for _, x := range spans {
					if x.k != k || x.g != r.o.Tgt || x.join || x.end > r.start {
						continue
					}
					ok := true
					for _, s := range spans {
						if s.k == k && s.g == x.g && s.join && s.end > x.start && s.start < r.end {
							ok = false
						}
					}
					gone = gone || ok
				}
				may = !gone
			}
			if cl, ok := closing[k]; ok {
				sure = false
				_ = cl
			}
			if may {
				r.may[k] = true
			}
			if sure && may {
				r.sure[k] = true
			}
		}
		if r.o.Ctx >= 3 {
			if r.err != nil && r.err != context.Canceled && r.err != context.DeadlineExceeded || r.n > len(r.may) || r.n < 0 {
				c.Violate("count", "broadcast %d.%d returned %d, %v (at most %d recipients)", r.src, r.seq, r.n, r.err, len(r.may))
			}
			continue
		}
		if r.err != nil || r.n > len(r.may) || roomy && r.n < len(r.sure) {
			c.Violate("count", "broadcast %d.%d to %d to %d connections returned %d, %v", r.src, r.seq, len(r.sure), len(r.may), r.n, r.err)
		}
	}
	byData := map[string]*bcRec{}
	for _, r := range recs {
		byData[fmt.Sprint(r.op)+string(r.data)] = r
	}
	closers := 0
	for _, k := range conns {
		s := validWire(c, k.mc)
		if c.Failed() {
			return
		}
		_, cl := closing[k]
		if dead[k] {
			cl = true
		}
		if k.mc.LibClosed() && !cl && (p.Strategy != 1 || roomy) {
			c.Violate("closed", "connection %d was closed (code %d) for no reason", k.i, s.CloseCode)
			return
		}
		if k.mc.LibClosed() {
			closers++
		}
		got := map[*bcRec]int{}
		var seq []*bcRec
		for _, m := range s.Msgs[min(k.seen, len(s.Msgs)):] {
			r := byData[fmt.Sprint(m.Op)+string(m.Data)]
			if r == nil {
				c.Violate("content", "connection %d got a %s message nobody sent: %s", k.i, opName(m.Op), trunc(m.Data, 60))
				return
			}
			got[r]++
			if got[r] > 1 {
				c.Violate("exactly-once", "connection %d got broadcast %d.%d twice", k.i, r.src, r.seq)
				return
			}
			if !r.may[k] {
				c.Violate("stray", "connection %d got broadcast %d.%d though it is excluded or was no member", k.i, r.src, r.seq)
				return
			}
			r.got++
			for _, b := range seq {
				if r.end < b.start && r.o.K <= bcJSON && b.o.K <= bcJSON {
					c.Violate("order", "connection %d got broadcast %d.%d after %d.%d, which began when the former had returned", k.i, r.src, r.seq, b.src, b.seq)
					return
				}
			}
			seq = append(seq, r)
		}
		for _, r := range recs {
			if r.sure[k] && got[r] == 0 && (r.o.K >= bcSend || roomy && r.o.Ctx < 3) {
				c.Violate("lost", "connection %d did not get %d.%d (kind %d)", k.i, r.src, r.seq, r.o.K)
				return
			}
		}
	}
	for _, r := range recs {
		if r.o.K <= bcJSON && r.o.Ctx < 3 && (r.got > r.n || r.got < r.n-closers) {
			c.Violate("count", "broadcast %d.%d was accepted by %d connections according to its count, and received by %d (%d connections closed)", r.src, r.seq, r.n, r.got, closers)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
