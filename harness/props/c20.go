package props

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// Stall is a period in which a member takes nothing more. Times are odd
// multiples of 5 ms, so they never coincide with a broadcast.
type Stall struct {
	From   int  `json:"from"`
	Resume int  `json:"resume,omitempty"` // 0: never
	Credit int  `json:"credit,omitempty"` // bytes the peer still takes
	Held   bool `json:"held,omitempty"`   // the application holds the writer instead
}

// C20Member is a member of the room.
type C20Member struct {
	Stalls []Stall `json:"stalls,omitempty"`
	End    int     `json:"end,omitempty"` // ms, 0: never
	Kind   int     `json:"kind,omitempty"`
}

type C20Op struct {
	At    int  `json:"at"` // ms after the previous one
	N     int  `json:"n"`
	Batch bool `json:"batch,omitempty"`
	Ctx   int  `json:"ctx,omitempty"` // 0 background, 1 nil, else: ends after so many ms
}

type c20Plan struct {
	Strategy int         `json:"strategy,omitempty"`
	Queue    int         `json:"queue,omitempty"`
	Mgr      bool        `json:"mgr,omitempty"`
	Finite   bool        `json:"finite,omitempty"` // WriteWait is 733 ms
	Batch    int         `json:"batch,omitempty"`
	Members  []C20Member `json:"members"`
	Threads  [][]C20Op   `json:"threads"`
}

const c20WW = 733

func init() {
	core.Register(&core.Prop{
		ID:         "C20",
		RaceShards: 1,
		New:        func() any { return &c20Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c20Plan{Strategy: intn(t, "strategy", 0, 2), Queue: pick(t, "queue", 0, 1, 2, 3, 5), Mgr: chance(t, "mgr", 40), Finite: chance(t, "finite", 50)}
			if p.Strategy == 1 {
				p.Finite = true
			}
			if !p.Finite || chance(t, "finitebatch", 30) {
				p.Batch = pick(t, "batch", 0, 0, 1, 2)
			}
			at := func(n string, lo int) int { return lo + 10*pick(t, n, 1, 2, 3, 5, 8, 20, 40, 100, 150, 300) }
			for range intn(t, "n", 1, 4) {
				var m C20Member
				if chance(t, "stalls", 70) {
					from := 5
					for range intn(t, "nst", 1, 2) {
						s := Stall{From: at("from", from)}
						if p.Batch == 0 {
							s.Credit = pick(t, "credit", 0, 0, 1, 7, 30, 100)
						}
						if chance(t, "held", 25) {
							s.Held, s.Credit = true, 0
						}
						if chance(t, "resume", 70) {
							s.Resume = at("res", s.From)
						}
						m.Stalls = append(m.Stalls, s)
						from = s.Resume
						if from == 0 {
							break
						}
					}
				}
				if chance(t, "ends", 35) {
					m.End, m.Kind = at("end", 7), intn(t, "kind", 0, 3)
				}
				p.Members = append(p.Members, m)
			}
			for range pick(t, "nthreads", 1, 1, 2, 3) {
				var l []C20Op
				for range intn(t, "nops", 1, 14) {
					o := C20Op{At: 10 * pick(t, "at", 1, 1, 1, 2, 4, 10, 50), N: pick(t, "size", 0, 1, 5, 20, 100, 126, 3000), Batch: p.Batch > 0 && chance(t, "b", 50)}
					if p.Strategy == 2 || chance(t, "ctxlive", 20) {
						o.Ctx = pick(t, "ctx", 0, 0, 1, 17, 33, 417)
					}
					if p.Strategy < 2 && o.Ctx > 1 {
						o.Ctx = 0
					}
					l = append(l, o)
				}
				p.Threads = append(p.Threads, l)
			}
			return p
		},
		Run:      c20Run,
		Quick:    60000,
		Thorough: 400000,
		Rule:     "1-4 members, each with up to two stalls (no more bytes taken, or only a few, or the writer held by the application), resumptions and an end from either side, under 1-3 threads of plain and batch broadcasts with each strategy, queue length, write wait and context; a single thread with Drop or Close is compared with an exact simulation of every queue, the rest with consistency rules; non-trivial: a queue ran full",
		Assumptions: []string{
			"a connection that is being closed may or may not be counted by broadcasts until its closing has finished"},
	})
}

type c20Sim struct {
	m         *C20Member
	si        int // next stall
	inStall   bool
	held      bool
	credit    int // -1: unlimited
	stuck     bool
	since     int
	inflight  int
	q         []int // message numbers
	got, gotB []int
	dead      int // -1: alive
	how       string
	overflow  int // time of the overflow that closes it, -1
	full      bool
}

const c20Never = 1 << 40

func c20Run(c *core.Case, plan any) {
	p := plan.(*c20Plan)
	ms := time.Millisecond
	ww := 1000 * time.Hour
	if p.Finite {
		ww = c20WW * ms
	}
	opts := &snapws.Options{WriteWait: ww, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, BroadcastChannelsSize: p.Queue,
		BroadcastBackpressure: []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[p.Strategy]}
	u := snapws.NewUpgrader(opts)
	queue := p.Queue
	if queue == 0 {
		queue = snapws.DefaultBroadcastChannelsSize
	}
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 50*ms)
	case 2:
		u.EnablePrefixBatching(bctx, 50*ms)
	}
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[string](u)
	room := rooms.Add("r")
	start := time.Now()
	now := func() int { return int(time.Since(start) / ms) }
	type member struct {
		m    *C20Member
		mc   *mem.Conn
		conn *snapws.Conn
	}
	var mem_ []*member
	for i := range p.Members {
		k := &member{m: &p.Members[i], mc: mem.New(fmt.Sprint("member ", i))}
		var err error
		if p.Mgr {
			var x *snapws.ManagedConn[string]
			if x, err = mgr.Connect(keyName("k", i), newRW(k.mc, OpenOpts{}), goodReq()); err == nil {
				k.conn = x.Conn
			}
		} else {
			k.conn, _, err = rooms.Connect(newRW(k.mc, OpenOpts{}), goodReq(), "r")
		}
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		tidy(c, k.conn, k.mc)
		drain(c, k.mc.Name, k.conn)
		mem_ = append(mem_, k)
		for _, s := range k.m.Stalls {
			c.Go("stall", func() {
				time.Sleep(time.Duration(s.From) * ms)
				if s.Held {
					w, err := k.conn.NextWriter(bg, snapws.OpcodeBinary)
					if s.Resume > 0 && err == nil {
						time.Sleep(time.Duration(s.Resume-s.From) * ms)
						w.Close()
					}
					return
				}
				k.mc.SetCredit(int64(s.Credit))
				if s.Resume > 0 {
					time.Sleep(time.Duration(s.Resume-s.From) * ms)
					k.mc.SetCredit(-1)
				}
			})
		}
		if k.m.End > 0 {
			c.Go("end", func() {
				time.Sleep(time.Duration(k.m.End) * ms)
				switch k.m.Kind {
				case 0:
					k.conn.Close()
				case 1:
					k.mc.Feed(closeFrame(1000, ""))
				case 2:
					k.mc.FeedEOF()
				case 3:
					k.mc.Kill()
				}
			})
		}
	}
	type rec struct {
		th, i      int
		o          C20Op
		data       []byte
		n          int
		err        error
		start, end int
		ended      bool
	}
	var mu sync.Mutex
	var recs []*rec
	var ops []*core.Op
	last := 0
	for _, m := range p.Members {
		last = max(last, m.End)
		for _, s := range m.Stalls {
			last = max(last, s.From, s.Resume)
		}
	}
	span := 0
	for th, l := range p.Threads {
		sum := 0
		for _, o := range l {
			sum += o.At
			if p.Strategy == 2 && o.Ctx > 1 {
				sum += o.Ctx
			}
		}
		span = max(span, sum)
		ops = append(ops, c.Go(fmt.Sprint("broadcaster ", th), func() {
			for i, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				r := &rec{th: th, i: i, o: o}
				tag := fmt.Sprintf("%d.%d|", th, i)
				r.data = append([]byte(tag), bytes.Repeat([]byte{'x'}, o.N)...)
				if o.Batch {
					r.data = []byte(`"` + string(r.data) + `"`)
				}
				in := bytes.Clone(r.data)
				ctx, cancel := context.Context(bg), context.CancelFunc(func() {})
				if o.Ctx == 1 {
					ctx = nil
				} else if o.Ctx > 1 {
					ctx, cancel = context.WithTimeout(bg, time.Duration(o.Ctx)*ms)
				}
				c.Cleanup(cancel)
				r.start = now()
				mu.Lock()
				recs = append(recs, r)
				mu.Unlock()
				var n int
				var err error
				switch {
				case o.Batch && p.Mgr:
					n, err = mgr.BatchBroadcast(ctx, in)
				case o.Batch:
					n, err = room.BatchBroadcast(ctx, in)
				case p.Mgr:
					n, err = mgr.BroadcastBytes(ctx, in)
				default:
					n, err = room.BroadcastBytes(ctx, in)
				}
				mu.Lock()
				r.n, r.err, r.end, r.ended = n, err, now(), true
				mu.Unlock()
			}
		}))
	}
	time.Sleep(time.Duration(max(last, span)+4*c20WW+2000) * ms)
	// a call may still wait for a member that is stalled for good
	forGood := false
	for _, k := range mem_ {
		for _, s := range k.m.Stalls {
			if s.Resume == 0 && (k.m.End == 0 || k.m.End > 0 && !p.Finite) && (s.Held || !p.Finite) {
				forGood = true
			}
		}
	}
	if p.Strategy == 2 && forGood {
		for _, k := range mem_ {
			for _, s := range k.m.Stalls {
				if s.Resume == 0 {
					c.Go("final close", func() { k.conn.Close() })
				}
			}
		}
		time.Sleep(time.Duration(span+1000) * ms)
		c.Class("closed-while-waiting")
	}
	for _, o := range ops {
		if !o.Done() {
			c.Violate("hang", "%s is still blocked although no open connection is stalled:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(time.Second)
	// what arrived
	type arrived struct{ plain, batch []string }
	var got []arrived
	for _, k := range mem_ {
		s := validWire(c, k.mc)
		if c.Failed() {
			return
		}
		var a arrived
		for _, m := range s.Msgs {
			switch {
			case len(m.Data) == 0: // the application's empty message
			case m.Op == ref.Binary && m.Data[0] >= '0' && m.Data[0] <= '9':
				a.plain = append(a.plain, string(m.Data))
			default:
				els, err := decodeBatch(p.Batch, m.Data)
				if p.Batch == 0 || m.Op != ref.Binary || err != "" {
					c.Violate("content", "%s got an unknown message: %s %s", k.mc.Name, trunc(m.Data, 60), err)
					return
				}
				for _, e := range els {
					a.batch = append(a.batch, string(e))
				}
			}
		}
		got = append(got, a)
	}
	byData := map[string]*rec{}
	for _, r := range recs {
		byData[string(r.data)] = r
	}
	// ---- rules for every plan
	// noEnd: nothing can end the connection
	noEnd := make([]bool, len(mem_))
	for i, k := range mem_ {
		noEnd[i] = k.m.End == 0
		for _, s := range k.m.Stalls {
			if p.Strategy == 1 || p.Finite && !s.Held {
				noEnd[i] = false // may be closed for it
			}
			if s.Resume == 0 && p.Strategy == 2 && forGood {
				noEnd[i] = false
			}
		}
		healthy := len(k.m.Stalls) == 0
		if p.Strategy < 2 && healthy && queue < len(p.Threads) {
			noEnd[i] = noEnd[i] && p.Strategy == 0
		}
		if noEnd[i] && k.mc.LibClosed() {
			c.Violate("closed", "%s was closed (code %d) although it only was slow or not even that", k.mc.Name, wire(k.mc).CloseCode)
			return
		}
	}
	for _, r := range recs {
		limit := r.start
		if p.Strategy == 2 {
			limit = max(r.start, last) + (len(mem_)+1)*c20WW // every stalled member has resumed or died
			if r.o.Ctx > 1 {
				limit = min(limit, r.start+r.o.Ctx)
			} else if forGood {
				limit = c20Never
			}
		}
		if r.end > limit {
			c.Violate("blocked", "broadcast %d.%d started at %d ms and returned at %d ms, must return by %d", r.th, r.i, r.start, r.end, limit)
		}
		if r.err != nil && (r.o.Ctx <= 1 || r.err != context.DeadlineExceeded || r.end < r.start+r.o.Ctx) {
			c.Violate("error", "broadcast %d.%d failed: %v (after %d ms, context %d)", r.th, r.i, r.err, r.end-r.start, r.o.Ctx)
		}
		if r.n < 0 || r.n > len(mem_) {
			c.Violate("count", "broadcast %d.%d returned %d", r.th, r.i, r.n)
		}
	}
	cnt := map[*rec]int{}
	anyEnd := 0
	for i, k := range mem_ {
		if !noEnd[i] {
			anyEnd++
		}
		for _, list := range [][]string{got[i].plain, got[i].batch} {
			seen := map[*rec]bool{}
			var prev []*rec
			for _, d := range list {
				r := byData[d]
				if r == nil {
					c.Violate("content", "%s got a message nobody sent: %s", k.mc.Name, trunc([]byte(d), 60))
					return
				}
				if seen[r] {
					c.Violate("exactly-once", "%s got %d.%d twice", k.mc.Name, r.th, r.i)
					return
				}
				seen[r] = true
				cnt[r]++
				for _, x := range prev {
					if r.th == x.th && r.i < x.i || r.end < x.start {
						c.Violate("order", "%s got %d.%d after %d.%d", k.mc.Name, r.th, r.i, x.th, x.i)
						return
					}
				}
				prev = append(prev, r)
			}
		}
	}
	stalledForGood := 0
	for i, k := range mem_ {
		n := len(k.m.Stalls)
		if noEnd[i] && n > 0 && k.m.Stalls[n-1].Resume == 0 {
			stalledForGood++
		}
	}
	for _, r := range recs {
		// a context that has ended may drop what is still queued
		if cnt[r] > r.n || r.o.Ctx <= 1 && cnt[r] < r.n-anyEnd-stalledForGood {
			c.Violate("accepted-lost", "broadcast %d.%d was accepted by %d members and received by %d (%d may have been closed, %d never resumed)", r.th, r.i, r.n, cnt[r], anyEnd, stalledForGood)
			return
		}
		if p.Strategy == 2 && r.err == nil && r.n < len(mem_)-anyEnd {
			c.Violate("wait", "broadcast %d.%d returned %d, nil, but %d members never closed", r.th, r.i, r.n, len(mem_)-anyEnd)
			return
		}
	}
	for i, k := range mem_ {
		// healthy members get everything
		if len(k.m.Stalls) > 0 || k.m.End > 0 || p.Strategy < 2 && queue < len(p.Threads) {
			continue
		}
		have := map[string]bool{}
		for _, d := range append(append([]string{}, got[i].plain...), got[i].batch...) {
			have[d] = true
		}
		for _, r := range recs {
			if r.err == nil && r.o.Ctx <= 1 && !have[string(r.data)] {
				c.Violate("healthy", "%s is not slow and did not get broadcast %d.%d", k.mc.Name, r.th, r.i)
				return
			}
		}
	}
	// ---- exact simulation
	if len(p.Threads) != 1 || p.Strategy == 2 || p.Finite && p.Batch > 0 {
		if p.Strategy == 2 {
			for _, r := range recs {
				if r.end > r.start {
					c.NonTrivial()
					c.Class("waited")
				}
			}
		} else if stalledForGood > 0 || anyEnd > 0 {
			c.NonTrivial()
		}
		return
	}
	var sims []*c20Sim
	for i := range p.Members {
		sims = append(sims, &c20Sim{m: &p.Members[i], credit: -1, dead: -1, overflow: -1, inflight: -1})
	}
	size := func(i int) int {
		n := len(recs[i].data)
		switch {
		case n > 65535:
			return n + 10
		case n > 125:
			return n + 4
		}
		return n + 2
	}
	pump := func(s *c20Sim, t int) {
		for s.dead < 0 && !s.stuck && len(s.q) > 0 {
			m := s.q[0]
			s.q = s.q[1:]
			if recs[m].o.Batch {
				s.gotB = append(s.gotB, m)
				continue
			}
			if s.held || s.credit >= 0 && s.credit < size(m) {
				s.stuck, s.since, s.inflight = true, t, m
				if !s.held {
					s.credit = 0
				}
				return
			}
			if s.credit >= 0 {
				s.credit -= size(m)
			}
			s.got = append(s.got, m)
		}
	}
	advance := func(s *c20Sim, t int) {
		for s.dead < 0 {
			next, what := c20Never, ""
			if s.si < len(s.m.Stalls) {
				st := s.m.Stalls[s.si]
				if !s.inStall {
					next, what = st.From, "stall"
				} else if st.Resume > 0 {
					next, what = st.Resume, "resume"
				}
			}
			if s.m.End > 0 && s.m.End < next {
				next, what = s.m.End, "end"
			}
			if s.stuck && !s.held && p.Finite && s.since+c20WW < next {
				next, what = s.since+c20WW, "deadline"
			}
			if next > t {
				return
			}
			switch what {
			case "stall":
				s.inStall = true
				if s.m.Stalls[s.si].Held {
					s.held = true
				} else {
					s.credit = s.m.Stalls[s.si].Credit
				}
			case "resume":
				s.inStall = false
				if s.m.Stalls[s.si].Held {
					s.held = false
				} else {
					s.credit = -1
				}
				s.si++
				if s.stuck {
					s.stuck = false
					s.got = append(s.got, s.inflight)
					s.inflight = -1
				}
				pump(s, next)
			default:
				s.dead, s.how = next, what
			}
		}
	}
	for i, r := range recs {
		lo, hi := 0, 0
		for _, s := range sims {
			advance(s, r.start)
			if s.dead >= 0 {
				if r.start <= s.dead+2*c20WW+10 || s.inStall && !p.Finite {
					hi++ // its closing may not have finished
				}
				continue
			}
			if s.stuck && len(s.q) == queue {
				s.full = true
				if p.Strategy == 1 {
					s.overflow, s.dead, s.how = r.start, r.start, "overflow"
				}
				continue
			}
			lo++
			hi++
			s.q = append(s.q, i)
			pump(s, r.start)
		}
		if r.n < lo || r.n > hi {
			c.Violate("count", "broadcast %d at %d ms returned %d, want %d to %d", i, r.start, r.n, lo, hi)
			return
		}
	}
	for i, s := range sims {
		advance(s, now())
		name := mem_[i].mc.Name
		if s.full {
			c.NonTrivial()
			c.Class(fmt.Sprint("full-", p.Strategy))
		}
		var want []string
		for _, m := range s.got {
			want = append(want, string(recs[m].data))
		}
		g := got[i].plain
		same := func(w []string) bool {
			if len(w) != len(g) {
				return false
			}
			for j := range w {
				if w[j] != g[j] {
					return false
				}
			}
			return true
		}
		ok := same(want)
		if s.dead >= 0 && s.inflight >= 0 {
			ok = ok || same(append(want, string(recs[s.inflight].data)))
		}
		if !ok {
			c.Violate("delivery", "%s got %d plain broadcasts, want %d (ended: %d %s)", name, len(g), len(want), s.dead, s.how)
			return
		}
		if s.dead < 0 && !s.inStall {
			if len(got[i].batch) != len(s.gotB) {
				c.Violate("delivery", "%s got %d batched broadcasts, want %d", name, len(got[i].batch), len(s.gotB))
				return
			}
			for j, m := range s.gotB {
				if got[i].batch[j] != string(recs[m].data) {
					c.Violate("order", "%s: batched broadcast %d is not number %d", name, j, m)
					return
				}
			}
		}
		if (s.dead >= 0) != mem_[i].mc.Closed() && !(s.inStall && !p.Finite) {
			c.Violate("open", "%s closed: %v, want %v (at %d ms: %s)", name, mem_[i].mc.Closed(), s.dead >= 0, s.dead, s.how)
			return
		}
		if s.overflow >= 0 {
			w := wire(mem_[i].mc)
			vis := s.held
			st := s.m.Stalls[s.si]
			if !s.held && st.Resume > 0 && st.Resume < s.since+c20WW {
				vis = true
			}
			if s.m.Kind == 3 && s.m.End > 0 && s.m.End <= s.overflow+2*c20WW {
				vis = false // reset
			}
			if vis && (w.CloseAt < 0 || w.CloseCode != 1008) || !vis && w.CloseAt >= 0 && w.CloseCode != 1008 {
				c.Violate("code", "%s was too slow at %d ms (stuck since %d): close code %d, want 1008", name, s.overflow, s.since, w.CloseCode)
				return
			}
			if at, _ := mem_[i].mc.ClosedAt(); int(at.Sub(start)/ms) > s.overflow+2*c20WW+10 {
				c.Violate("close-late", "%s was too slow at %d ms and was closed only at %v", name, s.overflow, at.Sub(start))
				return
			}
			c.Class("closed-1008")
		}
	}
}
