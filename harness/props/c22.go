package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	blBatch = iota
	blJSON
	blRoom
	blMgr
	blClose // the batcher
	blCancel
	blConnClose
	blReenable
	blIsClosed
	blPlain // a plain broadcast, which fills the queue of a connection that takes nothing
)

// BlOp is one step on the time line of a thread.
type BlOp struct {
	K  int `json:"k"`
	I  int `json:"i,omitempty"`
	N  int `json:"n,omitempty"`
	At int `json:"at,omitempty"`
}

type c22Plan struct {
	Strategy int      `json:"strategy"` // 0 JSON, 1 prefix, 2 custom, 3: batching is not enabled
	Every    int      `json:"every,omitempty"`
	Max      int      `json:"max,omitempty"`
	Ctx      int      `json:"ctx,omitempty"` // 0 cancellable, 1 nil, else: ends after so many ms
	Conns    int      `json:"conns"`
	Stalled  int      `json:"stalled,omitempty"` // the last connection takes nothing until then (ms)
	Queue    int      `json:"queue,omitempty"`   // length of the broadcast queues, with broadcasts that wait for room; 0: never full
	Threads  [][]BlOp `json:"threads"`
	Storm    int      `json:"storm,omitempty"` // instead: threads batch without a pause, the batcher is closed after so many messages
}

// c22Storm closes the batcher while several threads batch as fast as they can.
func c22Storm(c *core.Case, p *c22Plan) {
	u := snapws.NewUpgrader(&snapws.Options{WriteWait: 1000 * time.Hour, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, MaxBatchSize: p.Max})
	if p.Strategy == 0 {
		u.EnableJSONBatching(bg, time.Hour)
	} else {
		u.EnablePrefixBatching(bg, time.Hour)
	}
	mc := mem.New("c")
	conn := open(c, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	var n, ended atomic.Int64
	accepted := make([]int, 4)
	start := make(chan struct{})
	ops := []*core.Op{c.Go("closer", func() {
		<-start
		for n.Load() < int64(p.Storm) && ended.Load() < int64(len(accepted)) {
			runtime.Gosched()
		}
		u.Flusher.Close()
	})}
	for th := range accepted {
		ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
			defer ended.Add(1)
			<-start
			for i := 0; i < 100000; i++ {
				if err := conn.Batch(fmt.Appendf(nil, `"%d.%d"`, th, i)); err != nil {
					if err != snapws.ErrFlusherClosed {
						c.Violate("error", "Batch on a closed batcher failed with %v", err)
					}
					return
				}
				accepted[th]++
				n.Add(1)
			}
		}))
	}
	time.Sleep(time.Millisecond)
	close(start)
	for _, o := range ops {
		if !o.Wait(2 * time.Hour) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(time.Second)
	s := validWire(c, mc)
	got := make([]int, len(accepted))
	for _, m := range s.Msgs {
		els, e := decodeBatch(p.Strategy+1, m.Data)
		if e != "" {
			c.Violate("format", "%s: %s", e, trunc(m.Data, 60))
			return
		}
		for _, el := range els {
			th, i := 0, 0
			if k, _ := fmt.Sscanf(string(el), `"%d.%d"`, &th, &i); k != 2 || th < 0 || th >= len(got) || i != got[th] {
				c.Violate("order", "got %s out of turn", trunc(el, 60))
				return
			}
			got[th]++
		}
	}
	for th := range got {
		if got[th] != accepted[th] {
			c.Violate("lost", "of thread %d's messages %d were accepted while the batcher was being closed, %d arrived", th, accepted[th], got[th])
			return
		}
	}
	c.Class("storm")
}

func init() {
	core.Register(&core.Prop{
		ID:         "C22",
		RaceShards: 1,
		New:        func() any { return &c22Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c22Plan{Strategy: pick(t, "strategy", 0, 0, 1, 1, 2, 3), Every: pick(t, "every", 0, 1, 10, 30, 100), Max: pick(t, "max", 0, 0, 1, 10, 50, 200, 1000), Ctx: pick(t, "ctx", 0, 0, 0, 1, 37, 150),
				Conns: pick(t, "conns", 1, 1, 2, 3)}
			if chance(t, "storm", 4) {
				return &c22Plan{Strategy: p.Strategy % 2, Max: pick(t, "smax", 0, 0, 100, 2000), Conns: 1, Storm: pick(t, "storm", 1, 30, 200)}
			}
			if chance(t, "stall", 30) {
				p.Stalled = pick(t, "stalled", 50, 300)
				if chance(t, "queue", 60) {
					p.Queue = pick(t, "qlen", 1, 1, 2, 3)
				}
			}
			kinds := []int{blBatch, blBatch, blBatch, blBatch, blBatch, blBatch, blJSON, blJSON, blRoom, blMgr, blIsClosed}
			if chance(t, "ends", 70) {
				kinds = append(kinds, blClose)
			}
			if chance(t, "cancels", 40) {
				kinds = append(kinds, blCancel)
			}
			if chance(t, "connends", 25) {
				kinds = append(kinds, blConnClose)
			}
			if p.Queue > 0 {
				kinds = append(kinds, blPlain, blPlain, blPlain, blPlain, blRoom, blMgr, blRoom, blMgr)
			}
			if chance(t, "again", 15) {
				kinds = append(kinds, blReenable)
			}
			for range pick(t, "nthreads", 1, 1, 2, 4) {
				var l []BlOp
				for range intn(t, "nops", 1, 18) {
					l = append(l, BlOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), I: intn(t, "i", 0, p.Conns-1), N: pick(t, "n", 0, 1, 2, 5, 10, 20, 60, 300, 2000), At: pick(t, "at", 0, 0, 0, 1, 3, 9, 10, 11, 29, 60, 120)})
				}
				p.Threads = append(p.Threads, l)
			}
			if chance(t, "exact", 25) { // messages that fill a batch exactly
				k, sum := intn(t, "exactN", 1, 6), 0
				for i, o := range p.Threads[0] {
					if o.K <= blJSON && o.I == p.Threads[0][0].I && k > 0 {
						sum += len(fmt.Sprintf(`"%d.%d|"`, 0, i)) + o.N
						k--
					}
				}
				p.Max = sum
			}
			return p
		},
		Run:      c22Run,
		Quick:    50000,
		Thorough: 500000,
		Rule:     "1-4 threads of timed batching calls on 1-3 connections (one may take nothing for a while), with closing, cancelling, enabling again and closing of connections at any point, all strategies, size limits and intervals; every accepted message is judged by size, arrival time and shutdown, every refusal by its error; or four threads batch without a pause while the batcher is closed; non-trivial: a batch was sent because of its size, or a batcher was closed or cancelled with messages in it",
	})
}

type blRec struct {
	th, i      int
	o          BlOp
	data       []byte
	conns      map[int]bool
	err        error
	start, end int64
	at         time.Duration
	n          int           // connections reached
	began      time.Duration // when it was called
}

func c22Run(c *core.Case, plan any) {
	p := plan.(*c22Plan)
	if p.Storm > 0 {
		c22Storm(c, p)
		return
	}
	if p.Conns < 1 {
		return
	}
	ms := time.Millisecond
	begin := time.Now()
	total := 0
	for _, l := range p.Threads {
		total += len(l)
	}
	u := snapws.NewUpgrader(&snapws.Options{WriteWait: 1000 * time.Hour, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, MaxBatchSize: p.Max, WriteBufferSize: 1 << 17, BroadcastChannelsSize: total + 1})
	if p.Queue > 0 {
		u.BroadcastChannelsSize, u.BroadcastBackpressure = p.Queue, snapws.BackpressureWait
	}
	limit := p.Max
	if limit == 0 {
		limit = snapws.DefaultMaxMessageSize
	}
	var mu sync.Mutex
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	type batch struct {
		els [][]byte
		at  time.Duration
	}
	var conns []*snapws.Conn
	var mcs []*mem.Conn
	arrived := make([][]batch, p.Conns)
	idx := func(k *snapws.Conn) int {
		mu.Lock()
		defer mu.Unlock()
		for i, x := range conns {
			if x == k {
				return i
			}
		}
		return -1
	}
	every := time.Duration(p.Every) * ms
	interval := every
	if interval == 0 {
		interval = 50 * ms
	}
	var bctx context.Context
	cancel := context.CancelFunc(func() {})
	wantErr := context.Canceled
	ctxEnd := time.Duration(c20Never)
	switch {
	case p.Ctx == 0:
		bctx, cancel = context.WithCancel(bg)
	case p.Ctx > 1:
		bctx, cancel = context.WithTimeout(bg, time.Duration(p.Ctx)*ms)
		ctxEnd = time.Duration(p.Ctx) * ms
		wantErr = context.DeadlineExceeded
	}
	cancelled := int64(c20Never) // clock of the start of the first cancel
	cancelEnd := int64(c20Never)
	c.Cleanup(cancel)
	enable := func() {
		switch p.Strategy {
		case 0:
			u.EnableJSONBatching(bctx, every)
		case 1:
			u.EnablePrefixBatching(bctx, every)
		case 2:
			u.EnableBatching(bctx, every, func(_ context.Context, k *snapws.Conn, msgs [][]byte) error {
				i := idx(k)
				if i < 0 {
					c.Violate("hook-conn", "the custom sender was called with an unknown connection")
					return nil
				}
				var els [][]byte
				for _, m := range msgs {
					els = append(els, bytes.Clone(m))
				}
				mu.Lock()
				arrived[i] = append(arrived[i], batch{els, time.Since(begin)})
				mu.Unlock()
				return nil
			})
		}
	}
	enable()
	first := u.Flusher
	c.Cleanup(func() {
		if u.Flusher != nil {
			u.Flusher.Close()
		}
	})
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[string](u)
	room := rooms.Add("r")
	connect := func(i int, join bool) *snapws.Conn {
		mc := mem.New(fmt.Sprint("c", i))
		var k *snapws.Conn
		var err error
		if join {
			var x *snapws.ManagedConn[int]
			if x, err = mgr.Connect(i, newRW(mc, OpenOpts{}), goodReq()); err == nil {
				k = x.Conn
			}
		} else {
			k, err = u.Upgrade(newRW(mc, OpenOpts{}), goodReq())
		}
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return nil
		}
		onFrame(mc, func(op int, d []byte) {
			if op != ref.Binary {
				return
			}
			els, e := decodeBatch(p.Strategy+1, d)
			if e != "" {
				c.Violate("format", "connection %d: %s: %s", i, e, trunc(d, 100))
				return
			}
			mu.Lock()
			arrived[i] = append(arrived[i], batch{els, time.Since(begin)})
			mu.Unlock()
		})
		// what was written before the callback was set is the handshake only
		mc.OnWrite(mc, mc.Out())
		tidy(c, k, mc)
		drain(c, mc.Name, k)
		if join {
			room.Add(k)
		}
		mu.Lock()
		conns, mcs = append(conns, k), append(mcs, mc)
		mu.Unlock()
		return k
	}
	for i := range p.Conns {
		if connect(i, true) == nil {
			return
		}
	}
	if p.Stalled > 0 {
		mc := mcs[p.Conns-1]
		mc.SetCredit(0)
		c.Go("resume", func() {
			time.Sleep(time.Duration(p.Stalled) * ms)
			mc.SetCredit(-1)
		})
	}
	closeStart, closeEnd := int64(c20Never), int64(c20Never)
	var closeAt time.Duration
	connEnd := make([]int64, p.Conns) // clock of the start of its closing
	connDone := make([]int64, p.Conns)
	connAt := make([]time.Duration, p.Conns)
	for i := range connEnd {
		connEnd[i], connDone[i] = c20Never, c20Never
	}
	var recs []*blRec
	reenabled := false
	var ops []*core.Op
	for th, l := range p.Threads {
		ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
			for i, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if o.I >= p.Conns {
					continue
				}
				k := conns[o.I]
				r := &blRec{th: th, i: i, o: o, conns: map[int]bool{}}
				r.data = []byte(fmt.Sprintf(`"%d.%d|%s"`, th, i, bytes.Repeat([]byte{'z'}, o.N)))
				switch o.K {
				case blBatch, blJSON:
					r.conns[o.I] = true
					r.start = tick()
					if o.K == blBatch {
						r.err = k.Batch(bytes.Clone(r.data))
					} else {
						r.err = k.BatchJSON(json.RawMessage(r.data))
					}
					r.end, r.at = tick(), time.Since(begin)
				case blRoom, blMgr:
					mu.Lock()
					skip := reenabled
					mu.Unlock()
					if skip {
						continue
					}
					for j := range p.Conns {
						r.conns[j] = true
					}
					var n int
					r.began = time.Since(begin)
					r.start = tick()
					if o.K == blRoom {
						n, r.err = room.BatchBroadcast(bg, bytes.Clone(r.data))
					} else {
						n, r.err = mgr.BatchBroadcast(bg, bytes.Clone(r.data))
					}
					r.end, r.at = tick(), time.Since(begin)
					r.n = n
					if p.Strategy == 3 && n != 0 {
						c.Violate("uninitialised", "BatchBroadcast without batching returned %d", n)
					}
					mu.Lock()
					late := closeEnd < r.start || cancelEnd < r.start || ctxEnd < r.at
					mu.Unlock()
					if late && n != 0 {
						c.Violate("late-broadcast", "BatchBroadcast %d.%d after the batcher had ended returned %d, %v", th, i, n, r.err)
					}
				case blPlain:
					room.BroadcastString(bg, []byte("plain"))
					continue
				case blClose:
					if p.Strategy == 3 {
						continue
					}
					s := tick()
					mu.Lock()
					closeStart = min(closeStart, s)
					if closeEnd == c20Never && closeAt == 0 {
						closeAt = time.Since(begin)
					}
					mu.Unlock()
					first.Close()
					e := tick()
					mu.Lock()
					closeEnd = min(closeEnd, e)
					mu.Unlock()
					if !first.IsClosed() {
						c.Violate("is-closed", "IsClosed is false after Close")
					}
					continue
				case blCancel:
					if p.Ctx != 0 {
						continue
					}
					s := tick()
					mu.Lock()
					cancelled = min(cancelled, s)
					ctxEnd = min(ctxEnd, time.Since(begin))
					mu.Unlock()
					cancel()
					e := tick()
					mu.Lock()
					cancelEnd = min(cancelEnd, e)
					mu.Unlock()
					continue
				case blConnClose:
					s := tick()
					mu.Lock()
					if s < connEnd[o.I] {
						connEnd[o.I], connAt[o.I] = s, time.Since(begin)
					}
					mu.Unlock()
					if p.Stalled > 0 && o.I == p.Conns-1 {
						go k.Close() // the close frame waits for the peer
						continue
					}
					k.Close()
					e := tick()
					mu.Lock()
					connDone[o.I] = min(connDone[o.I], e)
					mu.Unlock()
					continue
				case blReenable:
					mu.Lock()
					skip := reenabled || len(p.Threads) > 1 || p.Strategy == 3
					if !skip {
						reenabled = true
					}
					mu.Unlock()
					if skip {
						continue // the configuration must not change while it is used
					}
					s := tick()
					mu.Lock()
					if closeStart > s {
						closeStart, closeAt = s, time.Since(begin)
					}
					mu.Unlock()
					enable()
					e := tick()
					mu.Lock()
					closeEnd = min(closeEnd, e)
					arrived = append(arrived, nil)
					mu.Unlock()
					if !first.IsClosed() || u.Flusher == first {
						c.Violate("reenable", "enabling batching again did not replace the batcher and close the old one")
						return
					}
					// a new connection uses the new batcher
					nk := connect(p.Conns, false)
					if nk == nil {
						return
					}
					err := nk.Batch([]byte(`"new"`))
					if bctx != nil && bctx.Err() != nil {
						if !errors.Is(err, wantErr) {
							c.Violate("cancelled", "Batch on a batcher whose context has ended returned %v", err)
						}
						continue
					}
					if err != nil {
						c.Violate("reenable", "Batch on a new connection after enabling batching again failed: %v", err)
						return
					}
					at := time.Since(begin)
					time.Sleep(interval + ms)
					mu.Lock()
					got := arrived[p.Conns]
					mu.Unlock()
					if (len(got) != 1 || len(got[0].els) != 1 || string(got[0].els[0]) != `"new"`) && at+interval < ctxEnd {
						c.Violate("reenable", "the batch of a new connection did not arrive: %v", got)
					}
					c.Class("reenabled")
					continue
				case blIsClosed:
					if p.Strategy < 3 {
						s := tick()
						is := first.IsClosed()
						mu.Lock()
						if is && closeStart > s && closeStart == c20Never || !is && closeEnd < s {
							c.Violate("is-closed", "IsClosed is %v", is)
						}
						mu.Unlock()
					}
					continue
				}
				mu.Lock()
				recs = append(recs, r)
				mu.Unlock()
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(interval + time.Second)
	mu.Lock()
	defer mu.Unlock()
	if p.Strategy == 3 {
		for _, r := range recs {
			if connEnd[r.o.I] < r.start && r.o.K <= blJSON {
				if r.err == nil {
					c.Violate("uninitialised", "call %d.%d succeeded without batching", r.th, r.i)
				}
				continue
			}
			if !errors.Is(r.err, snapws.ErrBatchingUninitialized) || isFatal(r.err) {
				c.Violate("uninitialised", "call %d.%d (kind %d) without batching returned %v", r.th, r.i, r.o.K, r.err)
			}
		}
		c.Class("uninitialised")
		return
	}
	byData := map[string]*blRec{}
	blocked := false
	for _, r := range recs {
		byData[string(r.data)] = r
		// errors
		direct := r.o.K <= blJSON
		afterClose, duringClose := closeEnd < r.start, closeStart < r.end
		afterCancel := cancelEnd < r.start || ctxEnd < r.at
		duringCancel := cancelled < r.end || ctxEnd <= r.at
		connGone := direct && connDone[r.o.I] < r.start
		connMay := direct && connEnd[r.o.I] < r.end
		okErr := r.err == nil && !afterClose && !afterCancel && !connGone ||
			duringClose && errors.Is(r.err, snapws.ErrFlusherClosed) ||
			duringCancel && errors.Is(r.err, wantErr) ||
			connMay && r.err != nil
		if !direct {
			// waiting for room in a queue ends with the batcher
			for _, end := range []time.Duration{closeAt, ctxEnd} {
				if (end != closeAt || closeStart < c20Never) && r.began <= end && r.at > end+ms {
					c.Violate("blocked", "broadcast %d.%d was called at %v, the batcher ended at %v, and it returned at %v", r.th, r.i, r.began, end, r.at)
					return
				}
			}
			gone := false
			for j := range connEnd {
				gone = gone || connEnd[j] < r.end
			}
			if r.err == nil && r.n != len(r.conns) && !gone {
				c.Violate("count", "broadcast %d.%d reached %d of %d connections and returned no error", r.th, r.i, r.n, len(r.conns))
				return
			}
			blocked = blocked || r.at > r.began+ms
		}
		if !direct && r.err == nil {
			// without any open member there is nothing to refuse
			all := true
			for j := range connEnd {
				all = all && connEnd[j] < r.end
			}
			okErr = okErr || all
		}
		if !okErr || isFatal(r.err) && !connMay {
			c.Violate("error", "call %d.%d (kind %d) returned %v (closed before %v, meanwhile %v; cancelled before %v, meanwhile %v; connection closed before %v, meanwhile %v)",
				r.th, r.i, r.o.K, r.err, afterClose, duringClose, afterCancel, duringCancel, connGone, connMay)
			return
		}
	}
	got := map[string]map[int]time.Duration{}
	bySize, pendingAtEnd, full := false, false, false
	for i := range p.Conns {
		for b, bt := range arrived[i] {
			sum := 0
			for _, e := range bt.els {
				sum += len(e)
				r := byData[string(e)]
				if r == nil || !r.conns[i] {
					c.Violate("content", "connection %d got an element nobody sent to it: %s", i, trunc(e, 60))
					return
				}
				if r.err != nil && r.o.K <= blJSON {
					c.Violate("refused-but-sent", "connection %d got %d.%d, which was refused: %v", i, r.th, r.i, r.err)
					return
				}
				if got[string(e)] == nil {
					got[string(e)] = map[int]time.Duration{}
				}
				if _, dup := got[string(e)][i]; dup {
					c.Violate("exactly-once", "connection %d got %d.%d twice", i, r.th, r.i)
					return
				}
				got[string(e)][i] = bt.at
			}
			if len(bt.els) == 0 {
				c.Violate("empty-batch", "connection %d: batch %d is empty", i, b)
				return
			}
			if sum > limit && len(bt.els) > 1 {
				c.Violate("size", "connection %d: batch %d has %d messages of %d bytes together, the limit is %d", i, b, len(bt.els), sum, limit)
				return
			}
			bySize = bySize || sum <= limit && sum*2 > limit && len(bt.els) > 1
		}
	}
	for i := range p.Conns {
		if p.Stalled > 0 && i == p.Conns-1 {
			continue
		}
		last := -1 // the last batch that was sent although the next message would have fitted
		for b, bt := range arrived[i] {
			if b+1 < len(arrived[i]) && ctxEnd <= arrived[i][b+1].at {
				break // the batch between these two may have been dropped
			}
			sum := 0
			for _, e := range bt.els {
				sum += len(e)
			}
			if b+1 < len(arrived[i]) && sum+len(arrived[i][b+1].els[0]) > limit {
				full = true
				c.ClassIf(sum == limit, "exactly-full")
				continue
			}
			if b+1 == len(arrived[i]) && (ctxEnd < c20Never || connEnd[i] < c20Never) || closeStart < c20Never && closeAt <= bt.at {
				break // the next one may have been lost with the end
			}
			if last >= 0 && bt.at-arrived[i][last].at < interval {
				c.Violate("early", "connection %d: batches %d and %d were sent at %v and %v (interval %v), though the messages after them would have fitted (%d bytes, limit %d)", i, last, b, arrived[i][last].at, bt.at, interval, sum, limit)
				return
			}
			last = b
		}
	}
	for _, r := range recs {
		if r.err != nil {
			continue
		}
		for i := range r.conns {
			due := r.at + interval
			if closeStart < c20Never && closeStart > r.end { // flushed by the closing at the latest
				if closeAt < due {
					pendingAtEnd = true
				}
				due = min(due, closeAt)
			} else if closeEnd < c20Never && closeAt <= r.at {
				due = r.at // accepted while it was being closed
			}
			stall := p.Stalled > 0 && i == p.Conns-1 && p.Strategy < 2
			if stall {
				due = max(due, time.Duration(p.Stalled)*ms)
			}
			if p.Stalled > 0 && i == p.Conns-1 && p.Queue > 0 && r.o.K > blJSON {
				// waits in the queue behind plain broadcasts first
				if closeStart < c20Never && closeAt <= time.Duration(p.Stalled)*ms+ms {
					continue
				}
				due = max(due, time.Duration(p.Stalled)*ms+interval)
			}
			if ctxEnd <= due {
				pendingAtEnd = true
				continue // cancelled before
			}
			if connEnd[i] < c20Never && connAt[i] <= due {
				continue
			}
			if r.o.K > blJSON && closeStart < c20Never && closeAt <= r.at+ms {
				continue // may still be in the broadcast queue of a connection
			}
			at, ok := got[string(r.data)][i]
			if !ok || at > due {
				c.Violate("late", "%d.%d was accepted at %v for connection %d, arrived: %v at %v, due at %v (interval %v, batcher closed: %v at %v)", r.th, r.i, r.at, i, ok, at, due, interval, closeStart < c20Never, closeAt)
				return
			}
		}
	}
	if bySize || pendingAtEnd {
		c.NonTrivial()
	}
	c.ClassIf(full, "full-batch")
	c.ClassIf(blocked, "blocked-broadcast")
	c.ClassIf(bySize, "size-limit")
	c.ClassIf(pendingAtEnd, "pending-at-end")
	c.ClassIf(closeStart < c20Never, "closed")
	c.ClassIf(ctxEnd < c20Never, "cancelled")
	c.Class([]string{"json", "length-prefix", "custom"}[p.Strategy])
}
