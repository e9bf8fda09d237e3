package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	btBatch = iota
	btJSON
	btRoom
	btMgr
	btRoomJSON
	btMgrJSON
	btSend // a plain message in between
	btStream
	btBadJSON
)

// BtOp is one batching call.
type BtOp struct {
	K   int    `json:"k"`
	I   int    `json:"i,omitempty"` // connection
	N   int    `json:"n,omitempty"`
	S   uint32 `json:"s,omitempty"`
	At  int    `json:"at,omitempty"`
	Ex  []int  `json:"ex,omitempty"`
	Bin bool   `json:"bin,omitempty"`
}

type c21Plan struct {
	Strategy int      `json:"strategy"`         // 0 JSON, 1 prefix, 2 custom
	Prefix   int      `json:"prefix,omitempty"` // 0 none, 1 constant, 2 every other time, 3 depends on the batch, 4 empty (length prefix only), 5 longer than a small write buffer, 6 huge now and then
	Suffix   int      `json:"suffix,omitempty"`
	Sender   int      `json:"sender,omitempty"` // custom: 0 records, 1 slow, 2 sends the elements itself, 3 fails, 4 batches again
	Every    int      `json:"every,omitempty"`
	MaxBatch int      `json:"max,omitempty"`
	WriteBuf int      `json:"writebuf,omitempty"`
	NoPool   bool     `json:"nopool,omitempty"`
	Latency  []int    `json:"latency,omitempty"`
	Conns    int      `json:"conns"`
	Cut      int      `json:"cut,omitempty"` // the batcher's context is cancelled after so many ms, wherever a batch is at that time
	Threads  [][]BtOp `json:"threads"`
}

func init() {
	core.Register(&core.Prop{
		ID:         "C21",
		RaceShards: 1,
		New:        func() any { return &c21Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c21Plan{Strategy: intn(t, "strategy", 0, 2), Every: pick(t, "every", 0, 1, 3, 10, 50), MaxBatch: pick(t, "max", 0, 0, 1, 10, 40, 200, 5000),
				WriteBuf: pick(t, "writebuf", 0, 0, 20, 30, 64, 200), NoPool: chance(t, "nopool", 30), Conns: pick(t, "conns", 1, 1, 2, 3)}
			if p.Strategy < 2 {
				p.Prefix, p.Suffix = pick(t, "prefix", 0, 0, 1, 2, 3, 4, 5), pick(t, "suffix", 0, 0, 1, 2, 3, 4, 5)
				if p.WriteBuf == 0 && chance(t, "longfix", 4) {
					p.Prefix, p.Suffix = pick(t, "prefix", 0, 3, 6), pick(t, "suffix", 0, 3, 6)
				}
			} else {
				p.Sender = intn(t, "sender", 0, 4)
			}
			p.Latency = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 7, 30}), 0, 3).Draw(t, "latency")
			if chance(t, "cuts", 25) {
				p.Cut = pick(t, "cut", 1, 2, 4, 11, 25, 60, 61, 62, 63, 64, 67, 90, 150)
			}
			for range pick(t, "nthreads", 1, 1, 2, 3, 5) {
				var l []BtOp
				for range intn(t, "nops", 1, 15) {
					o := BtOp{K: pick(t, "k", btBatch, btBatch, btBatch, btBatch, btJSON, btJSON, btRoom, btRoom, btMgr, btRoomJSON, btMgrJSON, btSend, btStream, btBadJSON), I: intn(t, "i", 0, p.Conns-1),
						N: pick(t, "n", 0, 1, 2, 5, 9, 10, 11, 30, 100, 300), S: genSeed(t), At: pick(t, "at", 0, 0, 0, 0, 1, 2, 5, 20, 60)}
					if p.WriteBuf == 0 && chance(t, "big", 4) {
						o.N = pick(t, "bign", 3000, 9000, 70000)
					}
					if o.K >= btRoom && o.K <= btMgrJSON && chance(t, "ex", 30) {
						for range pick(t, "nex", 1, 1, 2, 3, 12, 24) {
							o.Ex = append(o.Ex, intn(t, "x", 0, p.Conns-1))
						}
					}
					if p.Strategy > 0 && (o.K == btBatch || o.K == btRoom || o.K == btMgr) {
						o.Bin = chance(t, "bin", 60)
					}
					l = append(l, o)
				}
				p.Threads = append(p.Threads, l)
			}
			return p
		},
		Run:      c21Run,
		Quick:    30000,
		Thorough: 400000,
		Rule:     "1-5 threads of raw, JSON and broadcast batching calls with plain sends between them on 1-3 connections, with every strategy, prefix and suffix functions (also ones that return nothing for some batches), custom senders (slow, failing, sending themselves, batching again), size limits, intervals, tiny write buffers and transport latencies; non-trivial: some batch had at least two elements and there were at least two batches",
	})
}

type btRec struct {
	path       string // messages of one path keep their order
	seq        int
	th         int
	data       []byte
	conns      map[int]bool
	start, end int64
	async      bool
	failed     bool
}

func btData(p *c21Plan, th, i int, o BtOp) []byte {
	tag := fmt.Sprintf("%d.%d|", th, i)
	if o.Bin {
		if o.N == 0 && o.S%2 == 0 {
			return []byte{} // messages without content are messages, too
		}
		if o.N == 0 {
			return []byte(tag)
		}
		return append([]byte(tag), Pay{o.N, o.S}.Bytes()...)
	}
	// JSON documents of several kinds
	s, _ := json.Marshal(tag + string(Pay{o.N, o.S}.Text()))
	switch o.S % 4 {
	case 0:
		return []byte(fmt.Sprintf(`{"t":%s,"l":[1,2,{"x":null}]}`, s))
	case 1:
		return []byte(fmt.Sprintf(`[%s,true]`, s))
	}
	return s
}

func c21Run(c *core.Case, plan any) {
	p := plan.(*c21Plan)
	ms := time.Millisecond
	total := 0
	for _, l := range p.Threads {
		total += len(l)
	}
	opts := &snapws.Options{WriteWait: 1000 * time.Hour, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, MaxBatchSize: p.MaxBatch, WriteBufferSize: p.WriteBuf,
		DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: total + 1}
	u := snapws.NewUpgrader(opts)
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	every := time.Duration(p.Every) * ms
	var mu sync.Mutex
	var conns []*snapws.Conn
	var mcs []*mem.Conn
	idx := func(k *snapws.Conn) int {
		mu.Lock()
		defer mu.Unlock()
		for i, x := range conns {
			if x == k {
				return i
			}
		}
		return -1
	}
	clone := func(m [][]byte) [][]byte {
		out := make([][]byte, len(m))
		for i := range m {
			out[i] = bytes.Clone(m[i])
		}
		return out
	}
	equal := func(a, b [][]byte) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !bytes.Equal(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	type call struct {
		msgs [][]byte
		ret  []byte
		some bool
	}
	var pre, suf, cust [3][]call
	again := 0
	again2 := 0
	var againData []string
	mk := func(list *[3][]call, kind int, name string) snapws.PrefixSuffixFunc {
		if kind == 0 {
			return nil
		}
		return func(k *snapws.Conn, msgs [][]byte) []byte {
			i := idx(k)
			if i < 0 {
				c.Violate("hook-conn", "%s function was called with an unknown connection", name)
				return nil
			}
			cl := call{msgs: clone(msgs)}
			mu.Lock()
			defer mu.Unlock()
			n := len(list[i])
			var r []byte
			switch {
			case kind == 1:
				r = []byte(`"` + name + `"`)
			case kind == 2 && n%2 == 0:
				r = []byte(fmt.Sprintf(`{"%s":%d}`, name, n))
			case kind == 3:
				r = []byte(fmt.Sprintf(`"%s%d of %d"`, name, n, len(msgs)))
			case kind == 5:
				r = []byte(fmt.Sprintf(`"%s%d %040d"`, name, n, len(msgs)))
			case kind == 6:
				r = []byte(fmt.Sprintf(`"%s%d %0*d"`, name, n, []int{1, 65530, 300, 70000}[n%4], len(msgs)))
			case kind == 4 && p.Strategy == 1:
				r = []byte{}
			}
			cl.ret, cl.some = bytes.Clone(r), r != nil
			list[i] = append(list[i], cl)
			return r
		}
	}
	active := map[*snapws.Conn]int{}
	sender := func(ctx context.Context, k *snapws.Conn, msgs [][]byte) error {
		i := idx(k)
		if i < 0 || ctx == nil {
			c.Violate("hook-conn", "the custom sender was called with an unknown connection or no context")
			return nil
		}
		keep := clone(msgs)
		mu.Lock()
		cust[i] = append(cust[i], call{msgs: keep})
		n := len(cust[i])
		active[k]++
		if active[k] > 1 {
			mu.Unlock()
			c.Violate("custom-overlap", "the custom sender runs twice at a time for one connection: batches may overtake one another")
			return nil
		}
		mu.Unlock()
		defer func() {
			mu.Lock()
			active[k]--
			mu.Unlock()
			if !equal(keep, msgs) {
				c.Violate("changed", "the slice given to the custom sender changed while it was working")
			}
		}()
		switch p.Sender {
		case 1:
			time.Sleep(time.Duration(5+n%3*20) * ms)
		case 2:
			for _, m := range msgs {
				if err := k.SendBytes(ctx, m); err != nil && p.Cut == 0 {
					c.Violate("send", "SendBytes in the custom sender failed: %v", err)
				}
			}
		case 3:
			return errors.New("custom failure")
		case 4:
			mu.Lock()
			ok := again < 3
			if ok {
				again++
			}
			id := again
			mu.Unlock()
			if ok {
				d := fmt.Sprintf("again %d to %d", id, i)
				err := k.Batch([]byte(d))
				mu.Lock()
				if err == nil {
					again2++
					againData = append(againData, d)
				}
				mu.Unlock()
				if err != nil && p.Cut == 0 {
					c.Violate("batch", "Batch from the custom sender failed: %v", err)
				}
			}
		}
		return nil
	}
	switch p.Strategy {
	case 0:
		u.EnableJSONBatching(bctx, every)
	case 1:
		u.EnablePrefixBatching(bctx, every)
	case 2:
		u.EnableBatching(bctx, every, sender)
	}
	if p.Strategy < 2 {
		if f := mk(&pre, p.Prefix, "pre"); f != nil {
			u.Flusher.BatchPrefixFunc = f
		}
		if f := mk(&suf, p.Suffix, "suf"); f != nil {
			u.Flusher.BatchSuffixFunc = f
		}
	}
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[string](u)
	room := rooms.Add("r")
	for i := range p.Conns {
		mc := mem.New(fmt.Sprint("c", i))
		mcn, err := mgr.Connect(i, newRW(mc, OpenOpts{}), goodReq())
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		if len(p.Latency) > 0 {
			mc.Latency = time.Duration(p.Latency[i%len(p.Latency)]) * ms
		}
		tidy(c, mcn.Conn, mc)
		drain(c, mc.Name, mcn.Conn)
		room.Add(mcn.Conn)
		mu.Lock()
		conns, mcs = append(conns, mcn.Conn), append(mcs, mc)
		mu.Unlock()
	}
	if p.Cut > 0 {
		c.Go("cut", func() {
			time.Sleep(time.Duration(p.Cut) * ms)
			bcancel()
		})
	}
	var clock int64
	tick := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	var recs []*btRec
	type plain struct {
		i    int
		data string
	}
	plains := map[plain]bool{}
	var ops []*core.Op
	for th, l := range p.Threads {
		ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
			for j, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if o.I >= len(conns) {
					continue
				}
				k := conns[o.I]
				r := &btRec{seq: j, th: th, conns: map[int]bool{}}
				r.data = btData(p, th, j, o)
				isJSON := o.K == btJSON || o.K == btRoomJSON || o.K == btMgrJSON
				if isJSON {
					r.data, _ = json.Marshal(json.RawMessage(r.data))
				}
				given := bytes.Clone(r.data)
				out := map[int]bool{}
				var exc []*snapws.Conn
				for _, x := range o.Ex {
					if x < len(conns) {
						out[x] = true
						exc = append(exc, conns[x])
					}
				}
				for i := range conns {
					r.conns[i] = !out[i]
				}
				nrec := len(conns) - len(out)
				n := nrec
				r.start = tick()
				var err error
				r.path, r.async = "broadcast", true
				switch o.K {
				case btBatch, btJSON:
					r.path, r.async = "direct", false
					r.conns = map[int]bool{o.I: true}
					if o.K == btJSON {
						err = k.BatchJSON(json.RawMessage(given))
					} else {
						err = k.Batch(given)
					}
				case btRoom:
					n, err = room.BatchBroadcast(bg, given, exc...)
				case btRoomJSON:
					n, err = room.BatchBroadcastJSON(nil, json.RawMessage(given), exc...)
				case btMgr:
					n, err = mgr.BatchBroadcast(nil, given, o.Ex...)
				case btMgrJSON:
					n, err = mgr.BatchBroadcastJSON(bg, json.RawMessage(given), o.Ex...)
				case btSend, btStream:
					d := fmt.Sprintf("plain %d.%d", th, j)
					mu.Lock()
					plains[plain{o.I, d}] = true
					mu.Unlock()
					if o.K == btSend {
						err = k.SendString(bg, []byte(d))
					} else {
						var w *snapws.ConnWriter
						if w, err = k.NextWriter(bg, snapws.OpcodeText); err == nil {
							w.Write([]byte(d[:4]))
							w.Flush()
							time.Sleep(2 * ms)
							w.Write([]byte(d[4:]))
							err = w.Close()
						}
					}
					if err != nil && p.Cut == 0 {
						c.Violate("send", "a plain send failed: %v", err)
					}
					continue
				case btBadJSON:
					e1 := k.BatchJSON(func() {})
					_, e2 := room.BatchBroadcastJSON(bg, make(chan int))
					n, e3 := mgr.BatchBroadcastJSON(bg, map[string]any{"f": func() {}})
					if e1 == nil || e2 == nil || e3 == nil || n != 0 {
						c.Violate("bad-json", "batching values that have no JSON form returned %v, %v, %v", e1, e2, e3)
					}
					continue
				}
				r.end = tick()
				r.failed = err != nil
				if (err != nil || n != nrec) && p.Cut == 0 {
					c.Violate("batch", "batching call %d.%d (kind %d) returned %d, %v, want %d recipients", th, j, o.K, n, err, nrec)
					return
				}
				mu.Lock()
				recs = append(recs, r)
				mu.Unlock()
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(time.Hour) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	// long enough for the slowest transport and a tiny buffer
	for i, mc := range mcs {
		_ = i
		settle(mc, 300*ms)
	}
	bcancel() // no more ticks
	time.Sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	byData := map[string]*btRec{}
	for _, r := range recs {
		byData[string(r.data)] = r
	}
	nbatch, multi := 0, false
	for i, mc := range mcs {
		s := validWire(c, mc)
		if c.Failed() {
			return
		}
		if mc.LibClosed() && p.Cut == 0 {
			c.Violate("closed", "connection %d was closed (code %d)", i, s.CloseCode)
			return
		}
		var batches [][][]byte
		var elems [][]byte // sent one by one by the custom sender
		for _, m := range s.Msgs {
			if m.Op == ref.Text {
				if !plains[plain{i, string(m.Data)}] {
					c.Violate("content", "connection %d got an unexpected text message %s", i, trunc(m.Data, 60))
					return
				}
				delete(plains, plain{i, string(m.Data)})
				continue
			}
			if p.Strategy == 2 {
				elems = append(elems, m.Data)
				continue
			}
			els, e := decodeBatch(p.Strategy+1, m.Data)
			if e != "" {
				c.Violate("format", "connection %d: %s: %s", i, e, trunc(m.Data, 100))
				return
			}
			batches = append(batches, els)
		}
		if p.Strategy == 2 {
			var flat [][]byte
			for _, cl := range cust[i] {
				batches = append(batches, cl.msgs)
				flat = append(flat, cl.msgs...)
			}
			if p.Sender != 2 {
				flat = nil
			}
			if p.Cut > 0 {
				// some were not sent any more
				var sent [][]byte
				for _, e := range flat {
					if len(sent) < len(elems) && bytes.Equal(e, elems[len(sent)]) {
						sent = append(sent, e)
					}
				}
				flat = sent
			}
			if !equal(flat, elems) {
				c.Violate("content", "connection %d: the custom sender sent %d messages, the peer got %d", i, len(flat), len(elems))
				return
			}
		}
		strip := func(list []call, kind int, front bool, what string) bool {
			if kind == 0 {
				return true
			}
			if len(list) != len(batches) {
				c.Violate(what, "connection %d: %d batches, %d calls of the %s function", i, len(batches), len(list), what)
				return false
			}
			for b, cl := range list {
				if !cl.some {
					continue
				}
				els := batches[b]
				j := 0
				if !front {
					j = len(els) - 1
				}
				if len(els) == 0 || !bytes.Equal(els[j], cl.ret) {
					c.Violate(what, "connection %d: batch %d does not have %s as its %s", i, b, trunc(cl.ret, 80), what)
					return false
				}
				if front {
					batches[b] = els[1:]
				} else {
					batches[b] = els[:j]
				}
			}
			return true
		}
		if p.Cut > 0 && p.Strategy < 2 && p.Prefix+p.Suffix > 0 {
			// batches may be missing, but what arrives is what was meant
			j := 0
			for b, els := range batches {
				ok := false
				for ; j < max(len(pre[i]), len(suf[i])) && !ok; j++ {
					var want, body [][]byte
					if j < len(pre[i]) {
						if body = pre[i][j].msgs; pre[i][j].some {
							want = append(want, pre[i][j].ret)
						}
					}
					if j < len(suf[i]) {
						body = suf[i][j].msgs
					}
					want = append(want, body...)
					if j < len(suf[i]) && suf[i][j].some {
						want = append(want, suf[i][j].ret)
					}
					if equal(want, els) {
						ok = true
						batches[b] = body
					}
				}
				if !ok {
					c.Violate("cut-batch", "connection %d: batch %d of %d elements is none of those that were put together", i, b, len(els))
					return
				}
			}
		} else if !strip(pre[i], p.Prefix, true, "prefix") || !strip(suf[i], p.Suffix, false, "suffix") {
			return
		}
		for b, els := range batches {
			if len(els) == 0 {
				c.Violate("empty-batch", "connection %d: batch %d is empty", i, b)
				return
			}
			for _, l := range []*[3][]call{&pre, &suf} {
				if p.Cut == 0 && len(l[i]) > b && !equal(l[i][b].msgs, els) {
					c.Violate("hook-messages", "connection %d: the prefix or suffix function of batch %d was given other messages than were sent", i, b)
					return
				}
			}
			nbatch++
			multi = multi || len(els) > 1
		}
		got := map[*btRec]bool{}
		var prev []*btRec
		nAgain := 0
		empty := 0
		for _, els := range batches {
			for _, e := range els {
				if len(e) == 0 {
					empty++
					continue
				}
				if bytes.HasPrefix(e, []byte("again ")) {
					nAgain++
					continue
				}
				r := byData[string(e)]
				if r == nil || !r.conns[i] || r.failed && !r.async {
					c.Violate("content", "connection %d got an element nobody sent to it: %s", i, trunc(e, 80))
					return
				}
				if got[r] {
					c.Violate("exactly-once", "connection %d got %d.%d twice", i, r.th, r.seq)
					return
				}
				got[r] = true
				for _, x := range prev {
					if x.path == r.path && r.end < x.start || !r.async && x.async && r.end < x.start {
						c.Violate("order", "connection %d got %d.%d after %d.%d, which was batched later", i, r.th, r.seq, x.th, x.seq)
						return
					}
				}
				prev = append(prev, r)
			}
		}
		wantAgain := 0
		for _, d := range againData {
			if d[len(d)-1] == byte('0'+i) {
				wantAgain++
			}
		}
		if nAgain != wantAgain && p.Cut == 0 {
			c.Violate("lost", "connection %d: %d messages batched by the custom sender, %d delivered", i, wantAgain, nAgain)
			return
		}
		for _, r := range recs {
			if len(r.data) == 0 {
				if r.conns[i] && (!r.failed || r.async) {
					empty--
				}
				continue
			}
			if r.conns[i] && !got[r] && p.Cut == 0 {
				c.Violate("lost", "connection %d never got %d.%d (%d bytes)", i, r.th, r.seq, len(r.data))
				return
			}
		}
		if empty > 0 || empty < 0 && p.Cut == 0 {
			c.Violate("empty", "connection %d got %+d messages without content too many", i, empty)
			return
		}
	}
	c.ClassIf(p.Cut > 0, "cut")
	if len(plains) > 0 && p.Cut == 0 {
		c.Violate("lost", "%d plain messages were not delivered", len(plains))
	}
	if multi && nbatch > 1 {
		c.NonTrivial()
	}
	c.Class([]string{"json", "length-prefix", "custom"}[p.Strategy])
	c.ClassIf(p.Prefix+p.Suffix > 0, "prefix-or-suffix")
}
