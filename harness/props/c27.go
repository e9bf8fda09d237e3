package props

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	cfSize = iota
	cfFrags
	cfWriteWait
	cfReadWait
	cfPing
	cfQueue
	cfBatch
	cfInterval
	cfUTF8
	cfKinds
)

// CfOpts is the configuration of one upgrader; zero: not set.
type CfOpts struct {
	Via      int  `json:"via,omitempty"` // who makes the upgrader: 0 NewUpgrader, 1 NewRoomManager(nil), 2 NewManager(nil), 3 NewUpgrader(nil); 1-3 set nothing
	WW       int  `json:"ww,omitempty"`  // ms
	RW       int  `json:"rw,omitempty"`
	PE       int  `json:"pe,omitempty"`
	Max      int  `json:"max,omitempty"`
	Frags    int  `json:"frags,omitempty"`
	ReadBuf  int  `json:"readbuf,omitempty"`
	WriteBuf int  `json:"writebuf,omitempty"`
	Queue    int  `json:"queue,omitempty"`
	Strategy int  `json:"strategy,omitempty"`
	MaxBatch int  `json:"maxbatch,omitempty"`
	Batching int  `json:"batching,omitempty"` // 1 JSON, 2 prefix
	Every    int  `json:"every,omitempty"`    // ms
	Skip     bool `json:"skip,omitempty"`
	NoPool   bool `json:"nopool,omitempty"`
}

// CfProbe measures one setting on a connection of its own.
type CfProbe struct {
	U    int    `json:"u,omitempty"`
	K    int    `json:"k"`
	Seed uint32 `json:"seed,omitempty"`
	At   int    `json:"at,omitempty"` // ms
	Text bool   `json:"text,omitempty"`
}

type c27Plan struct {
	Ups    []CfOpts  `json:"ups"`
	Same   bool      `json:"same,omitempty"` // the second upgrader is given the Options value of the first
	Conc   bool      `json:"conc,omitempty"` // the probes run at the same time
	Probes []CfProbe `json:"probes"`
}

func init() {
	core.Register(&core.Prop{
		ID:  "C27",
		New: func() any { return &c27Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c27Plan{Same: chance(t, "same", 10), Conc: chance(t, "conc", 40)}
			for range pick(t, "ups", 1, 1, 2) {
				var o CfOpts
				if chance(t, "nil", 15) {
					o.Via = intn(t, "via", 1, 3)
				} else {
					o.WW = pick(t, "ww", 0, 0, 1, 10, 100, 733, 5001, 20000)
					w := pick(t, "wait", [2]int{0, 0}, [2]int{0, 0}, [2]int{0, 1000}, [2]int{0, 59000}, [2]int{90000, 0}, [2]int{1000, 700}, [2]int{200, 100}, [2]int{3600000, 600000}, [2]int{51000, 0})
					o.RW, o.PE = w[0], w[1]
					o.Max = pick(t, "max", 0, -1, 1, 2, 100, 125, 126, 5000, 65535, 65536, 200000)
					o.Frags = pick(t, "frags", 0, 0, 1, 2, 3, 10, 100)
					o.ReadBuf = pick(t, "readbuf", 0, 0, 1, 128, 5000)
					o.WriteBuf = pick(t, "writebuf", 0, 0, 1, 15, 64, 5000)
					o.Queue = pick(t, "queue", 0, 0, 1, 2, 7, 9, 30)
					o.Strategy = pick(t, "strategy", 0, 0, 1, 2)
					o.MaxBatch = pick(t, "maxbatch", 0, 1, 2, 50, 1000, 100000)
					o.Batching = pick(t, "batching", 0, 1, 2)
					o.Every = pick(t, "every", 0, 0, 3, 20, 200, 1000)
					o.Skip = rapid.Bool().Draw(t, "skip")
					o.NoPool = rapid.Bool().Draw(t, "nopool")
				}
				p.Ups = append(p.Ups, o)
			}
			for range intn(t, "n", 1, 5) {
				p.Probes = append(p.Probes, CfProbe{U: intn(t, "u", 0, len(p.Ups)-1), K: intn(t, "k", 0, cfKinds-1), Seed: genSeed(t), At: pick(t, "at", 0, 0, 1, 7, 1000), Text: rapid.Bool().Draw(t, "text")})
			}
			return p
		},
		Enum: func(bool) []any {
			var out []any
			// every setting of an upgrader that sets nothing, and with only one thing set
			for via := range 4 {
				for k := range cfKinds {
					out = append(out, &c27Plan{Ups: []CfOpts{{Via: via}}, Probes: []CfProbe{{K: k}, {K: k, Text: true}}})
				}
			}
			one := []CfOpts{{WW: 300}, {RW: 70000}, {PE: 20000}, {Max: 77}, {Max: -1}, {Frags: 4}, {ReadBuf: 200}, {WriteBuf: 40}, {Queue: 3}, {Strategy: 1}, {Strategy: 2}, {MaxBatch: 60}, {Batching: 1}, {Batching: 2}, {Skip: true}, {NoPool: true}, {Batching: 1, Every: 20}, {Batching: 2, Every: 20}}
			for _, o := range one {
				for k := range cfKinds {
					out = append(out, &c27Plan{Ups: []CfOpts{o, {}}, Conc: true, Probes: []CfProbe{{K: k}, {K: k, U: 1}, {K: k, Text: true}}})
					out = append(out, &c27Plan{Ups: []CfOpts{{}, o}, Same: k%2 == 0, Probes: []CfProbe{{K: k}, {K: k, U: 1}}})
				}
			}
			return out
		},
		Run:      c27Run,
		Quick:    12000,
		Thorough: 60000,
		Rule:     "1-2 upgraders with generated settings (each left unset in a large share of cases, also nil Options and managers that make their own upgrader), and 1-5 probes, one after another or at the same time, each measuring one setting on its own connection: largest message, most fragments, duration of a stalled write, time until a silent peer is dropped, time between pings, queue length and what happens beyond it, largest batch, time between batches, UTF-8 validation; plus every probe with nothing and with one thing set; non-trivial: a probe of a setting that is unset, or two upgraders",
		Assumptions: []string{
			"ReadWait is larger than PingEvery, as documented",
			"a queue of n messages accepts n or n+1 (one may be on its way to the writer)"},
	})
}

// cfUp is an upgrader with the values that are supposed to be in force.
type cfUp struct {
	o                  CfOpts
	u                  *snapws.Upgrader
	rooms              *snapws.RoomManager[string]
	ww, rw, pe, every  time.Duration
	max, queue, batch  int
	began              time.Time
	connected, discons int
	opened             int
}

func c27Run(c *core.Case, plan any) {
	p := plan.(*c27Plan)
	if len(p.Ups) == 0 {
		return
	}
	ms := time.Millisecond
	or := func(v, d int) int {
		if v == 0 {
			return d
		}
		return v
	}
	var mu sync.Mutex
	var ups []*cfUp
	var shared *snapws.Options
	for i, o := range p.Ups {
		if o.Via != 0 {
			o = CfOpts{Via: o.Via, Batching: o.Batching, Every: o.Every}
		}
		if i == 1 && p.Same && shared != nil {
			b, e := o.Batching, o.Every
			o = ups[0].o
			o.Batching, o.Every = b, e
		}
		w := &cfUp{o: o, max: or(o.Max, 1<<20), queue: or(o.Queue, 8), batch: or(o.MaxBatch, 1<<20), began: time.Now()}
		w.ww, w.rw, w.pe, w.every = time.Duration(or(o.WW, 5000))*ms, time.Duration(or(o.RW, 60000))*ms, time.Duration(or(o.PE, 50000))*ms, time.Duration(or(o.Every, 50))*ms
		switch o.Via {
		case 1:
			w.rooms = snapws.NewRoomManager[string](nil)
			w.u = w.rooms.Upgrader
		case 2:
			w.u = snapws.NewManager[string](nil).Upgrader
		case 3:
			w.u = snapws.NewUpgrader(nil)
		default:
			opts := &snapws.Options{WriteWait: time.Duration(o.WW) * ms, ReadWait: time.Duration(o.RW) * ms, PingEvery: time.Duration(o.PE) * ms, MaxMessageSize: o.Max, ReaderMaxFragments: o.Frags,
				ReadBufferSize: o.ReadBuf, WriteBufferSize: o.WriteBuf, BroadcastChannelsSize: o.Queue, MaxBatchSize: o.MaxBatch, SkipUTF8Validation: o.Skip, DisableWriteBuffersPooling: o.NoPool}
			if o.Strategy != 0 {
				opts.BroadcastBackpressure = []snapws.BackpressureStrategy{snapws.BackpressureDrop, snapws.BackpressureClose, snapws.BackpressureWait}[o.Strategy]
			}
			if i == 1 && p.Same && shared != nil {
				opts = shared
			}
			if i == 0 {
				shared = opts
			}
			w.u = snapws.NewUpgrader(opts)
		}
		if w.u == nil {
			c.Violate("nil-upgrader", "a manager made with a nil upgrader has none")
			return
		}
		if w.rooms == nil {
			w.rooms = snapws.NewRoomManager[string](w.u)
		}
		if !(i == 1 && p.Same && shared != nil) { // the hooks belong to the Options value
			w.u.OnConnect = func(*snapws.Conn) { mu.Lock(); w.connected++; mu.Unlock() }
			w.u.OnDisconnect = func(*snapws.Conn) { mu.Lock(); w.discons++; mu.Unlock() }
		}
		bctx, bcancel := context.WithCancel(bg)
		c.Cleanup(bcancel)
		switch o.Batching {
		case 1:
			w.u.EnableJSONBatching(bctx, time.Duration(o.Every)*ms)
		case 2:
			w.u.EnablePrefixBatching(bctx, time.Duration(o.Every)*ms)
		}
		ups = append(ups, w)
	}
	c.ClassIf(len(ups) > 1, "two-upgraders")
	if len(ups) > 1 {
		c.NonTrivial()
	}
	var ops []*core.Op
	for i, k := range p.Probes {
		w := ups[k.U%len(ups)]
		run := func() {
			time.Sleep(time.Duration(k.At) * ms)
			c27Probe(c, w, i, k, &mu)
		}
		if p.Conc {
			ops = append(ops, c.Go(fmt.Sprint("probe ", i), run))
		} else if !c.Must("hang", fmt.Sprint("probe ", i), 30*time.Hour, run) || c.Failed() {
			return
		}
	}
	for _, o := range ops {
		if !o.Wait(30 * time.Hour) {
			c.Violate("hang", "%s does not end:\n%s", o.Name, firstStack())
			return
		}
	}
	if c.Failed() {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	conn, disc, n := 0, 0, 0
	for _, w := range ups {
		conn, disc, n = conn+w.connected, disc+w.discons, n+w.opened
		if !p.Same && (w.connected != w.opened || w.discons != w.opened) {
			c.Violate("hooks", "%d connections were opened and closed, OnConnect ran %d times, OnDisconnect %d times", w.opened, w.connected, w.discons)
		}
	}
	if conn != n || disc != n {
		c.Violate("hooks", "%d connections were opened and closed, OnConnect ran %d times, OnDisconnect %d times", n, conn, disc)
	}
}

func c27Probe(c *core.Case, w *cfUp, i int, k CfProbe, mu *sync.Mutex) {
	ms := time.Millisecond
	mc := mem.New(fmt.Sprint("probe ", i))
	if k.K == cfPing {
		answerPings(mc)
	}
	conn := open(c, w.u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	mu.Lock()
	w.opened++
	mu.Unlock()
	start := time.Now()
	unset := func(b bool, s string) {
		if b {
			c.Class("default-" + s)
			c.NonTrivial()
		} else {
			c.Class("set-" + s)
		}
	}
	// the transport ends and everything is over
	defer func() {
		mc.Kill()
		conn.Close()
	}()
	op := ref.Binary
	if k.Text {
		op = ref.Text
	}
	type read struct {
		n    int
		data []byte
		err  error
	}
	reads := make(chan read, 20)
	reader := func() {
		c.Go(fmt.Sprint("reader ", i), func() {
			for {
				_, d, err := conn.ReadMessage()
				reads <- read{len(d), d, err}
				if err != nil {
					return
				}
			}
		})
	}
	closedWith := func(code int) (string, bool) {
		time.Sleep(ms)
		s := wire(mc)
		return fmt.Sprintf("code %d, transport closed %v", s.CloseCode, mc.LibClosed()), s.CloseAt >= 0 && s.CloseCode == code && mc.LibClosed()
	}
	switch k.K {
	case cfSize:
		unset(w.o.Max == 0, "size")
		reader()
		n := w.max
		if n < 0 {
			n = 1<<20 + 1 + int(k.Seed)
		}
		if w.o.Frags > 0 && w.o.Frags < 2 || k.Seed%2 == 0 {
			mc.Feed(dataFrame(op, true, Pay{n, k.Seed}.Of(true)))
		} else {
			d := Pay{n, k.Seed}.Of(true)
			mc.Feed(dataFrame(op, false, d[:n/2]))
			mc.Feed(dataFrame(ref.Cont, true, d[n/2:]))
		}
		time.Sleep(ms)
		if r := <-reads; r.err != nil || !bytes.Equal(r.data, Pay{n, k.Seed}.Of(true)) {
			c.Violate("size", "a message of %d bytes with MaxMessageSize %d (%d configured): read %d bytes, %v", n, w.max, w.o.Max, r.n, r.err)
			return
		}
		if w.max < 0 {
			return
		}
		mc.Feed(dataFrame(op, true, Pay{n + 1, k.Seed}.Of(true)))
		time.Sleep(ms)
		r := <-reads
		if what, ok := closedWith(1009); r.err == nil || !isFatal(r.err) || !ok {
			c.Violate("size", "a message of %d bytes with MaxMessageSize %d (%d configured): read %d bytes, %v; %s", n+1, w.max, w.o.Max, r.n, r.err, what)
		}
	case cfFrags:
		unset(w.o.Frags == 0, "fragments")
		reader()
		feed := func(n int) {
			for j := range n {
				o := op
				if j > 0 {
					o = ref.Cont
				}
				d := []byte{}
				if j == 0 {
					d = []byte("x")
				}
				mc.Feed(dataFrame(o, j == n-1, d))
			}
			time.Sleep(ms)
		}
		n := w.o.Frags
		if n == 0 {
			n = 300
		}
		feed(n)
		if r := <-reads; r.err != nil || r.n != 1 {
			c.Violate("fragments", "a message of %d fragments with ReaderMaxFragments %d: read %d bytes, %v", n, w.o.Frags, r.n, r.err)
			return
		}
		if w.o.Frags == 0 {
			return
		}
		feed(n + 1)
		r := <-reads
		if what, ok := closedWith(1008); r.err == nil || !isFatal(r.err) || !ok {
			c.Violate("fragments", "a message of %d fragments with ReaderMaxFragments %d: read %d bytes, %v; %s", n+1, w.o.Frags, r.n, r.err, what)
		}
	case cfWriteWait:
		unset(w.o.WW == 0, "write-wait")
		from := len(mc.Writes())
		mc.SetCredit(0)
		if err := conn.SendMessage(bg, uint8(op), []byte("stalled")); !isFatal(err) {
			c.Violate("write-wait", "a send to a stalled transport returned %v", err)
			return
		}
		for _, r := range mc.Writes()[from:] {
			if d := r.End.Sub(r.Start); d < w.ww || d > w.ww+ms {
				c.Violate("write-wait", "a stalled write was given up after %v, WriteWait is %v (%d configured)", d, w.ww, w.o.WW)
			}
			return
		}
	case cfReadWait:
		unset(w.o.RW == 0, "read-wait")
		reader()
		time.Sleep(w.rw + 10*ms)
		at, ok := mc.ClosedAt()
		if !ok || at.Sub(start) < w.rw || at.Sub(start) > w.rw+10*ms {
			c.Violate("read-wait", "a silent peer was dropped: %v, after %v; ReadWait is %v (%d configured)", ok, at.Sub(start), w.rw, w.o.RW)
		}
	case cfPing:
		unset(w.o.PE == 0, "ping-every")
		reader()
		n := 1 + int(k.Seed%3)
		for j := range n {
			time.Sleep(time.Until(start.Add(time.Duration(j+1)*w.pe - ms/2)))
			before := pingCount(mc)
			time.Sleep(ms)
			if after := pingCount(mc); before != j || after != j+1 {
				c.Violate("ping-every", "shortly before %d times PingEvery (%v, %d configured) %d pings had been sent, shortly after it %d", j+1, w.pe, w.o.PE, before, after)
				return
			}
		}
	case cfQueue:
		unset(w.o.Queue == 0, "queue")
		unset(w.o.Strategy == 0, "strategy")
		room := w.rooms.Add(fmt.Sprint("room ", i))
		room.Add(conn)
		wr, err := conn.NextWriter(bg, ref.Binary)
		if err != nil {
			c.Violate("queue", "NextWriter: %v", err)
			return
		}
		accepted := 0
		full := false
		for j := range w.queue + 4 {
			// only the context of a call that waits ends
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			at := time.Now()
			timer := time.AfterFunc(3*ms, cancel)
			n, err := room.BroadcastString(ctx, []byte(fmt.Sprint("m", j)))
			timer.Stop()
			d := time.Since(at)
			time.Sleep(ms / 10)
			if n == 1 && err == nil && !full {
				accepted++
				continue
			}
			if n != 0 || accepted < w.queue || accepted > w.queue+1 {
				c.Violate("queue", "broadcast %d to a connection that takes nothing returned %d, %v after %d had been accepted; BroadcastChannelsSize is %d (%d configured)", j, n, err, accepted, w.queue, w.o.Queue)
				return
			}
			full = true
			switch w.o.Strategy {
			case 0:
				if err != nil || d > 0 {
					c.Violate("strategy", "with BackpressureDrop a broadcast beyond the queue returned %v after %v", err, d)
					return
				}
			case 1:
				time.Sleep(10 * ms)
				if what, ok := closedWith(1008); err != nil || d > 0 || !ok {
					c.Violate("strategy", "with BackpressureClose a broadcast beyond the queue returned %v after %v; %s", err, d, what)
				}
				wr.Close()
				return
			case 2:
				if err != context.Canceled || d != 3*ms {
					c.Violate("strategy", "with BackpressureWait a broadcast beyond the queue returned %v after %v", err, d)
					return
				}
			}
		}
		if accepted > w.queue+1 {
			c.Violate("queue", "%d broadcasts were accepted for a connection that takes nothing; BroadcastChannelsSize is %d (%d configured)", accepted, w.queue, w.o.Queue)
			return
		}
		if mc.LibClosed() {
			c.Violate("strategy", "the connection was closed although BackpressureClose is not configured")
			return
		}
		wr.Close()
		time.Sleep(ms)
		s := validWire(c, mc)
		n := 0
		for _, m := range s.Msgs {
			if m.Op == ref.Text {
				n++
			}
		}
		if n != accepted {
			c.Violate("queue", "%d broadcasts were accepted, %d arrived", accepted, n)
		}
	case cfBatch, cfInterval:
		if w.o.Batching == 0 {
			if err := conn.Batch([]byte("1")); err != snapws.ErrBatchingUninitialized {
				c.Violate("batching", "Batch without batching returned %v", err)
			}
			return
		}
		// between two flushes
		since := time.Since(w.began) % w.every
		time.Sleep(w.every - since + w.every/2)
		el := func(n int) []byte {
			if n < 3 {
				return bytes.Repeat([]byte("7"), n)
			}
			return append(append([]byte{'"'}, bytes.Repeat([]byte("e"), n-2)...), '"')
		}
		base := len(wire(mc).Msgs)
		got := func() (l [][]int) {
			s := validWire(c, mc)
			for _, m := range s.Msgs[min(base, len(s.Msgs)):] {
				els, e := decodeBatch(w.o.Batching, m.Data)
				if e != "" {
					c.Violate("batch", "%s", e)
				}
				var sizes []int
				for _, x := range els {
					sizes = append(sizes, len(x))
				}
				l = append(l, sizes)
			}
			return
		}
		if k.K == cfBatch {
			unset(w.o.MaxBatch == 0, "batch-size")
			a := w.batch/2 + int(k.Seed)%max(w.batch/3, 1)
			var sizes []int
			if w.batch-a > 0 && a > 0 {
				sizes = []int{a, w.batch - a}
			} else {
				sizes = []int{w.batch}
			}
			for _, n := range append(append([]int{}, sizes...), 1) {
				if err := conn.Batch(el(n)); err != nil {
					c.Violate("batch", "Batch: %v", err)
					return
				}
			}
			time.Sleep(w.every/4 + ms/2)
			if g := fmt.Sprint(got()); g != fmt.Sprint([][]int{sizes}) {
				c.Violate("batch-size", "MaxBatchSize is %d (%d configured); messages of %v and 1 byte were batched, of them %s was sent at once", w.batch, w.o.MaxBatch, sizes, g)
				return
			}
			time.Sleep(w.every)
			if g := fmt.Sprint(got()); g != fmt.Sprint([][]int{sizes, {1}}) {
				c.Violate("batch-size", "MaxBatchSize is %d (%d configured); messages of %v and 1 byte were batched as %s", w.batch, w.o.MaxBatch, sizes, g)
			}
			return
		}
		unset(w.o.Every == 0, "interval")
		if w.batch < 100 {
			return
		}
		from := time.Now()
		for range 24 { // eight per interval
			conn.Batch(el(1))
			time.Sleep(w.every / 8)
		}
		time.Sleep(w.every)
		var at []time.Time
		for _, r := range mc.Writes() {
			if r.Start.After(from) && len(r.Data) > 0 && r.Data[0]&0x7f == 2 {
				at = append(at, r.Start)
			}
		}
		if len(at) < 3 {
			c.Violate("interval", "only %d batches were sent in %v, the interval is %v (%d configured)", len(at), time.Since(from), w.every, w.o.Every)
			return
		}
		for j := 1; j < len(at); j++ {
			if d := at[j].Sub(at[j-1]); d < w.every-ms/100 || d > w.every+ms/100 {
				c.Violate("interval", "batches are %v apart, the interval is %v (%d configured)", d, w.every, w.o.Every)
				return
			}
		}
	case cfUTF8:
		unset(!w.o.Skip, "utf8")
		if w.max >= 0 && w.max < 2 {
			return
		}
		reader()
		mc.Feed(dataFrame(ref.Binary, true, []byte("\xff\xfe")))
		time.Sleep(ms)
		if r := <-reads; r.err != nil || string(r.data) != "\xff\xfe" {
			c.Violate("utf8", "a binary message was not delivered: %q, %v", r.data, r.err)
			return
		}
		mc.Feed(dataFrame(ref.Text, true, []byte("\xc3\x28")))
		time.Sleep(ms)
		r := <-reads
		if w.o.Skip {
			if r.err != nil || string(r.data) != "\xc3\x28" {
				c.Violate("utf8", "with SkipUTF8Validation an invalid text was not delivered: %q, %v", r.data, r.err)
			}
			return
		}
		if what, ok := closedWith(1007); r.err == nil || !isFatal(r.err) || !ok {
			c.Violate("utf8", "an invalid text was read as %q, %v; %s", r.data, r.err, what)
		}
	}
}

// pingCount is the number of pings the peer has received.
func pingCount(mc *mem.Conn) (n int) {
	for _, f := range wire(mc).Frames {
		if f.Op == ref.Ping {
			n++
		}
	}
	return
}
