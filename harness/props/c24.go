package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	lkOpen = iota // replaces the connection of the slot
	lkSend
	lkHold // a writer is taken and written to, and not finished
	lkMore
	lkFlush
	lkFinish
	lkTimeout // a send whose context ends
	lkClose
	lkClientClose
	lkReset
	lkLate // everything on the slot's former connections
	lkRead // the client sends messages, the application keeps what it reads
	lkPing
	lkFault // the next write fails
	lkDelay // writes take a while from now on
	lkBatch
	lkBroadcast
	lkKinds
)

// LkOp is one step on a slot.
type LkOp struct {
	K  int `json:"k"`
	S  int `json:"s,omitempty"`
	N  int `json:"n,omitempty"`
	At int `json:"at,omitempty"`
	V  int `json:"v,omitempty"`
}

type c24Plan struct {
	WriteBuf int      `json:"writebuf,omitempty"`
	ReadBuf  int      `json:"readbuf,omitempty"`
	NoPool   bool     `json:"nopool,omitempty"`
	Batch    int      `json:"batch,omitempty"`
	Open     OpenOpts `json:"open"`
	Slots    int      `json:"slots"`
	Latency  int      `json:"latency,omitempty"`
	Threads  [][]LkOp `json:"threads"` // thread i owns slots i, i+threads, ...; closes work on any slot
}

func init() {
	core.Register(&core.Prop{
		ID:         "C24",
		RaceShards: 2,
		New:        func() any { return &c24Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c24Plan{WriteBuf: pick(t, "writebuf", 0, 20, 30, 64, 64, 200, 512), ReadBuf: pick(t, "readbuf", 0, 0, 1, 125, 200, 4096), NoPool: chance(t, "nopool", 20), Batch: pick(t, "batch", 0, 0, 1, 2),
				Slots: pick(t, "slots", 1, 2, 2, 3, 4), Latency: pick(t, "latency", 0, 0, 1, 3)}
			p.Open = OpenOpts{Bw: pick(t, "bw", 0, 0, 64, 200, 512), Br: pick(t, "br", 0, 0, 16, 125, 200)}
			n := min(pick(t, "nthreads", 1, 1, 2, 3), p.Slots)
			for th := range n {
				var l []LkOp
				for range intn(t, "nops", 2, 25) {
					o := LkOp{K: pick(t, "k", lkOpen, lkOpen, lkSend, lkSend, lkSend, lkHold, lkHold, lkHold, lkMore, lkMore, lkFlush, lkFinish, lkFinish, lkTimeout, lkClose, lkClose, lkClose, lkClientClose, lkReset, lkLate, lkLate, lkRead, lkRead, lkPing, lkFault, lkDelay, lkBatch, lkBroadcast),
						N: pick(t, "n", 0, 1, 5, 6, 17, 49, 50, 51, 100, 185, 186, 187, 500, 3000), V: intn(t, "v", 0, 5), At: pick(t, "at", 0, 0, 0, 1, 2, 5)}
					o.S = intn(t, "s", 0, p.Slots-1)
					if o.K != lkClose && o.K != lkClientClose && o.K != lkReset && o.K != lkFault && o.K != lkDelay && n > 1 {
						o.S = o.S - o.S%n + th // an own one
						if o.S >= p.Slots {
							o.S = th % p.Slots
						}
					}
					l = append(l, o)
				}
				p.Threads = append(p.Threads, l)
			}
			return p
		},
		Run:      c24Run,
		Quick:    24000,
		Thorough: 500000,
		Rule:     "1-4 slots of connections that share one upgrader are opened, written to in whole and in pieces, left with unfinished writers, broken by faults, timeouts, resets and closes from other threads in the middle of transport writes, used after their end and replaced, with pooled and unpooled buffers; every byte names its connection, message and offset; non-trivial: a connection ended with an unfinished writer or a write in progress and another was written to afterwards",
	})
}

type lkMsg struct {
	op   int
	data []byte // accepted so far
	done bool
}

type lkConn struct {
	id   int
	mc   *mem.Conn
	conn *snapws.Conn
	mu   sync.Mutex
	msgs map[string]*lkMsg
	n    int
	w    *snapws.ConnWriter
	cur  *lkMsg
	key  string
	feed int // bytes fed for the application
	fmsg int
	ping int
	last int // clock
	bad  bool
}

// lkData is n bytes that name their origin in every block of 8.
func lkData(conn, msg, off, n int) []byte {
	out := make([]byte, 0, n+8)
	for b := off / 8; len(out) < n+off%8; b++ {
		out = append(out, fmt.Sprintf("%c%02d%c%04d", 'A'+conn%26, msg%100, 'a'+conn/26%26, b%10000)...)
	}
	return out[off%8 : off%8+n]
}

func c24Run(c *core.Case, plan any) {
	p := plan.(*c24Plan)
	ms := time.Millisecond
	if p.Slots < 1 {
		return
	}
	opts := &snapws.Options{WriteWait: 300 * ms, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, WriteBufferSize: p.WriteBuf, ReadBufferSize: p.ReadBuf, DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: 64}
	u := snapws.NewUpgrader(opts)
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, 3*ms)
	case 2:
		u.EnablePrefixBatching(bctx, 3*ms)
	}
	rooms := snapws.NewRoomManager[int](u)
	room := rooms.Add(0)
	var mu sync.Mutex
	var all []*lkConn
	slots := make([]*lkConn, p.Slots)
	former := make([][]*lkConn, p.Slots)
	type kept struct {
		got, want []byte
		what      string
	}
	var keep []kept
	var casts [][]byte
	midEnd, after := false, false
	openSlot := func(s int) {
		k := &lkConn{msgs: map[string]*lkMsg{}}
		mu.Lock()
		k.id = len(all)
		all = append(all, k)
		mu.Unlock()
		k.mc = mem.New(fmt.Sprint("connection ", k.id))
		k.mc.Latency = time.Duration(p.Latency) * ms
		conn, err := u.Upgrade(newRW(k.mc, p.Open), goodReq())
		if err != nil {
			c.Violate("upgrade-failed", "Upgrade failed: %v", err)
			return
		}
		k.conn = conn
		tidy(c, conn, k.mc)
		mu.Lock()
		if old := slots[s]; old != nil {
			former[s] = append(former[s], old)
		}
		slots[s] = k
		mu.Unlock()
		room.Add(conn)
		// the application keeps everything it reads
		c.Go("reader", func() {
			for i := 0; ; i++ {
				var d []byte
				var err error
				switch i % 5 {
				case 0, 1:
					_, d, err = conn.ReadMessage()
				case 2:
					d, err = conn.ReadBinary()
				case 3:
					d, err = conn.ReadString()
				case 4:
					var r io.Reader
					if r, _, err = conn.NextReader(); err == nil {
						b := make([]byte, 64)
						for err == nil {
							var n int
							n, err = r.Read(b)
							d = append(d, b[:n]...)
						}
						if err == io.EOF {
							err = nil
						}
					}
				}
				if isFatal(err) {
					return
				}
				if err != nil {
					continue
				}
				k.mu.Lock()
				want := lkData(k.id, 50+i, 0, len(d))
				k.mu.Unlock()
				mu.Lock()
				keep = append(keep, kept{d, want, fmt.Sprintf("message %d read from connection %d", i, k.id)})
				mu.Unlock()
			}
		})
	}
	newMsg := func(k *lkConn, op int) (*lkMsg, int) {
		m := &lkMsg{op: op}
		n := k.n
		k.n++
		k.msgs[fmt.Sprint(n)] = m
		return m, n
	}
	var ops []*core.Op
	for th, l := range p.Threads {
		ops = append(ops, c.Go(fmt.Sprint("thread ", th), func() {
			for _, o := range l {
				time.Sleep(time.Duration(o.At) * ms)
				if o.S >= p.Slots || o.K != lkClose && o.K != lkClientClose && o.K != lkReset && o.K != lkFault && o.K != lkDelay && o.S%len(p.Threads) != th {
					continue
				}
				mu.Lock()
				k := slots[o.S]
				mu.Unlock()
				if k == nil || k.conn == nil {
					if o.S%len(p.Threads) == th {
						openSlot(o.S)
					}
					continue
				}
				op := ref.Binary
				if o.V%2 == 1 {
					op = ref.Text
				}
				write := func(n int) {
					k.mu.Lock()
					id := 0
					fmt.Sscan(k.key, &id)
					d := lkData(k.id, id, len(k.cur.data), n)
					k.mu.Unlock()
					in := bytes.Clone(d)
					got, err := k.w.Write(in)
					k.mu.Lock()
					k.cur.data = append(k.cur.data, d[:got]...)
					k.mu.Unlock()
					if !bytes.Equal(in, d) {
						c.Violate("input-changed", "Write changed the caller's slice")
					}
					for i := range in { // the caller reuses its slice
						in[i] = '#'
					}
					if err == nil && got != n {
						c.Violate("short-write", "Write of %d bytes returned %d", n, got)
					}
				}
				switch o.K {
				case lkOpen:
					if k.w != nil && !k.mc.LibClosed() {
						mu.Lock()
						midEnd = true
						mu.Unlock()
					}
					if o.V < 3 {
						k.conn.Close()
					}
					openSlot(o.S)
				case lkSend, lkTimeout:
					if k.w != nil && o.K == lkSend && !k.mc.LibClosed() {
						continue // would wait for the held writer for ever
					}
					ctx, cancel := bg, context.CancelFunc(func() {})
					if o.K == lkTimeout {
						ctx, cancel = context.WithTimeout(bg, time.Duration(o.V)*ms)
					}
					k.mu.Lock()
					m, id := newMsg(k, op)
					m.data = lkData(k.id, id, 0, o.N)
					in := bytes.Clone(m.data)
					k.mu.Unlock()
					var err error
					if o.V%3 == 0 && op == ref.Text {
						err = k.conn.SendString(ctx, in)
					} else {
						err = k.conn.SendMessage(ctx, uint8(op), in)
					}
					cancel()
					for i := range in {
						in[i] = '#'
					}
					k.mu.Lock()
					m.done = err == nil
					k.mu.Unlock()
					mu.Lock()
					after = after || midEnd && err == nil && o.N > 0
					mu.Unlock()
				case lkHold:
					if k.w != nil {
						write(o.N)
						continue
					}
					w, err := k.conn.NextWriter(bg, uint8(op))
					if err != nil {
						continue
					}
					k.mu.Lock()
					m, id := newMsg(k, op)
					k.w, k.cur, k.key = w, m, fmt.Sprint(id)
					k.mu.Unlock()
					write(o.N)
				case lkMore:
					if k.w != nil {
						write(o.N)
					}
				case lkFlush:
					if k.w != nil {
						k.w.Flush()
					}
				case lkFinish:
					if k.w != nil {
						err := k.w.Close()
						k.mu.Lock()
						k.cur.done = err == nil
						old := k.w
						k.w = nil
						k.mu.Unlock()
						if o.V == 5 { // once more
							old.Write(lkData(k.id, 99, 0, 9))
							old.Flush()
							old.Close()
						}
					}
				case lkClose:
					mu.Lock()
					midEnd = true
					mu.Unlock()
					k.conn.CloseWithCode(3000+uint16(k.id), string(lkData(k.id, 97, 0, 8+o.N%100)))
				case lkClientClose:
					k.mc.Feed(closeFrame(1000, ""))
				case lkReset:
					mu.Lock()
					midEnd = true
					mu.Unlock()
					k.mc.Kill()
				case lkLate:
					mu.Lock()
					fs := former[o.S]
					mu.Unlock()
					for _, f := range fs {
						if f.conn == nil {
							continue
						}
						if f.w != nil {
							k2, k1 := f, k
							k = k2
							write(o.N)
							k = k1
							f.w.Flush()
							if o.V > 2 {
								f.w.Close()
								f.w = nil
							}
						}
						if f.mc.LibClosed() {
							if err := f.conn.SendBytes(bg, lkData(f.id, 98, 0, o.N)); err == nil {
								c.Violate("late-send", "a send on a closed connection succeeded")
							}
							f.conn.Ping()
							f.conn.Close()
						}
					}
				case lkRead:
					k.mu.Lock()
					d := lkData(k.id, 50+k.fmsg, 0, o.N)
					k.fmsg++
					k.mu.Unlock()
					var cuts []int
					if o.V > 1 {
						cuts = []int{o.V * 7}
					}
					var fs []ref.Frame
					for i, part := range cutBytes(d, cuts) {
						f := ref.Frame{Fin: i == len(cuts), Op: op, Key: key(uint32(o.N + i)), Payload: part}
						if i == 1 {
							f.Op = ref.Cont
						}
						fs = append(fs, f)
					}
					chunked(k.mc, encode(fs), []int{3, 50, 7})
				case lkPing:
					k.mu.Lock()
					f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(uint32(k.ping)), Payload: lkData(k.id, 96, 8*k.ping, o.N%126)}
					k.ping++
					k.mu.Unlock()
					k.mc.Feed(f.Encode(nil))
				case lkFault:
					k.mc.SetFault(k.mc.WriteCalls(), mem.Fault{Err: true, Partial: o.N % 40})
				case lkDelay:
					k.mc.SetFault(k.mc.WriteCalls(), mem.Fault{Delay: time.Duration(1+o.V*4) * ms})
				case lkBatch:
					if p.Batch > 0 {
						k.conn.Batch([]byte(`"` + string(lkData(k.id, 95, 0, o.N)) + `"`))
					}
				case lkBroadcast:
					mu.Lock()
					d := lkData(25, len(casts), 0, 8+o.N)
					casts = append(casts, bytes.Clone(d))
					mu.Unlock()
					ctx, cancel := context.WithTimeout(bg, time.Minute)
					c.Cleanup(cancel)
					room.BroadcastBytes(ctx, d)
					for i := range d {
						d[i] = '#'
					}
				}
				if c.Failed() {
					return
				}
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(10 * time.Minute) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
	time.Sleep(5 * time.Second)
	bcancel()
	mu.Lock()
	defer mu.Unlock()
	for _, x := range keep {
		if !bytes.Equal(x.got, x.want) {
			c.Violate("read-changed", "%s is not (any more) what the client sent: %s", x.what, diff(x.got, x.want))
			return
		}
	}
	for _, k := range all {
		if k.conn == nil {
			continue
		}
		s := validWire(c, k.mc)
		if c.Failed() {
			return
		}
		k.mu.Lock()
		judge := func(op int, d []byte, open bool) {
			if len(d) == 0 {
				return
			}
			if p.Batch > 0 && (d[0] == '[' || d[0] == 0) {
				if open {
					return
				}
				els, e := decodeBatch(p.Batch, d)
				if e != "" {
					c.Violate("leak", "connection %d sent a broken batch: %s", k.id, e)
				}
				for _, e := range els {
					if len(e) < 2 || !bytes.Equal(e[1:len(e)-1], lkData(k.id, 95, 0, len(e)-2)) {
						c.Violate("leak", "connection %d: a batch element has foreign bytes: %s", k.id, trunc(e, 60))
					}
				}
				return
			}
			if len(d) >= 3 {
				for i, b := range casts {
					if d[0] == 'Z' && (bytes.Equal(b, d) || open && bytes.HasPrefix(b, d)) {
						_ = i
						return
					}
				}
			}
			id := -1
			if len(d) >= 3 {
				fmt.Sscanf(string(d[1:3]), "%d", &id)
			} else {
				// too short to name its message: some message must begin like this
				for n, m := range k.msgs {
					if m.op == op && bytes.HasPrefix(m.data, d) && (open || len(m.data) == len(d)) {
						fmt.Sscan(n, &id)
					}
				}
			}
			m := k.msgs[fmt.Sprint(id)]
			if m == nil || m.op != op || open && !bytes.HasPrefix(m.data, d) || !open && !bytes.Equal(m.data, d) {
				want := []byte{}
				if m != nil {
					want = m.data
				}
				c.Violate("leak", "connection %d sent %s message bytes that were not handed to it (unfinished: %v): %s; it begins %s", k.id, opName(op), open, diff(d, want), trunc(d, 60))
			}
		}
		for _, m := range s.Msgs {
			judge(m.Op, m.Data, false)
		}
		if s.Open != nil {
			judge(s.Open.Op, s.Open.Data, true)
		}
		np := 0
		for _, f := range s.Frames {
			switch f.Op {
			case ref.Pong:
				if !bytes.Equal(f.Payload, lkData(k.id, 96, 8*np, len(f.Payload))) {
					c.Violate("leak", "connection %d: pong %d carries %s", k.id, np, trunc(f.Payload, 60))
				}
				np++
			case ref.Close:
				if s.CloseCode >= 3000 && (s.CloseCode != 3000+k.id || !bytes.Equal([]byte(s.CloseReason), lkData(k.id, 97, 0, len(s.CloseReason)))) {
					c.Violate("leak", "connection %d: close frame %d %q", k.id, s.CloseCode, s.CloseReason)
				}
			}
		}
		k.mu.Unlock()
		if c.Failed() {
			return
		}
	}
	if midEnd && len(all) > 1 && after {
		c.NonTrivial()
	}
	c.ClassIf(p.NoPool, "unpooled")
	c.ClassIf(len(p.Threads) > 1, "threads")
}
