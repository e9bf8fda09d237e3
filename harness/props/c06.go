package props

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	actSend = iota
	actStream
	actRoom
	actMgr
	actBatch
	actRoomBatch
	actPing
	actJSON
)

type AMsg struct {
	N       int   `json:"n"`
	Text    bool  `json:"text,omitempty"`
	Cuts    []int `json:"cuts,omitempty"`
	Flush   bool  `json:"flush,omitempty"` // after every write
	Gap     int   `json:"gap,omitempty"`   // ms between the writes
	Pause   int   `json:"pause,omitempty"` // ms after the message
	Timeout int   `json:"to,omitempty"`    // ms, of the context
	Late    int   `json:"late,omitempty"`  // the writer is used once more that many ms (-1) after it was closed
}

type Actor struct {
	Kind  int    `json:"k"`
	Start int    `json:"start,omitempty"` // ms
	Msgs  []AMsg `json:"msgs"`
}

type c06Plan struct {
	WriteBuf int     `json:"writebuf,omitempty"`
	NoPool   bool    `json:"nopool,omitempty"`
	Queue    int     `json:"queue,omitempty"`
	Wait     bool    `json:"wait,omitempty"`
	Batch    int     `json:"batch,omitempty"` // 0 none, 1 JSON, 2 length prefix
	Every    int     `json:"every,omitempty"`
	MaxBatch int     `json:"maxbatch,omitempty"`
	Latency  int     `json:"latency,omitempty"`
	Inter    bool    `json:"inter,omitempty"`  // the transport does not serialise writes
	Delays   []int   `json:"delays,omitempty"` // ms, of the first writes
	Actors   []Actor `json:"actors"`
	Pings    []int   `json:"pings,omitempty"` // client pings: ms before each
}

func (m AMsg) payload(kind byte, src, seq int) []byte {
	b := []byte(fmt.Sprintf("%c%d.%d|", kind, src, seq))
	return append(b, bytes.Repeat([]byte{byte('a' + src%26)}, m.N)...)
}

func genC06(t *rapid.T) any {
	p := &c06Plan{
		WriteBuf: pick(t, "writebuf", 0, 0, 20, 30, 64, 256, 1000),
		NoPool:   chance(t, "nopool", 30),
		Queue:    pick(t, "queue", 0, 0, 1, 2, 50),
		Wait:     chance(t, "wait", 50),
		Batch:    intn(t, "batch", 0, 2),
		Every:    pick(t, "every", 5, 10, 50),
		MaxBatch: pick(t, "maxbatch", 0, 0, 30, 200),
		Latency:  pick(t, "lat", 0, 0, 1, 2, 10),
		Inter:    chance(t, "inter", 30),
	}
	if chance(t, "delays", 40) {
		p.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 20, 100}), 1, 12).Draw(t, "dl")
	}
	kinds := []int{actSend, actSend, actStream, actStream, actStream, actRoom, actMgr, actPing, actJSON}
	if p.Batch > 0 {
		kinds = append(kinds, actBatch, actRoomBatch, actBatch)
	}
	na := intn(t, "na", 2, 6)
	for range na {
		a := Actor{Kind: rapid.SampledFrom(kinds).Draw(t, "akind"), Start: pick(t, "start", 0, 0, 0, 1, 3)}
		for range intn(t, "nmsg", 1, 4) {
			m := AMsg{N: pick(t, "n", 0, 1, 5, 20, 60, 130, 300, 2000), Text: rapid.Bool().Draw(t, "text"), Pause: pick(t, "pause", 0, 0, 0, 1, 2, 10)}
			if a.Kind == actStream {
				for range intn(t, "nw", 0, 4) {
					m.Cuts = append(m.Cuts, intn(t, "cutAt", 0, m.N+5))
				}
				m.Flush = chance(t, "flush", 60)
				m.Gap = pick(t, "gap", 0, 0, 1, 2, 5)
				m.Late = pick(t, "late", 0, 0, 1, 2, 4, 9)
			}
			if a.Kind <= actStream && chance(t, "timeout", 8) {
				m.Timeout = pick(t, "to", 1, 2, 5, 20)
			}
			a.Msgs = append(a.Msgs, m)
		}
		p.Actors = append(p.Actors, a)
	}
	if chance(t, "cpings", 50) {
		p.Pings = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 5}), 1, 5).Draw(t, "cp")
	}
	return p
}

func init() {
	core.Register(&core.Prop{
		ID:         "C06",
		RaceShards: 1,
		New:        func() any { return &c06Plan{} },
		Gen:        genC06,
		Run:        c06Run,
		Quick:      45000,
		Thorough:   600000,
		Rule:       "2-6 concurrent actors on one connection (whole sends, flushed streams with pauses, JSON sends, room and manager broadcasts, batches and batch broadcasts, pings) with client pings answered meanwhile, over a transport with generated write latencies, write buffers down to a few bytes; non-trivial: two actors were active at the same virtual time",
		Assumptions: []string{
			"goroutine interleavings beyond those the generated latencies and pauses force are left to the scheduler (1 to 4 processors)"},
	})
}

func c06Run(c *core.Case, plan any) {
	p := plan.(*c06Plan)
	opts := &snapws.Options{WriteBufferSize: p.WriteBuf, DisableWriteBuffersPooling: p.NoPool, BroadcastChannelsSize: p.Queue, MaxBatchSize: p.MaxBatch}
	if p.Wait {
		opts.BroadcastBackpressure = snapws.BackpressureWait
	}
	u := snapws.NewUpgrader(opts)
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	every := time.Duration(max(1, p.Every)) * time.Millisecond
	switch p.Batch {
	case 1:
		u.EnableJSONBatching(bctx, every)
	case 2:
		u.EnablePrefixBatching(bctx, every)
	}
	mgr := snapws.NewManager[string](u)
	rooms := snapws.NewRoomManager[string](u)
	mc := mem.New("c")
	mc.Interleave = p.Inter
	mc.Latency = time.Duration(p.Latency) * time.Millisecond
	for i, d := range p.Delays {
		if d > 0 {
			mc.SetFault(i+1, mem.Fault{Delay: time.Duration(d) * time.Millisecond})
		}
	}
	answerPings(mc)
	var mcn *snapws.ManagedConn[string]
	var err error
	if !c.Must("hang", "Connect", time.Hour, func() { mcn, err = mgr.Connect("k", newRW(mc, OpenOpts{}), goodReq()) }) {
		return
	}
	if err != nil {
		c.Violate("upgrade-failed", "Connect failed: %v", err)
		return
	}
	conn := mcn.Conn
	tidy(c, conn, mc)
	room := rooms.Add("r")
	room.Add(conn)
	rd := c.Go("reader", func() {
		for {
			if _, _, err := conn.ReadMessage(); isFatal(err) {
				return
			}
		}
	})
	_ = rd

	type rec struct {
		src, seq int
		path     int // messages of one path keep their order
		op       int
		data     []byte
		must     bool
		never    bool
		batch    bool
	}
	var mu sync.Mutex
	var recs []*rec
	add := func(r *rec) { mu.Lock(); recs = append(recs, r); mu.Unlock() }
	var ops []*core.Op
	for i, a := range p.Actors {
		ops = append(ops, c.Go(fmt.Sprintf("actor %d", i), func() {
			time.Sleep(time.Duration(a.Start) * time.Millisecond)
			for j, m := range a.Msgs {
				ctx, cancel := context.WithCancel(bg)
				if m.Timeout > 0 {
					cancel()
					ctx, cancel = context.WithTimeout(bg, time.Duration(m.Timeout)*time.Millisecond)
				}
				op := ref.Binary
				if m.Text {
					op = ref.Text
				}
				r := &rec{src: i, seq: j, path: i, op: op}
				var err error
				n := -1
				switch a.Kind {
				case actSend:
					r.data = m.payload('D', i, j)
					err = conn.SendMessage(ctx, uint8(op), r.data)
				case actJSON:
					d := string(m.payload('J', i, j))
					r.data, r.op = append([]byte(`"`+d+`"`), '\n'), ref.Text
					err = conn.SendJSON(ctx, d)
				case actStream:
					r.data = m.payload('S', i, j)
					var w *snapws.ConnWriter
					w, err = conn.NextWriter(ctx, uint8(op))
					if err == nil {
						sofar := 0
						for k, part := range cutBytes(r.data, m.Cuts) {
							if k > 0 {
								time.Sleep(time.Duration(m.Gap) * time.Millisecond)
							}
							var nw int
							nw, err = w.Write(part)
							sofar += nw
							if err != nil {
								break
							}
							if m.Flush {
								if err = w.Flush(); err != nil {
									break
								}
							}
						}
						e2 := w.Close()
						if m.Late > 0 {
							time.Sleep(time.Duration(m.Late-1) * time.Millisecond)
							nw, e3 := w.Write([]byte("LATE"))
							if nw != 0 || e3 == nil {
								c.Violate("late-write", "Write on a closed writer returned %d, %v", nw, e3)
							}
							if e3 = w.Flush(); e3 == nil {
								c.Violate("late-flush", "Flush on a closed writer succeeded")
							}
							w.Close()
						}
						if err == nil {
							err = e2
						} else if e2 == nil {
							// ended although a write or flush failed: what was written so far
							r.data, err = r.data[:sofar], nil
						}
					}
				case actRoom, actMgr:
					r.data = m.payload('B', i, j)
					switch {
					case a.Kind == actRoom && m.Text:
						n, err = room.BroadcastString(ctx, r.data)
					case a.Kind == actRoom:
						n, err = room.BroadcastBytes(ctx, r.data)
					case m.Text:
						n, err = mgr.BroadcastString(ctx, r.data)
					default:
						n, err = mgr.BroadcastBytes(ctx, r.data)
					}
				case actBatch, actRoomBatch:
					r.data = []byte(`"` + string(m.payload('A', i, j)) + `"`)
					r.batch = true
					if a.Kind == actBatch {
						err = conn.Batch(r.data)
					} else {
						n, err = room.BatchBroadcast(ctx, r.data)
					}
				case actPing:
					conn.Ping()
					r = nil
				}
				if r != nil && r.data != nil {
					r.must = err == nil && n != 0
					r.never = err != nil || n == 0
					add(r)
				}
				// a broadcast is sent under its context: end it with the case
				c.Cleanup(cancel)
				if a.Kind <= actStream {
					cancel()
				}
				time.Sleep(time.Duration(m.Pause) * time.Millisecond)
			}
		}))
	}
	if len(p.Pings) > 0 {
		ops = append(ops, c.Go("client", func() {
			for i, d := range p.Pings {
				time.Sleep(time.Duration(d) * time.Millisecond)
				f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(uint32(i)), Payload: []byte(fmt.Sprint("ping", i))}
				mc.Feed(f.Encode(nil))
			}
		}))
	}
	for _, o := range ops {
		if !o.Wait(forever) {
			c.Violate("hang", "%s never returned:\n%s", o.Name, firstStack())
			return
		}
	}
	// everything accepted goes out
	settle(mc, 300*time.Millisecond)
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	closed := mc.LibClosed()
	if closed {
		// only a message cut short by its context may end the connection
		can := false
		for _, a := range p.Actors {
			for _, m := range a.Msgs {
				can = can || m.Timeout > 0
			}
		}
		if !can {
			c.Violate("closed", "the connection was closed (code %d %q) though nothing failed", s.CloseCode, s.CloseReason)
			return
		}
		c.Class("cut-short")
	} else if s.Open != nil || s.Rest > 0 {
		c.Violate("incomplete", "the stream ends inside a message (%s, %d bytes of a frame)", describe(s.Open), s.Rest)
		return
	}

	// match what arrived
	byData := map[string][]*rec{}
	for _, r := range recs {
		byData[string(r.data)] = append(byData[string(r.data)], r)
	}
	seen := map[*rec]int{}
	lastSeq := map[int]int{}
	take := func(d []byte, op int, batch bool) bool {
		var r *rec
		for _, x := range byData[string(d)] {
			if r == nil || seen[r] > 0 {
				r = x
			}
		}
		if r == nil || r.batch != batch {
			c.Violate("unknown-message", "the peer received a message nobody sent (batch element: %v): %s", batch, trunc(d, 60))
			return false
		}
		if !batch && r.op != op {
			c.Violate("wrong-type", "message %d.%d arrived as %s", r.src, r.seq, opName(op))
			return false
		}
		seen[r]++
		if seen[r] > 1 {
			c.Violate("duplicate", "message %d.%d arrived %d times", r.src, r.seq, seen[r])
			return false
		}
		if r.never {
			c.Violate("failed-but-sent", "message %d.%d was received though sending it failed", r.src, r.seq)
			return false
		}
		if l, ok := lastSeq[r.path]; ok && l > r.seq {
			c.Violate("order", "actor %d: message %d arrived after message %d", r.src, r.seq, l)
			return false
		}
		lastSeq[r.path] = r.seq
		return true
	}
	for _, m := range s.Msgs {
		if len(m.Data) > 0 && m.Data[0] == '[' || p.Batch == 2 && len(m.Data) > 3 && m.Data[0] == 0 {
			els, err := decodeBatch(p.Batch, m.Data)
			if err != "" {
				c.Violate("bad-batch", "%s: %s", err, trunc(m.Data, 100))
				return
			}
			for _, e := range els {
				if !take(e, 0, true) {
					return
				}
			}
			continue
		}
		if !take(m.Data, m.Op, false) {
			return
		}
	}
	for _, r := range recs {
		k := p.Actors[r.src].Kind
		sync := k == actSend || k == actStream || k == actJSON
		if r.must && seen[r] != 1 && (sync || !closed) {
			c.Violate("lost", "message %d.%d (kind %d, %d bytes) was sent successfully and arrived %d times", r.src, r.seq, k, len(r.data), seen[r])
			return
		}
	}
	np := 0
	for _, f := range s.Frames {
		if f.Op == ref.Pong {
			if string(f.Payload) != fmt.Sprint("ping", np) {
				c.Violate("wrong-pong", "pong %d carries %q", np, f.Payload)
				return
			}
			np++
		}
	}
	if !closed && np != len(p.Pings) {
		c.Violate("missing-pong", "%d pings, %d pongs", len(p.Pings), np)
	}
	// overlap
	for i := range ops {
		for j := range i {
			if ops[i].Started.Before(ops[j].Ended) && ops[j].Started.Before(ops[i].Ended) {
				c.NonTrivial()
			}
		}
	}
	c.ClassIf(p.Batch > 0, "batching")
	c.ClassIf(len(p.Pings) > 0, "client-pings")
	for _, a := range p.Actors {
		c.Class([]string{"send", "stream", "room", "manager", "batch", "room-batch", "ping", "json"}[a.Kind])
	}
}

// decodeBatch splits a batch message into its elements.
func decodeBatch(kind int, d []byte) (els [][]byte, err string) {
	if kind == 1 {
		var raw []json.RawMessage
		if e := json.Unmarshal(d, &raw); e != nil {
			return nil, "batch is no JSON array: " + e.Error()
		}
		for _, r := range raw {
			els = append(els, r)
		}
		return els, ""
	}
	for len(d) > 0 {
		if len(d) < 4 {
			return nil, "truncated length"
		}
		n := int(binary.BigEndian.Uint32(d))
		if len(d)-4 < n {
			return nil, "truncated element"
		}
		els = append(els, d[4:4+n])
		d = d[4+n:]
	}
	return els, ""
}

func firstStack() string {
	s := core.BubbleStacks()
	rank := func(g string) int {
		switch {
		case strings.Contains(g, "mem.(*Conn).Read("):
			return 2
		case strings.Contains(g, "core.(*Case).Go"):
			return 0
		case strings.Contains(g, "pingLoop") || strings.Contains(g, ").listener(") || strings.Contains(g, "broadcastListener(") && !strings.Contains(g, "writeToConn"):
			return 3
		}
		return 1
	}
	sort.SliceStable(s, func(i, j int) bool { return rank(s[i]) < rank(s[j]) })
	if len(s) > 4 {
		s = s[:4]
	}
	out := ""
	for _, x := range s {
		if len(x) > 1500 {
			x = x[:1500]
		}
		out += x + "\n\n"
	}
	return out
}
