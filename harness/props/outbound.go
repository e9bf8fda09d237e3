package props

import (
	"bytes"
	"context"
	"fmt"
	"slices"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	outSend = iota
	outBytes
	outString
	outStream
	outPing
	outBadOp
)

// OutMsg is one thing sent by the application.
type OutMsg struct {
	Kind   int   `json:"k"`
	Text   bool  `json:"text,omitempty"`
	Pay    Pay   `json:"pay"`
	Cuts   []int `json:"cuts,omitempty"`  // boundaries of the Write calls of a stream
	Flush  []int `json:"flush,omitempty"` // Flush after these writes (indices)
	PingAt int   `json:"ping,omitempty"`  // Ping after that write (1-based; 0: none)
	Ctx    int   `json:"ctx,omitempty"`   // 0 background, 1 nil, 2 cancellable
	Twice  bool  `json:"twice,omitempty"` // use the writer again after Close
	Gap    int   `json:"gap,omitempty"`   // ms between the writes of a stream
	Idle   int   `json:"idle,omitempty"`  // ms before the send
}

func (m OutMsg) op() int {
	switch m.Kind {
	case outBytes:
		return ref.Binary
	case outString:
		return ref.Text
	}
	if m.Text {
		return ref.Text
	}
	return ref.Binary
}

func (m OutMsg) data() []byte { return m.Pay.Of(m.op() == ref.Text) }

func genOutMsg(t *rapid.T, maxLen int, kinds ...int) OutMsg {
	m := OutMsg{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Text: rapid.Bool().Draw(t, "text"), Pay: genPay(t, maxLen), Ctx: intn(t, "ctx", 0, 2)}
	if m.Kind == outStream {
		for range intn(t, "nw", 0, 5) {
			m.Cuts = append(m.Cuts, pick(t, "cut", 0, 1, m.Pay.N, intn(t, "cutAt", 0, m.Pay.N)))
		}
		for i := range len(m.Cuts) + 1 {
			if chance(t, "flush", 30) {
				m.Flush = append(m.Flush, i)
			}
		}
		if chance(t, "ping", 15) {
			m.PingAt = intn(t, "pingat", 1, len(m.Cuts)+1)
		}
		m.Twice = chance(t, "twice", 30)
		m.Gap = pick(t, "gap", 0, 0, 0, 0, 0, 0, 1, 7000)
	}
	return m
}

func ctxOf(k int) (context.Context, context.CancelFunc) {
	switch k {
	case 1:
		return nil, func() {}
	case 2:
		return context.WithCancel(bg)
	}
	return bg, func() {}
}

// sendOut performs one send; onFlush is told how much of the message must be
// on the wire after each successful Flush. It returns the first error.
func sendOut(c *core.Case, conn *snapws.Conn, m OutMsg, onFlush func(sofar int)) error {
	ctx, cancel := ctxOf(m.Ctx)
	defer cancel()
	d := m.data()
	keep := bytes.Clone(d)
	defer func() {
		if !bytes.Equal(keep, d) {
			c.Violate("input-changed", "the library changed the caller's slice of %d bytes", len(d))
		}
	}()
	switch m.Kind {
	case outSend:
		return conn.SendMessage(ctx, uint8(m.op()), d)
	case outBytes:
		return conn.SendBytes(ctx, d)
	case outString:
		return conn.SendString(ctx, d)
	case outPing:
		return conn.Ping()
	case outBadOp:
		op := []uint8{0, 3, 8, 9, 10, 15, 255}[int(m.Pay.Seed)%7]
		if w, err := conn.NextWriter(ctx, op); err == nil || isFatal(err) || w != nil {
			c.Violate("bad-opcode", "NextWriter with opcode %d returned %v, %v", op, w, err)
		}
		if err := conn.SendMessage(ctx, op, d); err == nil || isFatal(err) {
			c.Violate("bad-opcode", "SendMessage with opcode %d returned %v", op, err)
		}
		return nil
	}
	w, err := conn.NextWriter(ctx, uint8(m.op()))
	if err != nil {
		return err
	}
	sofar := 0
	for i, part := range cutBytes(d, m.Cuts) {
		if m.Gap > 0 {
			time.Sleep(time.Duration(m.Gap) * time.Millisecond)
		}
		n, err := w.Write(part)
		if err != nil {
			w.Close()
			return err
		}
		if n != len(part) {
			c.Violate("short-write", "Write of %d bytes returned %d without an error", len(part), n)
		}
		sofar += len(part)
		if m.PingAt == i+1 {
			if err := conn.Ping(); err != nil && err != snapws.ErrPingAlreadySent {
				w.Close()
				return err
			}
		}
		for _, f := range m.Flush {
			if f == i {
				if err := w.Flush(); err != nil {
					w.Close()
					return err
				}
				if onFlush != nil {
					onFlush(sofar)
				}
			}
		}
	}
	if err := w.Close(); err != nil {
		return err
	}
	if m.Twice {
		if err := w.Close(); err != nil {
			c.Violate("reuse", "closing a writer twice failed: %v", err)
		}
		if n, err := w.Write([]byte("stale")); err == nil || n != 0 {
			c.Violate("reuse", "Write on a closed writer returned %d, %v", n, err)
		}
		if err := w.Flush(); err == nil {
			c.Violate("reuse", "Flush on a closed writer succeeded")
		}
	}
	return nil
}

type c05Plan struct {
	WriteBuf int      `json:"writebuf,omitempty"`
	NoPool   bool     `json:"nopool,omitempty"`
	Open     OpenOpts `json:"open"`
	Msgs     []OutMsg `json:"msgs"`
	Latency  int      `json:"latency,omitempty"` // ms
	Rep      int      `json:"rep,omitempty"`     // the messages are sent that many times
}

func init() {
	core.Register(&core.Prop{
		ID:  "C05",
		New: func() any { return &c05Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c05Plan{
				WriteBuf: pick(t, "writebuf", 0, 0, 1, 13, 14, 15, 16, 28, 64, 100, 139, 140, 141, 512, 1000, 4096, 9000, 66000, 140000),
				NoPool:   chance(t, "nopool", 40),
				Open:     OpenOpts{Bw: pick(t, "bw", 0, 0, 0, 256, 512, 1000)},
				Latency:  pick(t, "lat", 0, 0, 0, 3),
			}
			if chance(t, "sameBw", 10) {
				p.Open.Bw = p.WriteBuf
			}
			max := 200000
			if p.WriteBuf > 0 && p.WriteBuf < 100 {
				max = 9000
			}
			for range intn(t, "n", 1, 6) {
				m := genOutMsg(t, max, outSend, outSend, outBytes, outString, outStream, outStream, outStream, outPing, outBadOp)
				m.Idle = pick(t, "idle", 0, 0, 0, 0, 0, 0, 0, 0, 20, 6000, 40000)
				p.Msgs = append(p.Msgs, m)
			}
			return p
		},
		Enum: func(thorough bool) []any {
			var out []any
			// every length around the header forms and the buffer size
			for _, wb := range []int{0, 20, 139, 140, 141, 66000} {
				for _, n := range []int{0, 1, 5, 6, 7, 124, 125, 126, 127, 128, 4081, 4082, 4083, 4095, 4096, 4097, 65535, 65536, 65537, 65986, 131072} {
					for kind := range 2 {
						for pool := range 2 {
							m := OutMsg{Kind: outSend, Text: kind == 1, Pay: Pay{N: n, Seed: 3}}
							s := OutMsg{Kind: outStream, Pay: Pay{N: n, Seed: 4}, Cuts: []int{n / 2}, Flush: []int{kind}}
							out = append(out, &c05Plan{WriteBuf: wb, NoPool: pool == 1, Msgs: []OutMsg{m, s, m}})
						}
					}
				}
			}
			// very long messages and connections
			for _, n := range []int{300, 70000, 131073} {
				out = append(out, &c05Plan{WriteBuf: 15, Msgs: []OutMsg{{Kind: outSend, Pay: Pay{N: n, Seed: 5}}, {Kind: outStream, Pay: Pay{N: n, Seed: 6}}}})
			}
			out = append(out, &c05Plan{Msgs: []OutMsg{{Kind: outString, Pay: Pay{N: 3, Seed: 7}}, {Kind: outStream, Pay: Pay{N: 4, Seed: 8}, Cuts: []int{1, 2}}}, Rep: 34000})
			return out
		},
		Run:      c05Run,
		Quick:    100000,
		Thorough: 900000,
		Rule:     "sequences of 1-6 sends (whole or streamed with arbitrary write boundaries and flushes, pings between) of 0-200000 bytes over write buffers from 1 to 140000 bytes, pooled or not; plus a table of lengths around header forms and buffer sizes; non-trivial: a message longer than 125 bytes, of several frames, or a flush",
	})
}

func c05Run(c *core.Case, plan any) {
	p := plan.(*c05Plan)
	opts := &snapws.Options{WriteBufferSize: p.WriteBuf, DisableWriteBuffersPooling: p.NoPool}
	for _, m := range p.Msgs {
		if m.Idle+m.Gap > 0 { // the peer says nothing, and that is fine here
			opts.ReadWait, opts.PingEvery = 1000*time.Hour, 900*time.Hour
		}
	}
	u := snapws.NewUpgrader(opts)
	mc := mem.New("c")
	mc.Latency = time.Duration(p.Latency) * time.Millisecond
	conn := open(c, u, mc, p.Open)
	if conn == nil {
		return
	}
	// pings must be answered for later ones to be sent
	type sent struct {
		op   int
		data []byte
	}
	var want []sent
	msgs := p.Msgs
	if p.Rep > 1 {
		msgs = slices.Repeat(msgs, p.Rep)
	}
	for i, m := range msgs {
		var err error
		if m.Idle > 0 {
			time.Sleep(time.Duration(m.Idle) * time.Millisecond)
			c.ClassIf(m.Idle > 5000, "idle")
		}
		ok := c.Must("hang", fmt.Sprintf("send %d", i), forever, func() {
			err = sendOut(c, conn, m, func(sofar int) {
				s := wire(mc)
				if s.Err != "" {
					c.Violate("invalid-stream", "%s; frames %s", s.Err, frameList(s))
					return
				}
				if len(s.Msgs) != len(want) || s.Open == nil || s.Open.Op != m.op() || !bytes.Equal(s.Open.Data, m.data()[:sofar]) || s.Rest > 0 {
					c.Violate("flush", "after a Flush %d bytes of message %d had been written, but the peer has %d messages and the open message %v", sofar, i, len(s.Msgs), describe(s.Open))
				}
				c.Class("flush")
				c.NonTrivial()
			})
		})
		if !ok || c.Failed() {
			return
		}
		if m.Kind == outPing && err == snapws.ErrPingAlreadySent {
			err = nil
		}
		if err != nil {
			c.Violate("send-error", "send %d (kind %d, %d bytes) failed on a working connection: %v", i, m.Kind, m.Pay.N, err)
			return
		}
		if m.Kind == outPing || m.Kind == outBadOp {
			continue
		}
		want = append(want, sent{m.op(), m.data()})
		if p.Rep > 1 {
			continue // compared at the end
		}
		// what was sent is there when the call returns
		s := validWire(c, mc)
		if s.Err != "" {
			return
		}
		if len(s.Msgs) != len(want) || s.Open != nil || s.Rest != 0 {
			c.Violate("not-sent", "after send %d returned, the peer has %d of %d messages, open %v, %d bytes of an incomplete frame", i, len(s.Msgs), len(want), describe(s.Open), s.Rest)
			return
		}
		g := s.Msgs[len(want)-1]
		if g.Op != m.op() {
			c.Violate("wrong-type", "message %d arrived as %s, want %s", i, opName(g.Op), opName(m.op()))
		}
		if !bytes.Equal(g.Data, m.data()) {
			c.Violate("wrong-bytes", "message %d: %s", i, diff(g.Data, m.data()))
			return
		}
		c.ClassIf(g.Frames > 1, "several-frames")
		c.ClassIf(m.Pay.N > 65535, "64-bit-length")
		c.ClassIf(m.Pay.N == 0, "empty")
		if g.Frames > 1 || m.Pay.N > 125 {
			c.NonTrivial()
		}
	}
	s := validWire(c, mc)
	if len(s.Msgs) != len(want) {
		c.Violate("not-sent", "%d messages were sent, the peer has %d", len(want), len(s.Msgs))
		return
	}
	for i, g := range s.Msgs {
		if g.Op != want[i].op || !bytes.Equal(g.Data, want[i].data) {
			c.Violate("wrong-bytes", "message %d changed", i)
		}
	}
}

func describe(m *ref.Msg) string {
	if m == nil {
		return "none"
	}
	return fmt.Sprintf("%s, %d bytes in %d frames", opName(m.Op), len(m.Data), m.Frames)
}
