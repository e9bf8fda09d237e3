package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// steps of C13
const (
	nfReadMessage = iota
	nfReadString
	nfReadBinary
	nfReadJSON
	nfReadPartly // NextReader and a few bytes
	nfReadNext   // NextReader only
	nfSend
	nfSendBadOp
	nfSendJSONBad
	nfSendCtx     // context ended before
	nfSendTimeout // context ends while another writer is active
	nfStreamCut   // context ends in the middle of a stream
	nfStream
	nfPing
	nfBatch
	nfRetry // flushes that fail because the context ended are repeated
	nfBusy  // context ends while a control frame is being written
	nfKinds
)

type nfStep struct {
	Kind   int   `json:"k"`
	N      int   `json:"n,omitempty"`
	Sizes  []int `json:"sizes,omitempty"`
	Target int   `json:"target,omitempty"` // of ReadJSON; kind of bad value of SendJSON
	T      int   `json:"t,omitempty"`      // ms of the timeout
	Hold   int   `json:"hold,omitempty"`
	Flush  bool  `json:"flush,omitempty"`
	Cancel bool  `json:"cancel,omitempty"`
}

type nfMsg struct {
	Kind int   `json:"k"` // 0 binary, 1 text, 2 JSON, 3 broken JSON, 4 JSON of another type, 5 JSON and more
	N    int   `json:"n"`
	Cuts []int `json:"cuts,omitempty"`
	Many int   `json:"many,omitempty"` // that many more fragments
	Ping int   `json:"ping,omitempty"` // a ping before that fragment, +1
}

type c13Plan struct {
	WriteBuf int      `json:"writebuf,omitempty"`
	ReadBuf  int      `json:"readbuf,omitempty"`
	Max      int      `json:"max,omitempty"`
	Frags    int      `json:"frags,omitempty"`
	Latency  int      `json:"latency,omitempty"`
	Chunks   []int    `json:"chunks,omitempty"`
	Msgs     []nfMsg  `json:"msgs"`
	Steps    []nfStep `json:"steps"`
}

func (m nfMsg) data(i int) (op int, d []byte) {
	fill := strings.Repeat(string(rune('a'+i%26)), m.N)
	switch m.Kind {
	case 0:
		return ref.Binary, []byte(fmt.Sprintf("b%d.%s", i, fill))
	case 1:
		return ref.Text, []byte(fmt.Sprintf("t%d.%s", i, fill))
	case 2:
		return ref.Text, []byte(fmt.Sprintf("{\"I\":%d,\"S\":\"%s\"}", i, fill))
	case 3:
		return ref.Text, []byte(fmt.Sprintf("{\"I\":%d,\"S\":%s", i, fill))
	case 4:
		return ref.Text, []byte(fmt.Sprintf("{\"I\":\"no%d\",\"S\":\"%s\"}", i, fill))
	}
	return ref.Text, []byte(fmt.Sprintf("{\"I\":%d}  {\"S\":\"%s\"}", i, fill))
}

type nfVal struct {
	I int
	S string
}

type failMarshal struct{}

func (failMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot") }

func badValue(k, n int) any {
	big := strings.Repeat("x", n)
	switch k % 6 {
	case 0:
		return make(chan int)
	case 1:
		return map[string]any{"a": big, "f": func() {}}
	case 2:
		return []any{big, failMarshal{}}
	case 3:
		return struct{ A, B any }{big, complex(1, 2)}
	case 4:
		m := map[string]any{"s": big}
		m["m"] = m
		return m
	}
	return json.RawMessage(`{"a":` + big)
}

func init() {
	core.Register(&core.Prop{
		ID:  "C13",
		New: func() any { return &c13Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c13Plan{WriteBuf: pick(t, "writebuf", 0, 0, 30, 64), ReadBuf: pick(t, "readbuf", 0, 0, 130, 512), Max: pick(t, "max", 0, 0, -1, 20000), Frags: pick(t, "frags", 0, 5),
				Latency: pick(t, "latency", 0, 0, 1), Chunks: genChunks(t)}
			for range intn(t, "nsteps", 1, 10) {
				s := nfStep{Kind: intn(t, "kind", 0, nfKinds-1), N: pick(t, "n", 0, 1, 5, 30, 200, 5000), Target: intn(t, "target", 0, 5),
					T: pick(t, "t", 0, 1, 10, 50), Hold: pick(t, "hold", 0, 5, 30, 100), Flush: rapid.Bool().Draw(t, "flush"), Cancel: rapid.Bool().Draw(t, "cancel")}
				for range intn(t, "nsz", 1, 3) {
					s.Sizes = append(s.Sizes, pick(t, "sz", 1, 2, 5, 64, 1000))
				}
				p.Steps = append(p.Steps, s)
				if s.Kind <= nfReadNext {
					m := nfMsg{Kind: intn(t, "mkind", 0, 5), N: pick(t, "mn", 0, 1, 10, 100, 126, 600, 5000, 12000)}
					for range pick(t, "ncuts", 0, 0, 1, 2, 4) {
						m.Cuts = append(m.Cuts, intn(t, "cut", 0, m.N+10))
					}
					if p.Frags == 0 && chance(t, "many", 2) {
						m.Many = pick(t, "nmany", 100, 1100, 5000)
					}
					m.Ping = pick(t, "mping", 0, 0, 0, 1, 2)
					p.Msgs = append(p.Msgs, m)
				}
			}
			return p
		},
		Run:      c13Run,
		Quick:    90000,
		Thorough: 900000,
		Rule:     "1-10 calls in sequence, most of which can fail without being fatal (typed reads of another type, JSON reads of non-JSON, partly or un-read messages of every size and fragmentation, invalid opcodes, values that cannot be marshalled, contexts that ended before or end while another writer is active or in the middle of a stream, repeated pings), followed by reads of everything left and sends; non-trivial: a call failed non-fatally or a message was left partly read",
	})
}

func c13Run(c *core.Case, plan any) {
	p := plan.(*c13Plan)
	ms := time.Millisecond
	u := snapws.NewUpgrader(&snapws.Options{WriteBufferSize: p.WriteBuf, ReadBufferSize: p.ReadBuf, MaxMessageSize: p.Max, ReaderMaxFragments: p.Frags, PingEvery: 50 * time.Hour, ReadWait: 100 * time.Hour})
	mc := mem.New("c")
	mc.Latency = time.Duration(p.Latency) * ms
	answer := true
	onFrame(mc, func(op int, pl []byte) {
		if op == ref.Ping && answer {
			f := ref.Frame{Fin: true, Op: ref.Pong, Payload: pl}
			mc.Feed(f.Encode(nil))
		}
	})
	conn := open(c, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	answer = false
	var in []byte
	msgs := append([]nfMsg(nil), p.Msgs...)
	msgs = append(msgs, nfMsg{Kind: 1, N: 3}, nfMsg{Kind: 0, N: 3})
	pings := 0
	for i, m := range msgs {
		op, d := m.data(i)
		cuts := m.Cuts
		if m.Many > 0 {
			cuts = nil
			for k := range m.Many {
				cuts = append(cuts, k*len(d)/m.Many)
			}
			cuts = append(cuts, m.Cuts...)
		}
		parts := cutBytes(d, cuts)
		for k, part := range parts {
			if m.Ping == k+1 {
				f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(5), Payload: []byte(fmt.Sprint("p", i))}
				in = f.Encode(in)
				pings++
			}
			o := ref.Cont
			if k == 0 {
				o = op
			}
			f := ref.Frame{Fin: k == len(parts)-1, Op: o, Key: key(uint32(i*7 + k)), Payload: part}
			in = f.Encode(in)
		}
	}
	chunked(mc, in, p.Chunks)
	next := 0
	type out struct {
		op   int
		data []byte
	}
	var want []out
	dead := false
	cutOff := false
	// verdict of a call
	judge := func(name string, err error) bool {
		if err == nil {
			return true
		}
		if isFatal(err) {
			// closing may wait for another write
			time.Sleep(10 * time.Second)
			if !mc.LibClosed() {
				c.Violate("fatal-but-open", "%s failed with the fatal error %v and the connection is open", name, err)
			}
			dead = true
			return false
		}
		c.NonTrivial()
		if mc.LibClosed() {
			c.Violate("nonfatal-but-closed", "%s failed with the non-fatal error %v and the connection is closed", name, err)
			dead = true
		}
		return false
	}
	fatalWrong := func(name string, err error) {
		if isFatal(err) {
			c.Violate("fatal", "%s failed with the fatal error %v though nothing is wrong with the connection", name, err)
		}
	}
	var held *core.Op
	pinged := false
	for i, s := range p.Steps {
		if dead || c.Failed() {
			break
		}
		name := fmt.Sprintf("step %d (kind %d)", i, s.Kind)
		if s.Kind <= nfReadNext && next >= len(msgs) {
			continue
		}
		o := c.Go(name, func() {
			switch s.Kind {
			case nfReadMessage:
				op, d := msgs[next].data(next)
				next++
				g, b, err := conn.ReadMessage()
				if err != nil || int(g) != op || !bytes.Equal(b, d) {
					c.Violate("read", "%s: ReadMessage returned %s %s, %v; want %s %s", name, opName(int(g)), trunc(b, 40), err, opName(op), trunc(d, 40))
				}
			case nfReadString, nfReadBinary:
				op, d := msgs[next].data(next)
				next++
				read, wop := conn.ReadString, ref.Text
				if s.Kind == nfReadBinary {
					read, wop = conn.ReadBinary, ref.Binary
				}
				b, err := read()
				if op == wop {
					if err != nil || !bytes.Equal(b, d) {
						c.Violate("read", "%s returned %s, %v; want %s", name, trunc(b, 40), err, trunc(d, 40))
					}
				} else if !errors.Is(err, snapws.ErrMessageTypeMismatch) {
					c.Violate("mismatch", "%s of a message of another type returned %s, %v", name, trunc(b, 40), err)
				} else {
					judge(name, err)
					c.Class("type-mismatch")
				}
			case nfReadJSON:
				m := msgs[next]
				op, d := m.data(next)
				i := next
				next++
				var v nfVal
				var target any = &v
				switch s.Target {
				case 1:
					target = new(any)
				case 2:
					target = nil
				case 3:
					target = v // no pointer
				case 4:
					target = new(int)
				}
				err := conn.ReadJSON(target)
				switch {
				case op == ref.Binary:
					if !errors.Is(err, snapws.ErrMessageTypeMismatch) {
						c.Violate("mismatch", "%s of a binary message returned %v", name, err)
					}
					c.Class("type-mismatch")
				case m.Kind == 2 && s.Target == 0:
					if err != nil || v.I != i || len(v.S) != m.N {
						c.Violate("read", "%s returned %v, I %d, S of %d bytes; want %d, %d", name, err, v.I, len(v.S), i, m.N)
					}
				case m.Kind == 2 && s.Target == 1:
					if err != nil {
						c.Violate("read", "%s returned %v", name, err)
					}
				default:
					var chk error
					if s.Target == 2 || s.Target == 3 {
						chk = errors.New("bad target")
					} else {
						chk = json.Unmarshal(d, target)
					}
					if (err == nil) != (chk == nil) {
						c.Violate("read", "%s of %s into %T returned %v, the standard decoder %v", name, trunc(d, 40), target, err, chk)
					}
					c.Class("json-error")
				}
				fatalWrong(name, err)
				judge(name, err)
			case nfReadPartly, nfReadNext:
				op, d := msgs[next].data(next)
				next++
				r, g, err := conn.NextReader()
				if err != nil || int(g) != op {
					c.Violate("read", "%s: NextReader returned %d, %v; want %s", name, g, err, opName(op))
					return
				}
				if s.Kind == nfReadNext {
					c.NonTrivial()
					c.Class("message-unread")
					return
				}
				var b []byte
				for _, n := range s.Sizes {
					k, err := r.Read(make2(n, &b))
					b = b[:len(b)-n+k]
					if err != nil && err != io.EOF {
						c.Violate("read", "%s: Read failed: %v", name, err)
						return
					}
					if err == io.EOF {
						if len(b) != len(d) {
							c.Violate("early-eof", "%s: EOF after %d of %d bytes", name, len(b), len(d))
						}
						break
					}
				}
				if !bytes.HasPrefix(d, b) {
					c.Violate("read", "%s: a partial read returned %s, the message begins with %s", name, trunc(b, 40), trunc(d, 40))
				}
				if len(b) < len(d) {
					c.NonTrivial()
					c.Class("message-partly-read")
				}
			case nfSend:
				d := AMsg{N: s.N}.payload('S', i, 0)
				err := conn.SendBytes(bg, d)
				if err != nil {
					c.Violate("send", "%s: send failed: %v", name, err)
				}
				want = append(want, out{ref.Binary, d})
			case nfSendBadOp:
				err := conn.SendMessage(bg, uint8([]int{0, 3, 8, 9, 10, 15}[s.Target]), make([]byte, s.N))
				if err == nil {
					c.Violate("accepted", "%s: SendMessage accepted a control opcode", name)
				}
				fatalWrong(name, err)
				judge(name, err)
				_, err = conn.NextWriter(bg, uint8([]int{0, 3, 8, 9, 10, 15}[s.Target]))
				if err == nil {
					c.Violate("accepted", "%s: NextWriter accepted a control opcode", name)
				}
				judge(name, err)
			case nfSendJSONBad:
				err := conn.SendJSON(bg, badValue(s.Target, s.N))
				if err == nil {
					c.Violate("accepted", "%s: SendJSON of a value that cannot be encoded succeeded", name)
				}
				fatalWrong(name, err)
				judge(name, err)
				c.Class("unmarshalable")
			case nfSendCtx:
				ctx, cancel := context.WithCancel(bg)
				cancel()
				d := AMsg{N: s.N}.payload('C', i, 0)
				err := conn.SendBytes(ctx, d)
				if s.N < 10 { // one frame
					if err == nil {
						want = append(want, out{ref.Binary, d})
					} else if !errors.Is(err, context.Canceled) {
						c.Violate("ctx-error", "%s: %v", name, err)
					}
					fatalWrong(name, err)
				} else if err == nil {
					want = append(want, out{ref.Binary, d})
				}
				if isFatal(err) {
					cutOff = true
				}
				judge(name, err)
				c.Class("ctx-done")
			case nfSendTimeout:
				if s.Hold == s.T || s.Hold <= s.T+2*p.Latency*5 && s.Hold > s.T {
					return
				}
				w, err := conn.NextWriter(bg, ref.Text)
				if err != nil {
					c.Violate("send", "%s: NextWriter failed: %v", name, err)
					return
				}
				d := AMsg{N: 3}.payload('H', i, 0)
				w.Write(d)
				want = append(want, out{ref.Text, d})
				held = c.Go("holder", func() {
					time.Sleep(time.Duration(s.Hold) * ms)
					if err := w.Close(); err != nil {
						c.Violate("send", "%s: closing the other writer failed: %v", name, err)
					}
				})
				ctx, cancel := context.WithTimeout(bg, time.Duration(s.T)*ms)
				defer cancel()
				if s.Cancel {
					ctx, cancel = context.WithCancel(bg)
					defer cancel()
					t := time.AfterFunc(time.Duration(s.T)*ms, cancel)
					defer t.Stop()
				}
				d = AMsg{N: 2}.payload('W', i, 0)
				t0 := time.Now()
				if s.Target%2 == 0 {
					err = conn.SendBytes(ctx, d)
				} else {
					err = conn.SendJSON(ctx, string(d))
					d = []byte(`"` + string(d) + "\"\n")
				}
				if s.Hold > s.T {
					if !errors.Is(err, context.DeadlineExceeded) && !errors.Is(err, context.Canceled) {
						c.Violate("ctx-error", "%s: a send whose context ended while waiting for the writer returned %v", name, err)
					}
					if e := time.Since(t0); e > time.Duration(s.T+1)*ms {
						c.Violate("ctx-late", "%s: the send returned %v after its context had ended", name, e-time.Duration(s.T)*ms)
					}
					fatalWrong(name, err)
					c.Class("ctx-while-waiting")
				} else if err == nil {
					op := ref.Binary
					if s.Target%2 != 0 {
						op = ref.Text
					}
					want = append(want, out{op, d})
				} else if s.T-s.Hold > 10*p.Latency+1 {
					c.Violate("send", "%s: failed with %v though its context had %d ms left", name, err, s.T-s.Hold)
				} else {
					cutOff = cutOff || isFatal(err)
				}
				judge(name, err)
				held.Wait(time.Minute)
			case nfStreamCut, nfStream:
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				w, err := conn.NextWriter(ctx, ref.Binary)
				if err != nil {
					c.Violate("send", "%s: NextWriter failed: %v", name, err)
					return
				}
				d := AMsg{N: s.N}.payload('T', i, 0)
				var e1 error
				_, e1 = w.Write(d[:len(d)/2])
				if e1 == nil && s.Flush {
					e1 = w.Flush()
				}
				if e1 != nil {
					c.Violate("send", "%s: Write or Flush failed: %v", name, e1)
				}
				flushed := mc.OutLen()
				if s.Kind == nfStreamCut {
					cancel()
				}
				_, e1 = w.Write(d[len(d)/2:])
				e2 := w.Close()
				if s.Kind == nfStream {
					if e1 != nil || e2 != nil {
						c.Violate("send", "%s: stream failed: %v, %v", name, e1, e2)
					}
					want = append(want, out{ref.Binary, d})
					return
				}
				c.Class("ctx-in-stream")
				_ = flushed
				switch {
				case e2 == nil && e1 == nil:
					want = append(want, out{ref.Binary, d})
				case e2 == nil:
					// ended with what had been accepted
					c.Class("ended-anyway")
					dead, cutOff = true, true
				case isFatal(e2):
					cutOff = true
					judge(name, e2)
				default:
					judge(name, e2)
				}
			case nfRetry:
				ctx, cancel := context.WithCancel(bg)
				defer cancel()
				w, err := conn.NextWriter(ctx, ref.Text)
				if err != nil {
					c.Violate("send", "%s: NextWriter failed: %v", name, err)
					return
				}
				d := AMsg{N: min(s.N, 5)}.payload('R', i, 0)
				if _, err = w.Write(d); err != nil {
					c.Violate("send", "%s: Write failed: %v", name, err)
				}
				if s.Hold > 0 { // a control frame is being written meanwhile
					pinged = true
					mc.SetFault(mc.WriteCalls(), mem.Fault{Delay: time.Duration(s.Hold) * ms})
					pong := c.Go("ping", func() { conn.Ping() })
					synctest.Wait()
					defer pong.Wait(time.Minute)
				}
				cancel()
				tries, failed := 0, 0
				for ; tries < 100; tries++ {
					if err = w.Flush(); err == nil {
						break
					}
					failed++
					fatalWrong(name, err)
					if !errors.Is(err, context.Canceled) {
						c.Violate("retry", "%s: attempt %d to flush returned %v; only the context has ended", name, tries, err)
					}
					judge(name, err)
					time.Sleep(ms)
				}
				c.ClassIf(failed > 1, "flush-retried")
				err = w.Close()
				switch {
				case err == nil:
					want = append(want, out{ref.Text, d})
				case tries == 100:
					fatalWrong(name, err)
					judge(name, err)
				default:
					// a part of the message is out
					cutOff = true
					if !isFatal(err) {
						c.Violate("half-message", "%s: Close failed with the non-fatal error %v though a part of the message has been sent", name, err)
					}
					judge(name, err)
				}
			case nfBusy:
				if pinged || s.Hold <= s.T {
					return
				}
				pinged = true
				mc.SetFault(mc.WriteCalls(), mem.Fault{Delay: time.Duration(s.Hold) * ms})
				pong := c.Go("ping", func() { conn.Ping() })
				defer pong.Wait(time.Minute)
				synctest.Wait()
				ctx, cancel := context.WithTimeout(bg, time.Duration(s.T)*ms)
				defer cancel()
				if s.Cancel {
					ctx, cancel = context.WithCancel(bg)
					defer cancel()
					t := time.AfterFunc(time.Duration(s.T)*ms, cancel)
					defer t.Stop()
				}
				d := AMsg{N: s.N}.payload('B', i, 0)
				var err error
				t0 := time.Now()
				switch s.Target % 3 {
				case 0:
					err = conn.SendBytes(ctx, d)
				case 1:
					err = conn.SendJSON(ctx, string(d))
				case 2:
					err = conn.SendMessage(ctx, ref.Text, d)
				}
				if !errors.Is(err, context.DeadlineExceeded) && !errors.Is(err, context.Canceled) {
					c.Violate("ctx-error", "%s: a send whose context ended while a ping was being written returned %v", name, err)
				}
				if e := time.Since(t0); e > time.Duration(s.T+1)*ms {
					c.Violate("ctx-late", "%s: the send returned %v after its context had ended", name, e-time.Duration(s.T)*ms)
				}
				fatalWrong(name, err)
				judge(name, err)
				c.Class("ctx-while-busy")
			case nfPing:
				pinged = true
				conn.Ping()
				err := conn.Ping()
				if err == nil {
					c.Violate("accepted", "%s: a second Ping succeeded while the first is unanswered", name)
				}
				fatalWrong(name, err)
				judge(name, err)
			case nfBatch:
				err := conn.Batch([]byte("1"))
				if err == nil {
					c.Violate("accepted", "%s: Batch succeeded without batching", name)
				}
				fatalWrong(name, err)
				judge(name, err)
			}
		})
		if !o.Wait(time.Hour) {
			c.Violate("hang", "%s did not return:\n%s", name, firstStack())
			return
		}
	}
	if c.Failed() {
		return
	}
	if !dead {
		// the connection is in sync, in both directions
		for ; next < len(msgs); next++ {
			op, d := msgs[next].data(next)
			var g uint8
			var b []byte
			var err error
			if !c.Must("hang", "ReadMessage of the next message", time.Hour, func() { g, b, err = conn.ReadMessage() }) {
				return
			}
			if err != nil || int(g) != op || !bytes.Equal(b, d) {
				c.Violate("out-of-sync", "after the steps, message %d was read as %s %s, %v; want %s %s", next, opName(int(g)), trunc(b, 40), err, opName(op), trunc(d, 40))
				return
			}
		}
		var err error
		ctx, cancel := context.WithTimeout(bg, time.Minute)
		defer cancel()
		if !c.Must("hang", "final send", time.Hour, func() { err = conn.SendString(ctx, []byte("final")) }) {
			return
		}
		if err != nil {
			c.Violate("unusable", "after the steps, a send failed: %v", err)
			return
		}
		want = append(want, out{ref.Text, []byte("final")})
		synctest.Wait()
		if mc.LibClosed() {
			c.Violate("unusable", "after the steps the connection is closed")
		}
	}
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	if cutOff && len(s.Msgs) > len(want) {
		s.Msgs = s.Msgs[:len(want)]
	}
	if len(s.Msgs) != len(want) {
		c.Violate("messages", "%d messages were sent successfully, the peer received %d", len(want), len(s.Msgs))
		return
	}
	for i, m := range s.Msgs {
		if m.Op != want[i].op || !bytes.Equal(m.Data, want[i].data) {
			c.Violate("messages", "message %d arrived as %s %s, want %s %s", i, opName(m.Op), trunc(m.Data, 40), opName(want[i].op), trunc(want[i].data, 40))
			return
		}
	}
	c.ClassIf(dead, "ended-fatally")
	if !dead {
		np := 0
		for _, f := range s.Frames {
			if f.Op == ref.Pong {
				np++
			}
		}
		if np != pings {
			c.Violate("pongs", "%d client pings, %d pongs", pings, np)
		}
	}
}

// make2 extends b by n bytes and returns the new part.
func make2(n int, b *[]byte) []byte {
	*b = append(*b, make([]byte, n)...)
	return (*b)[len(*b)-n:]
}
