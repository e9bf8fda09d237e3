package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"sync/atomic"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

var errReset = errors.New("connection reset by peer")

// Item is one piece of a client byte stream.
type Item struct {
	Msg   *InMsg     `json:"m,omitempty"`
	Frame *ref.Frame `json:"f,omitempty"`
	Pay   *Pay       `json:"p,omitempty"` // payload of Frame
	Raw   []byte     `json:"r,omitempty"`
}

// Mut changes the encoded stream at byte level.
type Mut struct {
	Kind int `json:"k"` // 0 set, 1 xor bit, 2 delete, 3 insert, 4 truncate, 5 duplicate
	At   int `json:"at"`
	N    int `json:"n,omitempty"`
	V    int `json:"v,omitempty"`
}

type inPlan struct {
	ReadBuf int      `json:"readbuf,omitempty"`
	NoPool  bool     `json:"nopool,omitempty"`
	Open    OpenOpts `json:"open"`
	Max     int      `json:"max,omitempty"` // 0: default
	Frags   int      `json:"frags,omitempty"`
	SkipUTF bool     `json:"skiputf,omitempty"`
	Items   []Item   `json:"items"`
	Muts    []Mut    `json:"muts,omitempty"`
	Chunks  []int    `json:"chunks,omitempty"`
	Modes   []int    `json:"modes"` // cycle: 0 ReadMessage, 1 typed, 2 stream, 3 io.ReadAll, 4 the beginning only
	Sizes   []int    `json:"sizes,omitempty"`
	End     int      `json:"end,omitempty"` // 0 EOF, 1 the peer falls silent, 2 reset
	Paced   int      `json:"paced,omitempty"`

	allFrom int // from this message on (if > 0, from the one before it) nothing is abandoned
}

func (p *inPlan) bytes() []byte {
	var b []byte
	for _, it := range p.Items {
		switch {
		case it.Msg != nil:
			b = append(b, encode(it.Msg.frames())...)
		case it.Frame != nil:
			f := *it.Frame
			if it.Pay != nil {
				f.Payload = it.Pay.Bytes()
			}
			b = f.Encode(b)
		default:
			b = append(b, it.Raw...)
		}
	}
	for _, m := range p.Muts {
		if len(b) == 0 {
			break
		}
		at := m.At % len(b)
		switch m.Kind {
		case 0:
			b[at] = byte(m.V)
		case 1:
			b[at] ^= 1 << (m.V & 7)
		case 2:
			e := min(len(b), at+max(1, m.N))
			b = append(b[:at:at], b[e:]...)
		case 3:
			ins := Pay{max(1, m.N), uint32(m.V)}.Bytes()
			b = append(append(b[:at:at], ins...), b[at:]...)
		case 4:
			b = b[:at]
		case 5:
			e := min(len(b), at+max(1, m.N))
			b = append(append(b[:e:e], b[at:e]...), b[e:]...)
		}
	}
	return b
}

func (p *inPlan) limits() ref.Limits {
	l := ref.Limits{Max: int64(p.Max), Frags: p.Frags}
	if p.Max == 0 {
		l.Max = snapws.DefaultMaxMessageSize
	}
	l.Validate = func(i int) bool { return !p.SkipUTF && p.mode(i) < 2 }
	return l
}

func (p *inPlan) mode(i int) int {
	if len(p.Modes) == 0 {
		return 0
	}
	m := p.Modes[i%len(p.Modes)]
	if m == 4 && p.allFrom > 0 && i >= p.allFrom-1 {
		m = 2
	}
	return m
}

// runInbound feeds the stream to a connection, reads until the end and judges
// what was delivered against the reference decoder.
func runInbound(c *core.Case, p *inPlan) *ref.Verdict {
	opts := &snapws.Options{ReadBufferSize: p.ReadBuf, DisableWriteBuffersPooling: p.NoPool, SkipUTF8Validation: p.SkipUTF,
		MaxMessageSize: p.Max, ReaderMaxFragments: p.Frags}
	u := snapws.NewUpgrader(opts)
	mc := mem.New("c")
	b := p.bytes()
	v := ref.DecodeClient(b, p.limits())
	if slices.Contains(p.Modes, 4) {
		// whether limits apply to what the application does not read is open
		loose := p.limits()
		loose.Max, loose.Frags = -1, 0
		if w := ref.DecodeClient(b, loose); w.End != v.End || w.Why != v.Why {
			// the message that breaks them is read
			p.allFrom = 1
			for _, e := range v.Events {
				if e.Op <= ref.Binary {
					p.allFrom++
				}
			}
		}
	}
	total := len(b)
	o := p.Open
	o.Prebuf = min(o.Prebuf, len(b))
	if o.Br > 0 {
		o.Prebuf = min(o.Prebuf, o.Br)
	}
	if o.Prebuf > 0 {
		mc.Feed(b[:o.Prebuf])
		b = b[o.Prebuf:]
	}
	conn := open(c, u, mc, o)
	if conn == nil {
		return v
	}
	var fedNs atomic.Int64 // when the last byte was fed
	finish := func() {
		fedNs.Store(time.Now().UnixNano())
		switch p.End {
		case 0:
			mc.FeedEOF()
		case 2:
			mc.FeedErr(errReset)
		}
	}
	if p.Paced > 0 && len(b) > 0 {
		ch := p.Chunks
		if len(ch) == 0 {
			ch = []int{1 + len(b)/7}
		}
		c.Go("feeder", func() {
			for i := 0; len(b) > 0; i++ {
				n := min(len(b), max(ch[i%len(ch)], 1+len(b)/200))
				mc.Feed(b[:n])
				b = b[n:]
				if len(b) > 0 {
					time.Sleep(time.Duration(p.Paced) * time.Millisecond)
				}
			}
			finish()
		})
	} else {
		chunked(mc, b, p.Chunks)
		finish()
	}

	var msgs []ref.Event
	for _, e := range v.Events {
		if e.Op <= ref.Binary {
			msgs = append(msgs, e)
		}
	}
	type got struct {
		op   int
		data []byte
		cut  bool // the rest was not read
	}
	var seen []got
	var term error
	var partial []byte // handed out by a streaming read that failed
	var partialOp int
	var endAt time.Time
	limit := total + 16
	op := c.Go("reader", func() {
		for i := 0; ; i++ {
			if i > len(msgs)+1 {
				c.Violate("extra-message", "more messages were delivered (%d) than were sent before the end: %d", i, len(msgs))
				return
			}
			var o uint8
			var d []byte
			var err error
			partial, partialOp = nil, -1
			cut := false
			switch m := p.mode(i); {
			case m == 1 && i < len(msgs):
				o = uint8(msgs[i].Op)
				if msgs[i].Op == ref.Text {
					d, err = conn.ReadString()
				} else {
					d, err = conn.ReadBinary()
				}
			case m == 1 && v.Open && v.PartialOp == ref.Text:
				o = ref.Text
				d, err = conn.ReadString()
			case m == 1 && v.Open && v.PartialOp == ref.Binary:
				o = ref.Binary
				d, err = conn.ReadBinary()
			case m <= 1:
				o, d, err = conn.ReadMessage()
			default:
				var r io.Reader
				r, o, err = conn.NextReader()
				if err == nil {
					partialOp = int(o)
					if m == 4 {
						want := 3
						if len(p.Sizes) > 0 {
							want = p.Sizes[i%len(p.Sizes)]
						}
						d = make([]byte, want)
						var n int
						if n, err = io.ReadFull(r, d[:want-want%2]); err == io.ErrUnexpectedEOF {
							err = io.EOF
						} else if err == nil {
							cut, err = true, io.EOF
						}
						d = d[:n]
					} else if m == 2 {
						d, err = streamRead(r, p.Sizes, limit)
					} else {
						d, err = io.ReadAll(io.LimitReader(r, int64(limit)))
						if err == nil {
							err = io.EOF
						}
					}
					partial = d
					if err == io.EOF {
						err = nil
					} else if err == nil {
						err = errors.New("harness: no EOF")
					}
				}
			}
			if err != nil {
				term = err
				endAt = time.Now()
				return
			}
			seen = append(seen, got{int(o), d, cut})
		}
	})
	limitT := time.Hour
	if !op.Wait(limitT) {
		c.Violate("hang", "reading did not end (stream: %s; %s)", v.End, v.Why)
		return v
	}
	if c.Failed() {
		return v
	}
	c.Logf("verdict: %s (%s), %d events, codes %v, early %v; seen %d messages, then %v", v.End, v.Why, len(v.Events), v.Codes, v.Early, len(seen), term)

	late := time.Duration(0)
	if ns := fedNs.Load(); ns != 0 {
		late = endAt.Sub(time.Unix(0, ns))
	}

	// an abandoned message may not have been complete
	if n := len(seen) - 1; n >= 0 && seen[n].cut && n == len(msgs) && v.Open && partialOp < 0 {
		partialOp, partial = seen[n].op, seen[n].data
		seen = seen[:n]
	}
	// delivered messages
	for i, g := range seen {
		if i >= len(msgs) {
			c.Violate("extra-message", "message %d (%s, %d bytes) was delivered but only %d were sent before the end (%s: %s)", i, opName(g.op), len(g.data), len(msgs), v.End, v.Why)
			return v
		}
		if g.op != msgs[i].Op {
			c.Violate("wrong-type", "message %d: type %d, want %d", i, g.op, msgs[i].Op)
			return v
		}
		c.ClassIf(g.cut && len(g.data) < len(msgs[i].Data), "abandoned")
		if g.cut && bytes.HasPrefix(msgs[i].Data, g.data) {
			continue
		}
		if !bytes.Equal(g.data, msgs[i].Data) {
			c.Violate("wrong-bytes", "message %d: %s", i, diff(g.data, msgs[i].Data))
			return v
		}
	}
	if !isFatal(term) {
		c.Violate("not-fatal", "the stream ends with %s (%s) but the read failed with the non-fatal error %v", v.End, v.Why, term)
		return v
	}
	if !mc.LibClosed() {
		c.Violate("not-closed", "the read failed fatally (%v) but the transport was not closed", term)
		return v
	}
	// what a streaming reader was given of the last message
	if partialOp >= 0 {
		want, wantOp := []byte(nil), -1
		if len(seen) < len(msgs) {
			want, wantOp = msgs[len(seen)].Data, msgs[len(seen)].Op
		} else if v.Open {
			want, wantOp = v.Partial, v.PartialOp
		}
		if wantOp != partialOp || !bytes.HasPrefix(want, partial) {
			c.Violate("wrong-partial", "a streaming read of %s handed out %d bytes that are no prefix of the %d bytes of %s sent", opName(partialOp), len(partial), len(want), opName(wantOp))
			return v
		}
	}
	if lim := p.limits(); lim.Max >= 0 && int64(len(partial)) > lim.Max {
		c.Violate("over-limit", "the application was handed %d bytes of a message, the limit is %d", len(partial), lim.Max)
	}

	s := validWire(c, mc)
	if len(s.Msgs) > 0 || s.Open != nil {
		c.Violate("unasked-data", "the server sent data frames nobody asked for: %s", frameList(s))
	}
	var pongs [][]byte
	for _, f := range s.Frames {
		if f.Op == ref.Pong {
			pongs = append(pongs, f.Payload)
		}
	}
	code := 0
	if s.CloseAt >= 0 {
		code = s.CloseCode
		if code == 0 {
			code = 1005
		}
	}
	// pings answered, and the number of events that is known to be handled
	var pings [][]byte
	handled := func(upto int) (nm, np int) {
		for _, e := range v.Events[:upto] {
			switch e.Op {
			case ref.Ping:
				np++
			case ref.Text, ref.Binary:
				nm++
			}
		}
		return
	}
	for _, e := range v.Events {
		if e.Op == ref.Ping {
			pings = append(pings, e.Data)
		}
	}
	for i, g := range pongs {
		if i >= len(pings) || !bytes.Equal(g, pings[i]) {
			c.Violate("wrong-pong", "pong %d (payload %s) answers no ping that came before the end (%d pings)", i, trunc(g, 40), len(pings))
			return v
		}
	}
	full := len(seen) == len(msgs) && len(pongs) == len(pings)
	why := ""
	if full {
		switch v.End {
		case ref.EndViol:
			if v.Codes[code] {
				if p.End == 1 && late > time.Second {
					c.Violate("late", "the violation (%s) was only acted upon %v after it was received", v.Why, late)
				}
				return v
			}
			why = fmt.Sprintf("closed with code %d, want one of %v (%s)", code, keys(v.Codes), v.Why)
		case ref.EndClose:
			want := v.CloseCode
			if want == 0 {
				want = 1000
			}
			if code == want || want == 1000 && v.CloseCode == 0 && code == 1005 {
				if p.End == 1 && late > time.Second {
					c.Violate("late", "the close frame was only acted upon %v after it was received", late)
				}
				return v
			}
			why = fmt.Sprintf("close frame with code %d answered with %d", v.CloseCode, code)
		default:
			if p.End == 1 {
				if late > 3*time.Minute {
					c.Violate("late", "a silent peer (%s) was only given up after %v", v.End, late)
				}
			}
			return v
		}
	} else {
		why = fmt.Sprintf("%d of %d messages delivered, %d of %d pings answered before the end (%s: %s), closed with %d, error %v", len(seen), len(msgs), len(pongs), len(pings), v.End, v.Why, code, term)
	}
	for _, e := range v.Early {
		nm, np := handled(e.At)
		if e.Code == code && len(seen) >= nm && len(pongs) >= np {
			c.Class("early-refusal")
			return v
		}
	}
	key := "wrong-code"
	if !full {
		key = "lost"
	}
	c.Violate(key, "%s", why)
	return v
}

func keys(m map[int]bool) (r []int) {
	for i := range 5000 {
		if m[i] {
			r = append(r, i)
		}
	}
	return
}
