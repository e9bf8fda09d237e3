package props

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"slices"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

type c01Plan struct {
	ReadBuf  int      `json:"readbuf,omitempty"`
	WriteBuf int      `json:"writebuf,omitempty"`
	Open     OpenOpts `json:"open"`
	NoPool   bool     `json:"nopool,omitempty"`
	NoLimit  bool     `json:"nolimit,omitempty"`
	SkipUTF  bool     `json:"skiputf,omitempty"`
	Msgs     []InMsg  `json:"msgs"`
	Chunks   []int    `json:"chunks,omitempty"`
	Modes    []int    `json:"modes"`           // per message: 0 ReadMessage, 1 typed read, 2 stream, 3 bufio.Reader, 4 io.Copy, 5 io.ReadFull, 6 reads of size 0 in between
	Sizes    []int    `json:"sizes,omitempty"` // read sizes of streaming reads
	Paced    int      `json:"paced,omitempty"` // ms between chunks
	Sub      string   `json:"sub,omitempty"`
	Rep      int      `json:"rep,omitempty"`     // the messages are sent that many times
	LenForm  int      `json:"lenform,omitempty"` // 1, 2: longer length forms than needed
}

func init() {
	core.Register(&core.Prop{
		ID:  "C01",
		New: func() any { return &c01Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c01Plan{
				ReadBuf:  pick(t, "readbuf", 0, 0, 1, 4, 14, 16, 64, 100, 110, 111, 124, 125, 126, 128, 139, 140, 256, 1000, 4096, 4096, 8192),
				WriteBuf: pick(t, "writebuf", 0, 0, 0, 64, 512, 4096, 9000),
				NoPool:   chance(t, "nopool", 30),
				NoLimit:  chance(t, "nolimit", 20),
				SkipUTF:  chance(t, "skiputf", 30),
				Open:     OpenOpts{Br: pick(t, "br", 0, 0, 0, 64, 122, 200, 1024)},
			}
			n := intn(t, "nmsgs", 1, 6)
			for range n {
				p.Msgs = append(p.Msgs, genInMsg(t, 200000, ref.Ping, ref.Pong))
				p.Modes = append(p.Modes, intn(t, "mode", 0, 6))
			}
			if chance(t, "empties", 3) {
				// a long run of empty fragments
				m := &p.Msgs[0]
				at := intn(t, "emptyAt", 0, m.Pay.N)
				for range intn(t, "emptyRun", 90, 250) {
					m.Cuts = append(m.Cuts, at)
				}
			}
			p.Chunks = genChunks(t)
			p.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 7, 8, 16, 64, 100, 125, 126, 127, 128, 511, 512, 1000, 4096, 70000}), 0, 4).Draw(t, "sizes")
			if chance(t, "paced", 30) {
				p.Paced = pick(t, "pace", 1, 5, 20)
			}
			if chance(t, "longForm", 10) {
				p.LenForm = intn(t, "lenform", 1, 2)
			}
			if chance(t, "early", 30) {
				p.Open.Prebuf = intn(t, "prebuf", 1, 600)
			}
			return p
		},
		Enum: func(thorough bool) []any {
			// very long messages and connections
			ping := []Ctl{{Op: ref.Ping, N: 3}}
			return []any{
				&c01Plan{Msgs: []InMsg{{Pay: Pay{N: 70000, Seed: 1}, Every: 1}}},
				&c01Plan{Msgs: []InMsg{{Pay: Pay{N: 140001, Seed: 2}, Every: 2, Text: true}}, Modes: []int{2}, ReadBuf: 200, Sizes: []int{4096}},
				&c01Plan{Msgs: []InMsg{{Pay: Pay{N: 3, Seed: 3}}, {Pay: Pay{N: 6, Seed: 4}, Cuts: []int{2, 4}, Text: true, Ctls: ping}, {}}, Modes: []int{0, 1, 2}, Rep: 23000},
				&c01Plan{Msgs: []InMsg{{Pay: Pay{N: 5, Seed: 1}, Cuts: slices.Repeat([]int{2}, 150)}}, Modes: []int{3}},
			}
		},
		Run:      c01Run,
		Quick:    60000,
		Thorough: 600000,
		Rule:     "random conforming client streams: 1-6 messages, lengths 0-200000 biased to framing boundaries, random fragmentation with empty fragments, interleaved ping/pong, arbitrary masks, network chunk cycles, buffer sizes and read sizes; non-trivial: a message of at least 2 fragments, or an interleaved control frame, or a length of 126 or more",
	})
}

func c01Run(c *core.Case, plan any) {
	p := plan.(*c01Plan)
	opts := &snapws.Options{ReadBufferSize: p.ReadBuf, WriteBufferSize: p.WriteBuf, DisableWriteBuffersPooling: p.NoPool, SkipUTF8Validation: p.SkipUTF}
	if p.NoLimit {
		opts.MaxMessageSize = -1
	}
	u := snapws.NewUpgrader(opts)
	mc := mem.New("c")
	msgs := p.Msgs
	if p.Rep > 1 {
		msgs = slices.Repeat(msgs, p.Rep)
	}
	var fs []ref.Frame
	var pongs [][]byte
	longForm := false
	for _, m := range msgs {
		f := m.frames()
		if p.LenForm > 0 {
			for i := range f {
				f[i].LenForm = p.LenForm
				if p.LenForm == 1 && len(f[i].Payload) < 126 || p.LenForm == 2 && len(f[i].Payload) < 65536 {
					longForm = true
				}
			}
		}
		fs = append(fs, f...)
		c.ClassIf(len(m.Cuts) > 0, "fragmented")
		c.ClassIf(len(m.Ctls) > 0, "interleaved-control")
		c.ClassIf(m.Pay.N == 0, "empty-message")
		c.ClassIf(m.Pay.N >= 65536, "64-bit-length")
		c.ClassIf(m.Pay.N >= 126 && m.Pay.N < 65536, "16-bit-length")
		if len(m.Cuts) > 0 || len(m.Ctls) > 0 || m.Pay.N >= 126 {
			c.NonTrivial()
		}
	}
	c.ClassIf(longForm, "non-minimal-length")
	for _, f := range fs {
		if f.Op == ref.Ping {
			pongs = append(pongs, f.Payload)
		}
	}
	b := encode(fs)
	o := p.Open
	pre := min(o.Prebuf, len(b))
	if o.Br > 0 {
		pre = min(pre, o.Br)
	}
	o.Prebuf = pre
	if pre > 0 {
		c.Class("early-data")
		mc.Feed(b[:pre])
		b = b[pre:]
	}
	conn := open(c, u, mc, o)
	if conn == nil {
		return
	}
	if p.Paced > 0 && len(b) > 0 {
		c.Go("feeder", func() {
			ch := p.Chunks
			if len(ch) == 0 {
				ch = []int{1 + len(b)/7}
			}
			for i := 0; len(b) > 0; i++ {
				n := min(len(b), max(ch[i%len(ch)], 1+len(b)/200))
				mc.Feed(b[:n])
				b = b[n:]
				time.Sleep(time.Duration(p.Paced) * time.Millisecond)
			}
			mc.FeedEOF()
		})
	} else {
		chunked(mc, b, p.Chunks)
		mc.FeedEOF()
	}
	refused := false
	op := c.Go("reader", func() {
		for i, m := range msgs {
			want := m.data()
			wantOp := uint8(m.op())
			mode := 0
			if k := i % len(p.Msgs); k < len(p.Modes) {
				mode = p.Modes[k]
			}
			var got []byte
			var gotOp uint8
			var err error
			switch mode {
			case 0:
				gotOp, got, err = conn.ReadMessage()
			case 1:
				gotOp = wantOp
				if m.Text {
					got, err = conn.ReadString()
				} else {
					got, err = conn.ReadBinary()
				}
			default:
				var r io.Reader
				r, gotOp, err = conn.NextReader()
				if err == nil {
					size := 16
					if len(p.Sizes) > 0 {
						size = max(16, p.Sizes[0])
					}
					switch mode {
					case 3:
						// refills its buffer before every byte, giving up when that makes no progress
						br := bufio.NewReaderSize(r, size)
						for err == nil {
							var b byte
							if b, err = br.ReadByte(); err == nil {
								got = append(got, b)
							}
						}
					case 4:
						var b bytes.Buffer
						// without the shortcut of bytes.Buffer
						if _, err = io.CopyBuffer(struct{ io.Writer }{&b}, r, make([]byte, size)); err == nil {
							err = io.EOF
						}
						got = b.Bytes()
					case 5:
						got = make([]byte, len(want))
						if _, err = io.ReadFull(r, got); err == nil {
							var n int
							if n, err = io.ReadFull(r, make([]byte, 1)); n > 0 {
								err = errors.New("more bytes than were sent")
							}
						}
					case 6:
						got, err = streamRead(&emptyReads{r: r}, p.Sizes, len(want)+1)
					default:
						got, err = streamRead(r, p.Sizes, len(want)+1)
					}
					if err == io.EOF {
						err = nil
						// the end of the message is stable
						n, e2 := r.Read(make([]byte, 8))
						if n != 0 || e2 != io.EOF {
							c.Violate("read-past-end", "message %d: Read after io.EOF returned %d, %v", i, n, e2)
							return
						}
					} else if err == nil {
						err = errors.New("no EOF")
					}
				}
			}
			if err != nil {
				if longForm && closeCode(mc) == 1002 {
					refused = true // refusing an over-long length form is conforming
					return
				}
				c.Violate("read-error", "message %d (%s, %d bytes, %d fragments, mode %d): read failed: %v (fatal %v) after %d bytes", i, opName(m.op()), m.Pay.N, len(m.Cuts)+1, mode, err, isFatal(err), len(got))
				return
			}
			if gotOp != wantOp {
				c.Violate("wrong-type", "message %d: type %d, want %d", i, gotOp, wantOp)
				return
			}
			if !bytes.Equal(got, want) {
				c.Violate("wrong-bytes", "message %d (mode %d): %s", i, mode, diff(got, want))
				return
			}
		}
		// nothing is left: the end of the stream is an error, not a message
		op, d, err := conn.ReadMessage()
		if err == nil {
			c.Violate("extra-message", "a message that was never sent was delivered: type %d, %d bytes", op, len(d))
		} else if !isFatal(err) {
			c.Violate("eof-not-fatal", "read at the end of the stream failed with a non-fatal error: %v", err)
		}
	})
	if !op.Wait(forever) {
		c.Violate("hang", "reading a complete stream does not end")
		return
	}
	if c.Failed() || refused {
		return
	}
	s := validWire(c, mc)
	i := 0
	for _, f := range s.Frames {
		if f.Op == ref.Pong {
			if i >= len(pongs) || !bytes.Equal(f.Payload, pongs[i]) {
				c.Violate("wrong-pong", "pong %d has payload %s", i, trunc(f.Payload, 40))
				return
			}
			i++
		}
	}
	if i != len(pongs) {
		c.Violate("missing-pong", "%d pings, %d pongs", len(pongs), i)
	}
}

// emptyReads reads into an empty buffer before every read.
type emptyReads struct{ r io.Reader }

func (e *emptyReads) Read(p []byte) (int, error) {
	if n, err := e.r.Read(nil); n != 0 || err != nil {
		return n, err
	}
	return e.r.Read(p)
}

// closeCode is the code of the close frame sent so far (0: no frame, 1005: no code).
func closeCode(mc *mem.Conn) int {
	s := wire(mc)
	if s.CloseAt < 0 {
		return 0
	}
	if s.CloseCode == 0 {
		return 1005
	}
	return s.CloseCode
}
