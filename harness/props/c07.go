package props

import (
	"bytes"
	"fmt"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// c07Op is one step; the connection settles after each.
type c07Op struct {
	Kind int    `json:"k"`
	N    int    `json:"n,omitempty"`
	Seed uint32 `json:"s,omitempty"`
	Rep  int    `json:"rep,omitempty"` // that many at once
	Cut  bool   `json:"cut,omitempty"` // in two network reads, and a pause

	At    int  `json:"at,omitempty"`    // Cut: the first read has so many bytes (0: half)
	Pause int  `json:"pause,omitempty"` // Cut: ms
	Mid   bool `json:"mid,omitempty"`   // Cut: the application pings and sends in the pause
}

const (
	k7ClientPing = iota
	k7Ping       // the application pings
	k7Answer     // the peer answers the outstanding ping
	k7WrongPong  // a pong with another payload
	k7Pong       // an empty pong without an outstanding ping
	k7Frag       // the next fragment of a client message
	k7Send
	k7StreamPing // a ping between the fragments of a server message
	k7Mixed      // a whole message with control frames inside, in one read
)

type c07Plan struct {
	WriteBuf int     `json:"writebuf,omitempty"`
	ReadBuf  int     `json:"readbuf,omitempty"`
	Auto     int     `json:"auto,omitempty"`  // 1: the peer answers pings while they are being written; 2: right after
	Slow     int     `json:"slow,omitempty"`  // ms a write takes
	Inter    bool    `json:"inter,omitempty"` // the transport does not serialise writes
	Ops      []c07Op `json:"ops"`
	Code     int     `json:"code,omitempty"`
	Stream   bool    `json:"stream,omitempty"` // the application streams
	Half     int     `json:"half,omitempty"`   // bytes of an unfinished ping before the close
}

func init() {
	core.Register(&core.Prop{
		ID:         "C07",
		RaceShards: 1,
		New:        func() any { return &c07Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c07Plan{
				WriteBuf: pick(t, "writebuf", 0, 0, 20, 100),
				ReadBuf:  pick(t, "readbuf", 0, 0, 16, 125, 131, 140, 1000),
				Auto:     pick(t, "auto", 0, 0, 1, 1, 2),
				Slow:     pick(t, "slow", 0, 0, 1, 50),
				Inter:    chance(t, "inter", 30),
				Code:     pick(t, "code", 0, 1001, 3000),
				Stream:   chance(t, "stream", 30),
			}
			for range intn(t, "n", 1, 14) {
				o := c07Op{
					Kind: pick(t, "k", k7ClientPing, k7ClientPing, k7ClientPing, k7Ping, k7Ping, k7Ping, k7Answer, k7Answer, k7WrongPong, k7Pong, k7Frag, k7Frag, k7Send, k7StreamPing, k7Mixed),
					N:    pick(t, "n", 0, 0, 1, 2, 3, 4, 7, 16, 60, 100, 124, 125), Seed: genSeed(t),
					Rep: pick(t, "rep", 1, 1, 1, 2, 5), Cut: chance(t, "cut", 20)}
				if o.Cut {
					o.At, o.Pause, o.Mid = pick(t, "at", 0, 0, 1, 2, 3, 5, 6, 7, 30), pick(t, "pause", 0, 0, 1000, 7000, 200000), chance(t, "mid", 50)
				}
				p.Ops = append(p.Ops, o)
			}
			if chance(t, "halfping", 20) {
				p.Half = pick(t, "half", 1, 2, 3, 6, 7, 20)
			}
			return p
		},
		Enum: func(bool) []any {
			var out []any
			for n := range 126 {
				for auto := range 2 {
					out = append(out, &c07Plan{Auto: auto, Ops: []c07Op{{Kind: k7ClientPing, N: n, Seed: 3}, {Kind: k7Ping}, {Kind: k7Answer}, {Kind: k7ClientPing}, {Kind: k7Ping}, {Kind: k7WrongPong, N: n}, {Kind: k7ClientPing, N: 125 - n, Seed: 4}, {Kind: k7Answer}, {Kind: k7Ping}}})
					out = append(out, &c07Plan{Auto: auto, Ops: []c07Op{{Kind: k7Frag, N: 5}, {Kind: k7ClientPing, N: n, Seed: 3, Cut: true}, {Kind: k7Pong, N: n}, {Kind: k7Frag, N: 6}, {Kind: k7ClientPing, N: n, Rep: 3}}, Code: 3000})
				}
			}
			return out
		},
		Run:      c07Run,
		Quick:    90000,
		Thorough: 900000,
		Rule:     "sequences of 1-14 steps: client pings of every payload size (singly, in bursts, split with pauses in which the application goes on, between fragments), application pings answered at once (even while the ping is being written), later or not at all, wrong and unsolicited pongs, data both ways, then a close (also while a ping is arriving); plus every control payload length in fixed sequences; non-trivial: a client ping with a payload or an answered application ping",
	})
}

func c07Run(c *core.Case, plan any) {
	p := plan.(*c07Plan)
	u := snapws.NewUpgrader(&snapws.Options{WriteBufferSize: p.WriteBuf, ReadBufferSize: p.ReadBuf, PingEvery: 5 * time.Hour, ReadWait: 10 * time.Hour})
	mc := mem.New("c")
	mc.Interleave = p.Inter
	mc.Latency = time.Duration(p.Slow) * time.Millisecond
	pong := ref.Frame{Fin: true, Op: ref.Pong, Key: [4]byte{1, 2, 3, 4}}
	onFrame(mc, func(op int, pl []byte) {
		if op != ref.Ping {
			return
		}
		pong.Payload = pl
		switch p.Auto {
		case 1: // the answer is processed while the write is still going on
			mc.Feed(pong.Encode(nil))
			time.Sleep(3 * time.Millisecond)
		case 2:
			mc.Feed(pong.Encode(nil))
		}
	})
	conn := open(c, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	type got struct {
		op   uint8
		data []byte
	}
	msgs := make(chan got, 1000)
	var rerr error
	reader := c.Go("reader", func() {
		for {
			var g got
			var err error
			if p.Stream {
				r, o, e := conn.NextReader()
				g.op, err = o, e
				if err == nil {
					g.data, err = streamRead(r, []int{1, 3, 100}, 1<<20)
					if err.Error() == "EOF" {
						err = nil
					}
				}
			} else {
				g.op, g.data, err = conn.ReadMessage()
			}
			if err != nil {
				rerr = err
				return
			}
			msgs <- g
		}
	})
	wait := func() {
		time.Sleep(time.Duration(p.Slow*12+20) * time.Millisecond)
		synctest.Wait()
	}
	var pongs [][]byte // expected
	pings := 0         // expected server pings
	outstanding := false
	var want []got
	var fragOpen bool
	var frag []byte
	nsent := 0
	doPing := func(what string) bool {
		var err error
		if !c.Must("hang", what, 4*time.Second+time.Duration(p.Slow)*time.Second, func() { err = conn.Ping() }) {
			return false
		}
		switch {
		case outstanding && err != snapws.ErrPingAlreadySent:
			c.Violate("ping-result", "%s while a ping is outstanding returned %v", what, err)
			return false
		case !outstanding && err != nil:
			c.Violate("ping-result", "%s failed with %v though no ping is outstanding (%d pings sent so far, all answered)", what, err, pings)
			return false
		}
		if !outstanding {
			pings++
			outstanding = p.Auto == 0
			c.ClassIf(p.Auto != 0, "answered-at-once")
		}
		return true
	}
	// a frame that is still arriving must not stop what the application sends
	feed := func(b []byte, o c07Op) {
		if o.Cut && len(b) > 1 {
			k := 1 + len(b)/2
			if o.At > 0 {
				k = min(o.At, len(b)-1)
			}
			mc.Feed(b[:k])
			time.Sleep(time.Millisecond)
			synctest.Wait()
			if o.Mid && p.Auto == 0 {
				if !doPing("Ping while a frame is arriving") {
					return
				}
				var err error
				if !c.Must("hang", "SendBytes", time.Minute, func() { err = conn.SendBytes(bg, []byte("mid")) }) {
					return
				}
				if err != nil {
					c.Violate("send", "a send while a frame is arriving failed: %v", err)
				}
				nsent++
				c.Class("use-during-arrival")
			}
			time.Sleep(time.Duration(o.Pause) * time.Millisecond)
			b = b[k:]
		}
		mc.Feed(b)
	}
	check := func() bool {
		s := validWire(c, mc)
		if c.Failed() {
			return false
		}
		if s.CloseAt >= 0 || mc.LibClosed() {
			c.Violate("closed", "the connection was closed (code %d %q, read error %v) by valid control frames", s.CloseCode, s.CloseReason, rerr)
			return false
		}
		np, ng := 0, 0
		for _, f := range s.Frames {
			switch f.Op {
			case ref.Pong:
				if np >= len(pongs) || !bytes.Equal(f.Payload, pongs[np]) {
					c.Violate("wrong-pong", "pong %d has payload %s", np, trunc(f.Payload, 130))
					return false
				}
				np++
			case ref.Ping:
				ng++
			}
		}
		if np != len(pongs) {
			c.Violate("missing-pong", "%d client pings, %d pongs", len(pongs), np)
			return false
		}
		if ng != pings {
			c.Violate("ping-count", "%d successful pings, %d ping frames on the wire", pings, ng)
			return false
		}
		if len(s.Msgs) != nsent || s.Open != nil {
			c.Violate("data", "%d messages sent, %d arrived", nsent, len(s.Msgs))
			return false
		}
		for len(msgs) > 0 {
			g := <-msgs
			if len(want) == 0 || g.op != want[0].op || !bytes.Equal(g.data, want[0].data) {
				c.Violate("message", "message with control frames around it was delivered wrongly: type %d, %s", g.op, trunc(g.data, 60))
				return false
			}
			want = want[1:]
		}
		if len(want) > 0 {
			c.Violate("message", "a message with control frames around it was not delivered (read error %v)", rerr)
			return false
		}
		return true
	}
	for i, o := range p.Ops {
		rep := max(1, o.Rep)
		switch o.Kind {
		case k7ClientPing:
			var b []byte
			for k := range rep {
				pl := Pay{o.N, o.Seed + uint32(k)}.Bytes()
				f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(o.Seed + uint32(k)), Payload: pl}
				b = f.Encode(b)
				pongs = append(pongs, pl)
			}
			feed(b, o)
			if o.N > 0 {
				c.NonTrivial()
			}
		case k7Ping:
			if !doPing(fmt.Sprintf("step %d: Ping", i)) {
				return
			}
		case k7Answer:
			if outstanding {
				feed(pong.Encode(nil), o)
				outstanding = false
				c.NonTrivial()
				c.Class("answered-later")
			}
		case k7WrongPong:
			var b []byte
			for k := range rep {
				f := ref.Frame{Fin: true, Op: ref.Pong, Key: key(o.Seed), Payload: Pay{max(1, o.N), o.Seed + uint32(k)}.Bytes()}
				if bytes.Equal(f.Payload, pong.Payload) {
					f.Payload = nil
				}
				b = f.Encode(b)
			}
			feed(b, o)
			c.ClassIf(outstanding, "wrong-pong-while-outstanding")
		case k7Pong:
			if !outstanding {
				o.Mid = false // it would answer a ping sent meanwhile
				feed(pong.Encode(nil), o)
			}
		case k7Frag:
			pl := Pay{o.N, o.Seed}.Bytes()
			f := ref.Frame{Op: ref.Cont, Key: key(o.Seed), Payload: pl, Fin: fragOpen && o.N%2 == 0}
			if !fragOpen {
				f.Op = ref.Binary
				frag = nil
			}
			fragOpen = !f.Fin
			frag = append(frag, pl...)
			feed(f.Encode(nil), o)
			if f.Fin {
				want = append(want, got{ref.Binary, frag})
				frag = nil
			}
		case k7Send:
			var err error
			if !c.Must("hang", "SendBytes", time.Hour, func() { err = conn.SendBytes(bg, Pay{o.N * 3, 1}.Bytes()) }) {
				return
			}
			if err != nil {
				c.Violate("send", "send failed: %v", err)
				return
			}
			nsent++
		case k7StreamPing:
			ok := c.Must("hang", "stream", time.Hour, func() {
				w, err := conn.NextWriter(bg, ref.Binary)
				if err != nil {
					c.Violate("send", "NextWriter failed: %v", err)
					return
				}
				w.Write([]byte("abc"))
				w.Flush()
				pl := Pay{o.N, o.Seed}.Bytes()
				f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(o.Seed), Payload: pl}
				pongs = append(pongs, pl)
				mc.Feed(f.Encode(nil))
				wait()
				doPing(fmt.Sprintf("step %d: Ping inside a message", i))
				wait()
				w.Write([]byte("def"))
				if err := w.Close(); err != nil {
					c.Violate("send", "Close failed: %v", err)
				}
				nsent++
			})
			if !ok || c.Failed() {
				return
			}
			c.Class("ping-inside-server-message")
		case k7Mixed:
			if fragOpen {
				continue
			}
			m := InMsg{Pay: Pay{o.N * 2, o.Seed}, Cuts: []int{o.N, 1}, Key: o.Seed}
			for k := range rep {
				m.Ctls = append(m.Ctls, Ctl{At: k % 4, Op: ref.Ping, N: (o.N + k) % 126, Seed: o.Seed})
			}
			for _, f := range m.frames() {
				if f.Op == ref.Ping {
					pongs = append(pongs, f.Payload)
				}
			}
			feed(encode(m.frames()), o)
			want = append(want, got{ref.Binary, m.data()})
		}
		wait()
		if !check() {
			return
		}
	}
	if p.Half > 0 {
		f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(3), Payload: Pay{30, 3}.Bytes()}
		mc.Feed(f.Encode(nil)[:p.Half])
		wait()
	}
	// the close frame is well formed, too
	code := 1000
	if !c.Must("hang", "close", 10*time.Minute, func() {
		if p.Code == 0 {
			conn.Close()
		} else {
			code = p.Code
			conn.CloseWithCode(uint16(code), "bye")
		}
	}) {
		return
	}
	s := validWire(c, mc)
	if !c.Failed() && (s.CloseAt < 0 || s.CloseCode != code) {
		c.Violate("close-frame", "closing sent close code %d, want %d", s.CloseCode, code)
	}
	if !reader.Wait(time.Hour) {
		c.Violate("hang", "the reader is still blocked after Close")
	}
}
