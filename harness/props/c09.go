package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

type c09Close struct {
	At     int    `json:"at,omitempty"` // ms
	Code   int    `json:"code"`
	Plain  bool   `json:"plain,omitempty"` // Close()
	Reason Pay    `json:"reason"`
	Bin    bool   `json:"bin,omitempty"` // the reason is arbitrary bytes
	Len    int    `json:"len,omitempty"` // client only: 1: empty payload, 2: one byte
	Lit    string `json:"lit,omitempty"`
}

func (k c09Close) reason() []byte {
	if k.Lit != "" {
		return []byte(k.Lit)
	}
	return k.Reason.Of(!k.Bin)
}

func (k c09Close) payload() []byte {
	switch k.Len {
	case 1:
		return nil
	case 2:
		return []byte{byte(k.Code)}
	}
	return append([]byte{byte(k.Code >> 8), byte(k.Code)}, k.reason()...)
}

type c09Plan struct {
	Client   *c09Close  `json:"client,omitempty"`
	Server   []c09Close `json:"server,omitempty"` // each from its own goroutine
	Ping     int        `json:"ping,omitempty"`   // payload of an earlier client ping +1
	Frag     int        `json:"frag,omitempty"`   // client message in progress: that many fragments
	Stream   int        `json:"stream,omitempty"` // server message: 1 buffered, 2 partly flushed
	Before   int        `json:"before,omitempty"` // messages exchanged before
	After    bool       `json:"after,omitempty"`  // the client goes on sending
	Slow     int        `json:"slow,omitempty"`   // ms per write
	Inter    bool       `json:"inter,omitempty"`  // the transport does not serialise writes
	Send     bool       `json:"send,omitempty"`   // a send in progress meanwhile
	WriteBuf int        `json:"writebuf,omitempty"`
	Cut      bool       `json:"cut,omitempty"`  // the client's close frame comes in pieces
	Idle     int        `json:"idle,omitempty"` // ms before the closes
}

var c09codes = []int{1000, 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 3001, 3999, 4000, 4999, 0, 1, 999, 1004, 1005, 1006, 1012, 1013, 1014, 1015, 1016, 2999, 5000, 65535, 256, 512, 2000}

func genClose(t *rapid.T) c09Close {
	k := c09Close{Code: rapid.SampledFrom(c09codes).Draw(t, "code"), Bin: chance(t, "bin", 20)}
	if chance(t, "anycode", 10) {
		k.Code = intn(t, "codeN", 0, 65535)
	}
	k.Reason = Pay{pick(t, "rl", 0, 0, 1, 2, 10, 50, 100, 122, 123, 124, 125, 126, 127, 128, 200, 256, 300, 65535, 65540), genSeed(t)}
	return k
}

func init() {
	core.Register(&core.Prop{
		ID:         "C09",
		RaceShards: 1,
		New:        func() any { return &c09Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c09Plan{
				Ping:     pick(t, "ping", 0, 0, 1, 2, 60, 126),
				Frag:     pick(t, "frag", 0, 0, 1, 2),
				Stream:   pick(t, "stream", 0, 0, 1, 2),
				Before:   pick(t, "before", 0, 0, 1, 3),
				After:    chance(t, "after", 30),
				Slow:     pick(t, "slow", 0, 0, 0, 1, 20),
				Inter:    chance(t, "inter", 30),
				Send:     chance(t, "send", 25),
				Cut:      chance(t, "cut", 20),
				WriteBuf: pick(t, "writebuf", 0, 0, 30),
				Idle:     pick(t, "idle", 0, 0, 0, 4000, 9000, 9000),
			}
			kind := intn(t, "kind", 0, 9)
			if kind < 5 || kind == 9 {
				k := genClose(t)
				k.Reason.N %= 124
				if chance(t, "len", 15) {
					k.Len = intn(t, "lenk", 1, 2)
				}
				p.Client = &k
			}
			if kind >= 5 {
				for range pick(t, "ns", 1, 1, 1, 2, 4) {
					k := genClose(t)
					k.Plain = chance(t, "plain", 25)
					k.At = pick(t, "at", 0, 0, 0, 1, 5)
					p.Server = append(p.Server, k)
				}
			}
			return p
		},
		Enum: func(thorough bool) []any {
			var out []any
			for code := range 65536 {
				if !thorough && code > 5100 && code%977 != 0 {
					continue
				}
				k := c09Close{Code: code, Reason: Pay{N: code % 5}}
				out = append(out, &c09Plan{Client: &k, Frag: code % 2})
				out = append(out, &c09Plan{Server: []c09Close{{Code: code, Reason: Pay{N: code % 5}}}})
			}
			for n := range 130 {
				for bin := range 2 {
					k := c09Close{Code: 1000, Reason: Pay{N: n % 124, Seed: uint32(n)}, Bin: bin == 1}
					out = append(out, &c09Plan{Client: &k, Ping: 126 - n%126})
					out = append(out, &c09Plan{Server: []c09Close{{Code: 1008, Reason: Pay{N: n, Seed: uint32(n)}, Bin: bin == 1}}, Ping: n % 126})
				}
			}
			for _, s := range u8pieces {
				k := c09Close{Code: 1000, Lit: "x" + s}
				out = append(out, &c09Plan{Client: &k})
				k.Lit = s + "y"
				out = append(out, &c09Plan{Client: &k, Frag: 1})
				out = append(out, &c09Plan{Server: []c09Close{{Code: 1000, Lit: "x" + s}}})
			}
			return out
		},
		Run:      c09Run,
		Quick:    80000,
		Thorough: 900000,
		Rule:     "closes by the client (any code, reason or malformed payload, whole or in pieces), by the application (any code and reason, from several goroutines) or both at once, after earlier traffic, inside fragmented messages of either side, on slow transports; plus every close code 0-5100 (thorough: 0-65535) and every reason length in both directions; non-trivial: every case (each closes a connection)",
	})
}

func c09Run(c *core.Case, plan any) {
	p := plan.(*c09Plan)
	if p.Client == nil && len(p.Server) == 0 {
		p.Server = []c09Close{{Plain: true}}
	}
	u := snapws.NewUpgrader(&snapws.Options{WriteBufferSize: p.WriteBuf})
	mc := mem.New("c")
	mc.Interleave = p.Inter
	mc.Latency = time.Duration(p.Slow) * time.Millisecond
	conn := open(c, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	c.NonTrivial()
	var rerr error
	reader := c.Go("reader", func() {
		for {
			if _, _, err := conn.ReadMessage(); err != nil {
				rerr = err
				return
			}
		}
	})
	for i := range p.Before {
		f := ref.Frame{Fin: true, Op: ref.Text, Key: key(uint32(i)), Payload: []byte("hi")}
		mc.Feed(f.Encode(nil))
		if err := conn.SendString(bg, []byte("ho")); err != nil {
			c.Violate("send", "send failed before the close: %v", err)
			return
		}
	}
	if p.Ping > 0 {
		f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(7), Payload: Pay{p.Ping - 1, 5}.Bytes()}
		mc.Feed(f.Encode(nil))
	}
	for i := range p.Frag {
		f := ref.Frame{Op: ref.Cont, Key: key(9), Payload: []byte("part")}
		if i == 0 {
			f.Op = ref.Text
		}
		mc.Feed(f.Encode(nil))
	}
	time.Sleep(100 * time.Millisecond)
	synctest.Wait()
	sent := p.Before
	if p.Stream > 0 {
		w, err := conn.NextWriter(bg, ref.Binary)
		if err != nil {
			c.Violate("send", "NextWriter failed before the close: %v", err)
			return
		}
		w.Write([]byte("half a message"))
		if p.Stream == 2 {
			w.Flush()
		}
		c.Cleanup(func() { w.Close() })
	}
	var sendErr error
	var sender *core.Op
	if p.Send && p.Stream == 0 {
		sender = c.Go("send", func() { sendErr = conn.SendBytes(bg, bytes.Repeat([]byte("s"), 100)) })
	}
	if p.Idle > 0 { // longer than WriteWait
		time.Sleep(time.Duration(p.Idle) * time.Millisecond)
		c.ClassIf(p.Idle > 5000, "idle")
	}
	var closers []*core.Op
	for i, k := range p.Server {
		closers = append(closers, c.Go(fmt.Sprint("close ", i), func() {
			time.Sleep(time.Duration(k.At) * time.Millisecond)
			if k.Plain {
				conn.Close()
			} else {
				conn.CloseWithCode(uint16(k.Code), string(k.reason()))
			}
		}))
	}
	if p.Client != nil {
		f := ref.Frame{Fin: true, Op: ref.Close, Key: key(3), Payload: p.Client.payload()}
		b := f.Encode(nil)
		if p.Cut {
			mc.Feed(b[:3])
			time.Sleep(2 * time.Millisecond)
			b = b[3:]
		}
		mc.Feed(b)
	}
	if p.After {
		f := ref.Frame{Fin: true, Op: ref.Text, Key: key(1), Payload: []byte("after")}
		if p.Frag > 0 {
			f.Op = ref.Cont // a new message would break the protocol
		}
		g := ref.Frame{Fin: true, Op: ref.Ping, Key: key(1), Payload: []byte("after")}
		mc.Feed(g.Encode(f.Encode(nil)))
	}
	for _, o := range append(closers, reader) {
		if !o.Wait(time.Minute) {
			c.Violate("hang", "%s did not return after the close:\n%s", o.Name, firstStack())
			return
		}
	}
	if sender != nil && !sender.Wait(time.Minute) {
		c.Violate("hang", "a send did not return after the close")
		return
	}
	time.Sleep(10 * time.Second)
	if p.Client != nil && len(p.Server) == 0 && !isFatal(rerr) {
		c.Violate("not-fatal", "the read that received the close frame returned the non-fatal error %v", rerr)
	}
	// a second close changes nothing
	before := mc.OutLen()
	c.Must("hang", "second close", time.Minute, func() { conn.CloseWithCode(3333, "again"); conn.Close() })
	if mc.OutLen() != before {
		c.Violate("second-close", "closing again wrote %d bytes", mc.OutLen()-before)
	}
	if !mc.LibClosed() {
		c.Violate("not-closed", "the transport was not closed")
		return
	}
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	if s.CloseAt < 0 || s.Rest > 0 {
		c.Violate("no-close-frame", "no (complete) close frame was sent; frames %s, %d bytes of an incomplete one", frameList(s), s.Rest)
		return
	}
	if sender != nil && sendErr == nil {
		sent++
	}
	if len(s.Msgs) != sent {
		c.Violate("messages", "%d messages were sent, the peer got %d", sent, len(s.Msgs))
		return
	}
	// which closes can have been the first?
	why := []string{}
	ok := false
	try := func(good bool, w string) {
		if good {
			ok = true
		}
		why = append(why, w)
	}
	code, reason := s.CloseCode, s.CloseReason
	for _, k := range p.Server {
		if k.Plain {
			try(code == 1000, "Close()")
			continue
		}
		r := string(k.reason())
		goodReason := reason == r
		if len(r) > 123 || !ref.ValidUTF8([]byte(r)) {
			goodReason = strings.HasPrefix(r, reason)
			c.Class("bad-reason")
		}
		switch {
		case ref.LegalReceived(k.Code):
			try(code == k.Code && goodReason, fmt.Sprintf("CloseWithCode(%d, %s)", k.Code, trunc([]byte(r), 130)))
			c.Class("server-legal")
		default:
			try(ref.LegalSent(code) && (goodReason || reason == ""), fmt.Sprintf("CloseWithCode(%d, %s)", k.Code, trunc([]byte(r), 130)))
			c.Class("server-illegal-code")
		}
	}
	if k := p.Client; k != nil {
		pl := k.payload()
		switch {
		case len(pl) == 0:
			try(code == 1000, "client close without code")
		case len(pl) == 1:
			try(code == 1002, "client close with one byte")
		case !ref.LegalReceived(k.Code):
			g := code == 1002 || !ref.ValidUTF8(pl[2:]) && code == 1007
			if k.Code >= 1012 && k.Code <= 1014 {
				g = g || code == k.Code
			}
			try(g, fmt.Sprintf("client close with illegal code %d", k.Code))
			c.Class("client-illegal-code")
		case !ref.ValidUTF8(pl[2:]):
			try(code == 1002 || code == 1007, "client close with invalid UTF-8")
			c.Class("client-bad-reason")
		default:
			try(code == k.Code, fmt.Sprintf("client close with code %d", k.Code))
			c.Class("client-legal")
		}
		c.ClassIf(len(p.Server) > 0, "simultaneous")
	}
	c.ClassIf(len(p.Server) > 1, "several-closers")
	if !ok {
		c.Violate("close-frame", "close frame has code %d reason %s; caused by %s", code, trunc([]byte(reason), 140), strings.Join(why, " or "))
	}
}
