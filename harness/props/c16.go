package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	rlNone = iota
	rlNil
	rlErr
	rlCloseErr
	rlSend
	rlHooks
)

// rlEv is one arrival on a connection.
type rlEv struct {
	WaitMs int   `json:"w,omitempty"`
	Us     int   `json:"us,omitempty"` // additional microseconds
	N      int   `json:"n,omitempty"`  // messages sent at once (0: only the control frame)
	Ctl    bool  `json:"ctl,omitempty"`
	Len    int   `json:"len,omitempty"`
	Text   bool  `json:"text,omitempty"`
	Frags  []int `json:"frags,omitempty"` // pause (ms) before each further fragment
	FCtl   bool  `json:"fctl,omitempty"`  // a control frame in every pause
}

type rlConn struct {
	OpenMs int    `json:"open,omitempty"`
	InHook int    `json:"in_hook,omitempty"` // OnConnect starts the reader and takes that many ms more
	Read   []int  `json:"read,omitempty"`    // per message: 0 ReadMessage, 1 ReadBinary, 2 ReadString, 3 partial streaming read, 4 ReadJSON
	Evs    []rlEv `json:"evs"`
}

type c16Plan struct {
	Rate  int      `json:"rate"`
	Burst int      `json:"burst"`
	Hook  int      `json:"hook,omitempty"`
	Conns []rlConn `json:"conns"`
	Late  []int    `json:"late,omitempty"` // connections opened through a second upgrader sharing the limiter
}

func init() {
	core.Register(&core.Prop{
		ID:  "C16",
		New: func() any { return &c16Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c16Plan{Rate: pick(t, "rate", 0, 1, 1, 2, 3, 5, 10, 50, 1000, intn(t, "rateN", 1, 100)), Burst: pick(t, "burst", 0, 1, 1, 2, 3, 5, 20), Hook: intn(t, "hook", 0, rlHooks-1)}
			period := 100
			if p.Rate > 0 {
				period = max(1, 1000/p.Rate)
			}
			for i := range pick(t, "nconns", 1, 1, 2, 3) {
				k := rlConn{OpenMs: pick(t, "open", 0, 0, 10, 777)}
				if chance(t, "inhook", 15) {
					k.InHook = pick(t, "hookms", 1, 20, 300, 3000)
				}
				for range intn(t, "nread", 1, 3) {
					k.Read = append(k.Read, pick(t, "read", 0, 0, 0, 1, 2, 3, 4))
				}
				for range intn(t, "nevs", 1, 12) {
					e := rlEv{WaitMs: pick(t, "w", 0, 0, period/2, period-1, period, period+1, 2*period, 3*period+1, period/3, intn(t, "wn", 0, 3000)), Us: pick(t, "us", 0, 0, 0, 1, 333, 999), N: pick(t, "n", 0, 1, 1, 1, 2, 3, 7, 25)}
					e.Ctl = chance(t, "ctl", 25)
					e.Len = pick(t, "len", 0, 1, 5, 125, 126, 1000, 5000, 70000)
					e.Text = chance(t, "text", 40)
					if chance(t, "frag", 30) {
						for range intn(t, "nfrag", 1, 3) {
							e.Frags = append(e.Frags, pick(t, "pause", 0, 0, 1, period/2, period, 5*period))
						}
						e.FCtl = chance(t, "fctl", 40)
					}
					k.Evs = append(k.Evs, e)
				}
				p.Conns = append(p.Conns, k)
				if chance(t, "late", 20) {
					p.Late = append(p.Late, i)
				}
			}
			return p
		},
		Run:      c16Run,
		Quick:    40000,
		Thorough: 500000,
		Rule:     "1-3 connections sharing a limiter of generated rate (0..1000/s) and burst (0..20), each with a timeline of messages arriving around token boundaries, bursts, fragmented messages with pauses, control frames, read through five read calls, with five kinds of OnRateLimitHit; an exact integer token bucket per connection decides every delivery; non-trivial: at least one message was over the limit and at least one within it",
	})
}

type rlGot struct {
	op    int
	data  []byte
	err   error
	hooks int
}

func c16Run(c *core.Case, plan any) {
	p := plan.(*c16Plan)
	mkOpts := func() *snapws.Options {
		return &snapws.Options{ReadWait: 3000 * time.Hour, PingEvery: 2900 * time.Hour, MaxMessageSize: -1}
	}
	u := snapws.NewUpgrader(mkOpts())
	u2 := snapws.NewUpgrader(mkOpts())
	lim := snapws.NewRateLimiter(p.Rate, p.Burst)
	u.Limiter, u2.Limiter = lim, lim
	var mu sync.Mutex
	hooks := map[*snapws.Conn]int{}
	errHook := errors.New("hook says no")
	if p.Hook != rlNone {
		lim.OnRateLimitHit = func(k *snapws.Conn) error {
			mu.Lock()
			hooks[k]++
			mu.Unlock()
			switch p.Hook {
			case rlErr:
				return errHook
			case rlCloseErr:
				k.CloseWithCode(1008, "too fast")
				return errHook
			case rlSend:
				if err := k.SendString(bg, []byte("slow down")); err != nil {
					c.Violate("hook-send", "sending in the hook failed: %v", err)
				}
			}
			return nil
		}
	}
	var done []*core.Op
	for i, k := range p.Conns {
		up := u
		for _, l := range p.Late {
			if l == i {
				up = u2
			}
		}
		done = append(done, c.Go(fmt.Sprint("connection ", i), func() { c16Conn(c, p, i, k, up, &mu, hooks, errHook) }))
	}
	for _, o := range done {
		if !o.Wait(forever) {
			c.Violate("hang", "%s hangs:\n%s", o.Name, firstStack())
			return
		}
	}
}

func c16Conn(c *core.Case, p *c16Plan, i int, k rlConn, u *snapws.Upgrader, mu *sync.Mutex, hooks map[*snapws.Conn]int, errHook error) {
	time.Sleep(time.Duration(k.OpenMs) * time.Millisecond)
	mc := mem.New(fmt.Sprint("c", i))
	var conn *snapws.Conn
	nhooks := func() int { mu.Lock(); defer mu.Unlock(); return hooks[conn] }
	mode := func(j int) int {
		if len(k.Read) == 0 {
			return 0
		}
		return k.Read[j%len(k.Read)]
	}
	var got []rlGot
	read := func() {
		for j := 0; ; j++ {
			var g rlGot
			switch mode(j) {
			case 1:
				g.data, g.err = conn.ReadBinary()
				g.op = ref.Binary
			case 2:
				g.data, g.err = conn.ReadString()
				g.op = ref.Text
			case 3:
				r, op, err := conn.NextReader()
				g.op, g.err = int(op), err
				if err == nil {
					g.data = make([]byte, 3)
					n, err := io.ReadFull(r, g.data)
					g.data = g.data[:n]
					if err != io.EOF && err != io.ErrUnexpectedEOF {
						g.err = err
					}
				}
			case 4:
				var v string
				g.err = conn.ReadJSON(&v)
				g.op, g.data = ref.Text, []byte(v)
			default:
				var op uint8
				op, g.data, g.err = conn.ReadMessage()
				g.op = int(op)
			}
			g.hooks = nhooks()
			got = append(got, g)
			if isFatal(g.err) {
				return
			}
		}
	}
	var reader *core.Op
	if k.InHook > 0 {
		hu := snapws.NewUpgrader(&snapws.Options{ReadWait: 3000 * time.Hour, PingEvery: 2900 * time.Hour, MaxMessageSize: -1})
		hu.Limiter = u.Limiter
		started := make(chan bool)
		hu.OnConnect = func(x *snapws.Conn) {
			conn = x
			reader = c.Go(fmt.Sprint("reader of ", mc.Name), read)
			close(started)
			time.Sleep(time.Duration(k.InHook) * time.Millisecond)
		}
		up := c.Go("Upgrade", func() {
			x, err := hu.Upgrade(newRW(mc, OpenOpts{}), goodReq())
			if err == nil {
				tidy(c, x, mc)
			}
		})
		select {
		case <-started:
		case <-time.After(time.Hour):
			c.Violate("hang", "OnConnect does not run (Upgrade returned: %v)", up.Done())
			return
		}
		c.Class("reader-in-hook")
	} else {
		if conn = open(c, u, mc, OpenOpts{}); conn == nil {
			return
		}
		reader = c.Go(fmt.Sprint("reader of ", mc.Name), read)
	}
	// the client
	type arr struct {
		at   time.Duration
		op   int
		data []byte
	}
	var arrs []arr
	start := time.Now()
	for j, e := range k.Evs {
		time.Sleep(time.Duration(e.WaitMs)*time.Millisecond + time.Duration(e.Us)*time.Microsecond)
		if e.Ctl {
			f := ref.Frame{Fin: true, Op: []int{ref.Ping, ref.Pong}[j%2], Key: key(uint32(j)), Payload: []byte("ctl")}
			mc.Feed(f.Encode(nil))
		}
		for n := range e.N {
			op := ref.Binary
			d := Pay{e.Len, uint32(j*100 + n)}.Bytes()
			if e.Text {
				op = ref.Text
				if mode(len(arrs)) == 4 {
					d = []byte(fmt.Sprintf("%q", fmt.Sprintf("%0*d", e.Len, n)))
				} else {
					d = Pay{e.Len, uint32(j*100 + n)}.Text()
				}
			}
			arrs = append(arrs, arr{time.Since(start), op, d})
			cuts := cutBytes(d, nil)
			if len(e.Frags) > 0 {
				var at []int
				for x := range e.Frags {
					at = append(at, len(d)*(x+1)/(len(e.Frags)+1))
				}
				cuts = cutBytes(d, at)
			}
			for x, part := range cuts {
				if x > 0 {
					if ms := e.Frags[x-1]; ms > 0 {
						time.Sleep(time.Duration(ms) * time.Millisecond)
					}
					if e.FCtl {
						f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(uint32(j)), Payload: []byte("mid")}
						mc.Feed(f.Encode(nil))
					}
				}
				o := op
				if x > 0 {
					o = ref.Cont
				}
				f := ref.Frame{Fin: x == len(cuts)-1, Op: o, Key: key(uint32(j + x)), Payload: part}
				mc.Feed(f.Encode(nil))
			}
		}
		if mc.LibClosed() {
			break
		}
	}
	time.Sleep(time.Millisecond)
	mc.FeedEOF()
	if !reader.Wait(time.Hour) {
		c.Violate("hang", "the reader of %s hangs:\n%s", mc.Name, firstStack())
		return
	}
	// the model: an exact bucket
	const unit = int64(time.Second)
	full := int64(p.Burst) * unit
	tok := full
	var last time.Duration
	drops, allowed := 0, 0
	for j, a := range arrs {
		if j >= len(got) {
			c.Violate("missing", "%s: %d messages arrived, only %d reads returned", mc.Name, len(arrs), len(got))
			return
		}
		tok = min(full, tok+int64(a.at-last)*int64(p.Rate))
		last = a.at
		g := got[j]
		limited := g.err != nil && !errors.Is(g.err, snapws.ErrMessageTypeMismatch)
		want := tok < unit
		if d := tok - unit; d > -int64(p.Rate)*20-2000 && d < int64(p.Rate)*20+2000 && p.Rate > 0 && p.Burst > 0 && tok != full {
			want = limited // too close to tell: rounding to nanoseconds
			c.Class("boundary")
		}
		if limited != want {
			what := "delivered although the bucket is empty"
			if !want {
				what = fmt.Sprintf("not delivered (%v) although a token is available", g.err)
			}
			c.Violate("bucket", "%s: message %d, arriving at %v, was %s (%.6f tokens; rate %d, burst %d)", mc.Name, j, a.at, what, float64(tok)/float64(unit), p.Rate, p.Burst)
			return
		}
		wantHooks := drops
		if limited {
			drops++
			wantHooks++
			if p.Hook == rlErr || p.Hook == rlCloseErr {
				// the hook decided to end the connection
				if !isFatal(g.err) || !mc.LibClosed() {
					c.Violate("hook-error", "%s: the hook returned an error, the read returned %v (fatal %v), transport closed: %v", mc.Name, g.err, isFatal(g.err), mc.LibClosed())
				}
			} else if isFatal(g.err) {
				c.Violate("fatal", "%s: message %d over the limit made the read fail fatally: %v", mc.Name, j, g.err)
				return
			}
		} else {
			allowed++
			tok = max(0, tok-unit)
			mism := false
			switch mode(j) {
			case 1:
				mism = a.op != ref.Binary
			case 2, 4:
				mism = a.op != ref.Text
			}
			if mism {
				if g.err == nil {
					c.Violate("corrupt", "%s: message %d of the wrong type was returned", mc.Name, j)
				}
			} else {
				wantD := a.data
				if mode(j) == 3 {
					wantD = a.data[:min(3, len(a.data))]
				}
				if mode(j) == 4 {
					wantD = bytes.Trim(a.data, "\"")
				}
				if g.err != nil || g.op != a.op || !bytes.Equal(g.data, wantD) {
					c.Violate("corrupt", "%s: message %d came out wrong (%v, op %d): %s", mc.Name, j, g.err, g.op, diff(g.data, wantD))
					return
				}
			}
		}
		if p.Hook != rlNone && g.hooks != wantHooks {
			c.Violate("hook-count", "%s: after message %d OnRateLimitHit has run %d times for this connection, want %d", mc.Name, j, g.hooks, wantHooks)
			return
		}
		if isFatal(g.err) {
			break
		}
	}
	if len(got) > len(arrs)+1 {
		c.Violate("extra", "%s: %d reads returned for %d messages", mc.Name, len(got), len(arrs))
	}
	s := validWire(c, mc)
	if p.Hook == rlSend && len(s.Msgs) != drops {
		c.Violate("hook-send", "%s: %d messages sent by the hook arrived, want %d", mc.Name, len(s.Msgs), drops)
	}
	if drops > 0 && allowed > 0 {
		c.NonTrivial()
	}
	c.ClassIf(drops > 0, "dropped")
	c.ClassIf(drops > 0, fmt.Sprint("hook-", p.Hook))
	for _, e := range k.Evs {
		c.ClassIf(len(e.Frags) > 0 && drops > 0, "fragmented")
	}
}
