package props

import (
	"io"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

type c08Plan struct {
	Every    int   `json:"every,omitempty"` // ms
	Wait     int   `json:"wait,omitempty"`
	Lat      []int `json:"lat,omitempty"`  // permil of the longest latency an answering peer may have
	Long     bool  `json:"long,omitempty"` // latencies up to ReadWait-PingEvery, even above PingEvery
	InWrite  bool  `json:"inwrite,omitempty"`
	Answers  int   `json:"answers"`         // pings answered before the peer falls silent
	Gaps     []int `json:"gaps,omitempty"`  // permil of Every between client messages
	Slow     int   `json:"slow,omitempty"`  // fragments of a client message, one per gap
	ClientPg bool  `json:"cping,omitempty"` // client pings now and then
	AppPing  []int `json:"appping,omitempty"`
	AppSend  bool  `json:"appsend,omitempty"`
	Stream   bool  `json:"stream,omitempty"`
	WriteLat int   `json:"writelat,omitempty"`
	Noise    []int `json:"noise,omitempty"` // per mille of ReadWait after the last answer or message: a ping (even) or a pong nobody asked for (odd)
}

func init() {
	core.Register(&core.Prop{
		ID:  "C08",
		New: func() any { return &c08Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c08Plan{}
			ew := rapid.SampledFrom([][2]int{{0, 0}, {10000, 25000}, {1000, 1500}, {30000, 31000}, {20000, 200000}, {500, 1001}, {100, 150}, {7000, 0}, {0, 120000}}).Draw(t, "ew")
			p.Every, p.Wait = ew[0], ew[1]
			p.Lat = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 100, 500, 900, 990, 999}), 1, 4).Draw(t, "lat")
			p.Long = chance(t, "long", 40)
			p.InWrite = chance(t, "inwrite", 20)
			p.Answers = pick(t, "answers", 0, 0, 1, 2, 3, 5, 10, 40)
			if chance(t, "msgs", 40) {
				p.Gaps = rapid.SliceOfN(rapid.SampledFrom([]int{10, 300, 700, 1000, 1100, 1700, 2500}), 1, 4).Draw(t, "gaps")
				p.Slow = pick(t, "slow", 0, 0, 3, 8)
				p.ClientPg = chance(t, "cping", 30)
			}
			if chance(t, "appping", 25) {
				p.AppPing = rapid.SliceOfN(rapid.SampledFrom([]int{10, 500, 999, 1000, 1001, 1500, 2300}), 1, 3).Draw(t, "ap")
			}
			p.AppSend = chance(t, "appsend", 20)
			p.Stream = chance(t, "stream", 40)
			p.WriteLat = pick(t, "wl", 0, 0, 0, 1, 20)
			if chance(t, "noisy", 30) {
				p.Noise = rapid.SliceOfN(rapid.SampledFrom([]int{20, 101, 300, 501, 600, 851, 900, 951}), 1, 4).Draw(t, "noise")
			}
			return p
		},
		Run:      c08Run,
		Quick:    120000,
		Thorough: 800000,
		Rule:     "keepalive settings (including the defaults), a peer that answers 0-40 pings with generated latencies up to just below what ReadWait allows (also beyond PingEvery), optionally sends whole or slowly fragmented messages and pings, then falls silent (or sends only pings and pongs nobody asked for); the application reads (whole or streaming), optionally pings and sends; non-trivial: at least one ping answered before the silence",
	})
}

func c08Run(c *core.Case, plan any) {
	p := plan.(*c08Plan)
	ms := time.Millisecond
	opts := &snapws.Options{PingEvery: time.Duration(p.Every) * ms, ReadWait: time.Duration(p.Wait) * ms}
	disc := 0
	var mu sync.Mutex
	opts.OnDisconnect = func(*snapws.Conn) { mu.Lock(); disc++; mu.Unlock() }
	every, wait := opts.PingEvery, opts.ReadWait
	if every == 0 {
		every = 50 * time.Second
	}
	if wait == 0 {
		wait = time.Minute
	}
	wl := time.Duration(p.WriteLat) * ms
	if p.ClientPg {
		wl = 0 // answering must not take longer than the time between the client's pings
	}
	u := snapws.NewUpgrader(opts)
	mc := mem.New("c")
	mc.Latency = wl
	if p.InWrite {
		wl += ms
	}
	room := min(every, wait-every) - 3*wl - ms // longest latency of an answer
	if p.Long {
		// the next ping is not sent before the answer, but at the first tick after it
		room = wait - every - 3*wl - ms
	}
	if p.AppPing != nil || p.AppSend {
		// other writes may be in the way of a ping
		room -= 3 * wl
	}
	last := time.Now()
	silent := p.Answers == 0
	answered := 0
	var pings []time.Time
	onFrame(mc, func(op int, pl []byte) {
		if op != ref.Ping {
			return
		}
		mu.Lock()
		pings = append(pings, time.Now())
		n := len(pings)
		sil := silent
		mu.Unlock()
		if sil {
			return
		}
		answer := func() {
			mu.Lock()
			defer mu.Unlock()
			if silent {
				return
			}
			f := ref.Frame{Fin: true, Op: ref.Pong, Key: key(uint32(n)), Payload: pl}
			mc.Feed(f.Encode(nil))
			last = time.Now()
			answered++
			if answered >= p.Answers {
				silent = true
			}
		}
		lat := time.Duration(0)
		if len(p.Lat) > 0 && room > 0 {
			lat = room * time.Duration(p.Lat[n%len(p.Lat)]) / 1000
		}
		if p.InWrite && lat == 0 {
			answer()
			time.Sleep(ms)
			return
		}
		time.AfterFunc(lat, answer)
	})
	conn := open(c, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	mu.Lock()
	last = time.Now()
	mu.Unlock()
	opened := time.Now()
	var rerr error
	reader := c.Go("reader", func() {
		for {
			var err error
			if p.Stream {
				var r io.Reader
				r, _, err = conn.NextReader()
				if err == nil {
					if _, err = streamRead(r, []int{4}, 1<<20); err == io.EOF {
						err = nil
					}
				}
			} else {
				_, _, err = conn.ReadMessage()
			}
			if err != nil {
				rerr = err
				return
			}
		}
	})
	if len(p.Gaps) > 0 {
		c.Go("client", func() {
			k := 0
			for i := 0; ; i++ {
				time.Sleep(every * time.Duration(p.Gaps[i%len(p.Gaps)]) / 1000)
				mu.Lock()
				if silent || reader.Done() {
					mu.Unlock()
					return
				}
				var f ref.Frame
				if p.Slow > 0 {
					f = ref.Frame{Op: ref.Cont, Key: key(uint32(i)), Payload: []byte("frag")}
					if k == 0 {
						f.Op = ref.Binary
					}
					k++
					if k == p.Slow {
						f.Fin, k = true, 0
					}
				} else {
					f = ref.Frame{Fin: true, Op: ref.Binary, Key: key(uint32(i)), Payload: []byte("hello")}
				}
				var b []byte
				if p.ClientPg {
					g := ref.Frame{Fin: true, Op: ref.Ping, Payload: []byte("cp")}
					b = g.Encode(b)
				}
				b = f.Encode(b)
				if f.Fin {
					last = time.Now()
				}
				mc.Feed(b)
				mu.Unlock()
			}
		})
	}
	stop := func() bool { mu.Lock(); defer mu.Unlock(); return silent }
	if len(p.AppPing) > 0 {
		c.Go("app pings", func() {
			for i := 0; !stop() && !reader.Done(); i++ {
				time.Sleep(every * time.Duration(p.AppPing[i%len(p.AppPing)]) / 1000)
				if stop() {
					return
				}
				if err := conn.Ping(); err != nil && err != snapws.ErrPingAlreadySent && !stop() && !reader.Done() {
					c.Violate("ping-failed", "Ping to a responsive peer failed: %v", err)
				}
			}
		})
	}
	if p.AppSend {
		c.Go("app sends", func() {
			for !stop() && !reader.Done() {
				time.Sleep(every * 3 / 7)
				if err := conn.SendBytes(bg, []byte("data")); err != nil && !stop() && !reader.Done() {
					c.Violate("send-failed", "send to a responsive peer failed: %v", err)
				}
			}
		})
	}
	// while the peer is responsive
	lim := time.Now().Add(every*time.Duration(4*p.Answers+10) + 2*wait)
	if p.Long && room > 0 {
		lim = lim.Add(room * time.Duration(p.Answers))
	}
	for {
		mu.Lock()
		sil := silent
		la, an := last, answered
		mu.Unlock()
		if sil {
			break
		}
		if reader.Wait(every / 8) {
			mu.Lock()
			sil = silent
			mu.Unlock()
			if !sil {
				s := wire(mc)
				c.Violate("dropped", "a peer that answered every ping (%d so far) was disconnected at %v, %v after its last answer or message (PingEvery %v, ReadWait %v); read error %v, close %d %q",
					an, time.Since(opened), time.Since(la), every, wait, rerr, s.CloseCode, s.CloseReason)
				return
			}
			break
		}
		if time.Now().After(lim) {
			mu.Lock()
			n := len(pings)
			mu.Unlock()
			c.Violate("not-pinged", "after %v only %d pings were sent (PingEvery %v)", time.Since(opened), n, every)
			return
		}
	}
	// silent: out by last+ReadWait
	mu.Lock()
	la := last
	mu.Unlock()
	slack := 4*wl + 10*ms
	// neither of these is an answer or a message
	for i, pm := range p.Noise {
		at := la.Add(wait * time.Duration(pm) / 1000)
		if at.Before(time.Now()) {
			continue
		}
		f := ref.Frame{Fin: true, Op: ref.Ping, Key: key(uint32(i)), Payload: []byte("noise")}
		if pm%2 == 1 {
			f.Op = ref.Pong
		}
		time.AfterFunc(time.Until(at), func() { mc.Feed(f.Encode(nil)) })
		c.Class("noise")
	}
	reader.Wait(time.Until(la.Add(wait)) + slack)
	if !reader.Done() {
		c.Violate("not-dropped", "a silent peer is still connected %v after its last answer or message (PingEvery %v, ReadWait %v, %d pings answered)", time.Since(la), every, wait, answered)
		return
	}
	if !isFatal(rerr) {
		c.Violate("not-fatal", "the read blocked on a silent peer failed with %v, which is not fatal", rerr)
	}
	at, ok := mc.ClosedAt()
	if !ok || !mc.LibClosed() {
		c.Violate("not-closed", "the transport of a silent peer was not closed")
	} else if at.After(la.Add(wait + slack)) {
		c.Violate("not-dropped", "the transport of a silent peer was closed %v after its last answer or message, ReadWait is %v", at.Sub(la), wait)
	}
	mu.Lock()
	if disc != 1 {
		c.Violate("disconnect-hook", "OnDisconnect ran %d times", disc)
	}
	if len(p.Gaps) == 0 && len(p.AppPing) == 0 && !p.AppSend {
		prev := opened
		extra := time.Duration(0)
		for i, t := range pings {
			if i > 0 && p.Long && room > 0 {
				extra = room * time.Duration(p.Lat[i%len(p.Lat)]) / 1000 // of the previous ping's answer
			}
			if d := t.Sub(prev); d > every+extra+4*wl+ms || d < every-4*wl-ms {
				c.Violate("ping-interval", "ping %d came %v after the previous one, PingEvery is %v", i, d, every)
				break
			}
			prev = t
		}
	}
	c.ClassIf(answered > 0, "answered-then-silent")
	c.ClassIf(answered == 0, "never-answered")
	c.ClassIf(answered >= 10, "long-idle")
	c.ClassIf(p.Long && answered > 0, "late-answers")
	if answered > 0 {
		c.NonTrivial()
	}
	mu.Unlock()
	validWire(c, mc)
}
