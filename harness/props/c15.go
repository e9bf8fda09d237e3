package props

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	mwOK = iota
	mwPlain
	mwCoded
	mwHeaders // adds a response header and passes
	mwKinds
)

// MW is one middleware of the chain.
type MW struct {
	Kind int  `json:"kind"`
	Code int  `json:"code,omitempty"`
	Use  bool `json:"use,omitempty"` // registered with Use (after those of the options)
}

const (
	ocNothing = iota
	ocSend
	ocBig
	ocClose
	ocPing
	ocMeta
	ocGo // sends from another goroutine
	ocKinds
)

type c15Plan struct {
	Real    bool     `json:"real,omitempty"` // served by net/http, otherwise by the harness's ResponseWriter
	MWs     []MW     `json:"mws,omitempty"`
	Bad     int      `json:"bad,omitempty"`  // 0 valid request, else an invalid one
	Hook    int      `json:"hook,omitempty"` // 0 none, else 1+oc*
	Fault   int      `json:"fault,omitempty"`
	DelayMs int      `json:"delay,omitempty"` // of the 101 response
	PingMs  int      `json:"ping,omitempty"`
	Msgs    []InMsg  `json:"msgs,omitempty"`
	Early   int      `json:"early,omitempty"` // per mille of the client's bytes sent with the request
	Chunks  []int    `json:"chunks,omitempty"`
	Open    OpenOpts `json:"open"`
	RBuf    int      `json:"rbuf,omitempty"`
	WBuf    int      `json:"wbuf,omitempty"`
	NoPool  bool     `json:"nopool,omitempty"`
	Ended   bool     `json:"ended,omitempty"` // the request's context has ended before Upgrade
	Stream  []int    `json:"stream,omitempty"`
	Wrap    int      `json:"wrap,omitempty"`    // layers of wrapping around the ResponseWriter
	Expired bool     `json:"expired,omitempty"` // the deadlines the HTTP server had set have passed
}

func init() {
	core.Register(&core.Prop{
		ID:  "C15",
		New: func() any { return &c15Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c15Plan{Real: chance(t, "real", 35)}
			fails := chance(t, "fails", 45)
			for range pick(t, "nmw", 0, 0, 1, 2, 3, 5) {
				m := MW{Kind: pick(t, "mw", mwOK, mwOK, mwHeaders), Use: chance(t, "use", 40)}
				if fails && chance(t, "mwfails", 40) {
					m.Kind = pick(t, "mwf", mwPlain, mwCoded, mwCoded)
				}
				m.Code = pick(t, "code", 400, 401, 403, 404, 418, 429, 500, 503, 302, 511)
				p.MWs = append(p.MWs, m)
			}
			if fails {
				switch intn(t, "failKind", 0, 4) {
				case 0:
					p.Bad = intn(t, "bad", 1, 6)
				case 1:
					p.Fault = intn(t, "fault", 1, 5)
				}
			}
			p.Hook = intn(t, "hook", 0, ocKinds)
			p.DelayMs = pick(t, "delay", 0, 0, 0, 1, 30, 500, 4000)
			p.PingMs = pick(t, "ping", 0, 0, 1, 7, 100, 1000)
			max := pick(t, "max", 100, 3000, 9000, 70000)
			for range pick(t, "nmsgs", 0, 1, 1, 2, 3, 6) {
				p.Msgs = append(p.Msgs, genInMsg(t, max, ref.Ping, ref.Pong))
			}
			p.Early = pick(t, "early", 0, 1000, 1000, 500, intn(t, "earlyN", 0, 1000))
			p.Chunks = genChunks(t)
			p.Open = OpenOpts{Br: pick(t, "br", 0, 16, 64, 125, 126, 131, 200, 512, 4096, 8192), Bw: pick(t, "bw", 0, 16, 64, 200, 4096, 9000)}
			p.Open.Prebuf = pick(t, "pre", 0, 1, 2, 5, 14, 100, 100000)
			p.RBuf = pick(t, "rbuf", 0, 0, 1, 16, 125, 131, 512, 4096, 8192)
			p.WBuf = pick(t, "wbuf", 0, 0, 1, 16, 64, 200, 4096, 9000)
			p.NoPool = chance(t, "nopool", 40)
			p.Ended = chance(t, "ended", 6)
			p.Wrap = pick(t, "wrap", 0, 0, 0, 1, 2)
			p.Expired = chance(t, "expired", 15)
			if chance(t, "stream", 30) {
				p.Stream = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 7, 100, 4096}), 1, 4).Draw(t, "streamSizes")
			}
			return p
		},
		Run:      c15Run,
		Quick:    150000,
		Thorough: 600000,
		Rule:     "handshakes through a fake ResponseWriter or a real net/http server with generated middleware chains (registered in the options and with Use; passing, plain errors, coded errors), invalid requests, hijack and response-write failures, slow responses with pings due at once, connect hooks that send, close or ping, and client frames sent with or right after the request for every combination of the HTTP server's and the library's buffer sizes; non-trivial: a middleware chain, a failing upgrade, or client bytes sent before the response",
	})
}

// oneListener serves prepared connections.
type oneListener struct {
	ch   chan net.Conn
	once sync.Once
}

func newListener(cs ...net.Conn) *oneListener {
	l := &oneListener{ch: make(chan net.Conn, len(cs)+1)}
	for _, c := range cs {
		l.ch <- c
	}
	return l
}
func (l *oneListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, errors.New("listener closed")
	}
	return c, nil
}
func (l *oneListener) Close() error   { l.once.Do(func() { close(l.ch) }); return nil }
func (l *oneListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)} }

func c15Req(bad int) string {
	h := []string{"Host: h", "Upgrade: websocket", "Connection: keep-alive, Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: " + sampleK}
	method := "GET"
	switch bad {
	case 1:
		method = "POST"
		h = append(h, "Content-Length: 0")
	case 2:
		h[1] = "Upgrade: h2c"
	case 3:
		h[2] = "Connection: keep-alive"
	case 4:
		h[3] = "Sec-WebSocket-Version: 8"
	case 5:
		h[4] = "Sec-WebSocket-Key: abc"
	case 6:
		h = h[:4]
	}
	return method + " /ws HTTP/1.1\r\n" + strings.Join(h, "\r\n") + "\r\n\r\n"
}

func c15Run(c *core.Case, plan any) {
	p := plan.(*c15Plan)
	var mu sync.Mutex
	var calls []int
	var wantW http.ResponseWriter
	var wantR *http.Request
	opts := &snapws.Options{ReadBufferSize: p.RBuf, WriteBufferSize: p.WBuf, DisableWriteBuffersPooling: p.NoPool, MaxMessageSize: -1,
		PingEvery: time.Duration(p.PingMs) * time.Millisecond, ReadWait: time.Hour}
	mk := func(i int, m MW) snapws.Middlware {
		return func(w http.ResponseWriter, r *http.Request) error {
			mu.Lock()
			calls = append(calls, i)
			if w != wantW || r != wantR {
				c.Violate("mw-args", "middleware %d was called with another writer or request", i)
			}
			mu.Unlock()
			switch m.Kind {
			case mwPlain:
				return fmt.Errorf("plain error of %d", i)
			case mwCoded:
				return snapws.NewMiddlewareErr(m.Code, fmt.Sprintf("coded error of %d", i))
			case mwHeaders:
				w.Header().Set("X-Mw", fmt.Sprint(i))
			}
			return nil
		}
	}
	var order []int
	for i, m := range p.MWs {
		if !m.Use {
			opts.Middlwares = append(opts.Middlwares, mk(i, m))
			order = append(order, i)
		}
	}
	connects := 0
	var hooked, conn *snapws.Conn
	var hookOps []*core.Op
	big := Pay{20000, 5}.Bytes()
	if p.Hook > 0 {
		opts.OnConnect = func(k *snapws.Conn) {
			connects++
			hooked = k
			switch p.Hook - 1 {
			case ocSend:
				if err := k.SendString(bg, []byte("welcome")); err != nil {
					c.Violate("hook-send", "sending in OnConnect failed: %v", err)
				}
			case ocBig:
				if err := k.SendBytes(bg, big); err != nil {
					c.Violate("hook-send", "sending in OnConnect failed: %v", err)
				}
			case ocClose:
				k.CloseWithCode(1008, "not you")
			case ocPing:
				if err := k.Ping(); err != nil && !errors.Is(err, snapws.ErrPingAlreadySent) {
					c.Violate("hook-ping", "Ping in OnConnect failed: %v", err)
				}
			case ocMeta:
				k.MetaData.Store("k", 1)
			case ocGo:
				hookOps = append(hookOps, c.Go("send from a goroutine of OnConnect", func() { k.SendString(bg, []byte("welcome")) }))
			}
		}
	}
	u := snapws.NewUpgrader(opts)
	for i, m := range p.MWs {
		if m.Use {
			u.Use(mk(i, m))
			order = append(order, i)
		}
	}
	mc := mem.New("c")
	// what has to happen
	var wantCalls []int
	var stop *MW
	if p.Bad == 0 {
		for _, i := range order {
			wantCalls = append(wantCalls, i)
			if k := p.MWs[i].Kind; k == mwPlain || k == mwCoded {
				stop = &p.MWs[i]
				break
			}
		}
	}
	refused := p.Bad > 0 || stop != nil
	fault := p.Fault
	if refused && p.Real {
		fault = 0
	}
	switch fault {
	case 1, 2:
		mc.SetFault(0, mem.Fault{Err: true, Partial: 30 * (fault - 1)})
	case 3:
		mc.SetFault(0, mem.Fault{Stall: true, Partial: 10})
	case 4:
		if p.Real {
			fault = 0 // net/http sets deadlines as well
		} else {
			mc.FailSetWD = 1
		}
	case 5:
		if p.Real {
			fault = 0
		}
	default:
		if p.DelayMs > 0 && !refused {
			mc.SetFault(0, mem.Fault{Delay: time.Duration(p.DelayMs) * time.Millisecond})
		}
	}
	success := !refused && fault == 0
	var fs []ref.Frame
	for _, m := range p.Msgs {
		fs = append(fs, m.frames()...)
	}
	stream := encode(fs)
	early := len(stream) * min(1000, max(0, p.Early)) / 1000
	if refused && p.Real {
		early = 0
		stream = nil
	}
	var err error
	var code int
	var body string
	var rw *fakeRW
	if p.Real {
		type result struct {
			conn *snapws.Conn
			err  error
		}
		res := make(chan result, 1)
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/ok" {
				w.Write([]byte("fine"))
				return
			}
			for range p.Wrap {
				w = wrapRW{w}
			}
			mu.Lock()
			wantW, wantR = w, r
			mu.Unlock()
			var k *snapws.Conn
			var e error
			o := c.Go("Upgrade", func() { k, e = u.Upgrade(w, r) })
			o.Wait(time.Hour)
			res <- result{k, e}
		})
		srv := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
		l := newListener(mc)
		sv := c.Go("http server", func() { srv.Serve(l) })
		c.Cleanup(func() { mc.Kill(); srv.Close(); sv.Wait(time.Hour) })
		chunked(mc, append([]byte(c15Req(p.Bad)), stream[:early]...), p.Chunks)
		ok := c.Must("hang", "the handler of the upgrade", 2*time.Hour, func() {
			r := <-res
			conn, err = r.conn, r.err
		})
		if !ok {
			return
		}
		if refused {
			settle(mc, time.Second)
			resp, e := http.ReadResponse(bufio.NewReader(bytes.NewReader(mc.Out())), nil)
			if e != nil {
				c.Violate("response", "the refusal cannot be parsed: %v: %s", e, trunc(mc.Out(), 300))
				return
			}
			b, _ := io.ReadAll(resp.Body)
			code, body = resp.StatusCode, string(b)
			// not taken over: the HTTP server goes on
			if n := mc.OutLen(); !resp.Close {
				mc.Feed([]byte("GET /ok HTTP/1.1\r\nHost: h\r\n\r\n"))
				settle(mc, time.Second)
				if !bytes.HasSuffix(mc.Out()[n:], []byte("fine")) {
					c.Violate("taken-over", "after a refused upgrade the HTTP connection is not usable any more: %s", trunc(mc.Out()[n:], 300))
				}
			}
		}
	} else {
		mc.Feed(nil)
		chunked(mc, stream[:early], p.Chunks)
		o := p.Open
		o.Prebuf = min(o.Prebuf, early)
		rw = newRW(mc, o)
		if fault == 5 {
			rw.failHij = errors.New("cannot hijack")
		}
		req, e := http.ReadRequest(bufio.NewReader(strings.NewReader(c15Req(p.Bad))))
		if e != nil {
			c.Infra("request: %v", e)
			return
		}
		if p.Ended {
			ctx, cancel := context.WithCancel(bg)
			cancel()
			req = req.WithContext(ctx)
		}
		rw.expired = p.Expired && fault != 4
		var w http.ResponseWriter = rw
		for range p.Wrap {
			w = wrapRW{w}
		}
		wantW, wantR = w, req
		if !c.Must("hang", "Upgrade", time.Hour, func() { conn, err = u.Upgrade(w, req) }) {
			return
		}
		code, body = rw.code, rw.body.String()
	}
	if conn != nil {
		tidy(c, conn, mc)
	}
	if p.Ended && !p.Real && success && err != nil {
		c.Class("ended-request") // nobody waits for the answer
		return
	}
	mu.Lock()
	got := fmt.Sprint(calls)
	mu.Unlock()
	if got != fmt.Sprint(wantCalls) {
		c.Violate("mw-order", "middlewares %v ran, want %v", got, wantCalls)
	}
	if len(p.MWs) > 0 || !success || early > 0 {
		c.NonTrivial()
	}
	c.ClassIf(p.Real, "net/http")
	c.ClassIf(len(p.MWs) > 1, "middleware-chain")
	if !success {
		if err == nil || conn != nil {
			c.Violate("accepted", "an upgrade that has to fail (request %d, middleware %v, fault %d) returned %v, %v", p.Bad, stop, fault, conn, err)
			return
		}
		if connects > 0 {
			c.Violate("connect-hook", "OnConnect ran for a failed upgrade")
		}
		switch {
		case refused:
			want := 400
			if stop != nil && stop.Kind == mwCoded {
				want = stop.Code
				if !strings.Contains(body, "coded error of") {
					c.Violate("mw-message", "the message of the middleware's error is not in the response: %q", body)
				}
			}
			if p.Bad > 0 {
				c.Class("invalid-request")
				if code < 400 || code > 599 {
					c.Violate("status", "an invalid request was answered with status %d", code)
				}
			} else {
				c.Class("middleware-refusal")
				if code != want {
					c.Violate("mw-status", "refused by a middleware with status %d, want %d", code, want)
				}
			}
			if rw != nil && (rw.hijacked > 0 || mc.OutLen() > 0) {
				c.Violate("taken-over", "the connection of a refused request was taken over")
			}
		case fault == 5:
			c.Class("hijack-failure")
			if code < 500 {
				c.Violate("status", "failed hijack answered with status %d", code)
			}
		default:
			c.Class("response-failure")
			if !mc.LibClosed() {
				c.Violate("transport-open", "the transport stays open after the response could not be written")
			}
		}
		return
	}
	if err != nil || conn == nil {
		c.Violate("refused", "a valid request was refused: %v (status %d)", err, code)
		return
	}
	if code != 0 && rw != nil {
		c.Violate("status", "an HTTP response with status %d was written besides the upgrade", code)
	}
	if p.Hook > 0 && (connects != 1 || hooked != conn) {
		c.Violate("connect-hook", "OnConnect ran %d times (with the returned connection: %v)", connects, hooked == conn)
	}
	for _, o := range hookOps {
		if !o.Wait(time.Hour) {
			c.Violate("hang", "%s did not return", o.Name)
			return
		}
	}
	closing := p.Hook-1 == ocClose
	// the rest of the client's bytes, and reading
	rest := stream[early:]
	c.Go("feeder", func() { chunked(mc, rest, p.Chunks) }).Wait(time.Hour)
	for i, m := range p.Msgs {
		if closing {
			break
		}
		var op uint8
		var data []byte
		var rerr error
		ok := c.Must("hang", fmt.Sprint("read of message ", i), forever, func() {
			if len(p.Stream) > 0 {
				var r io.Reader
				if r, op, rerr = conn.NextReader(); rerr == nil {
					if data, rerr = streamRead(r, p.Stream, 1<<20); rerr == io.EOF {
						rerr = nil
					}
				}
				return
			}
			op, data, rerr = conn.ReadMessage()
		})
		if !ok {
			return
		}
		if rerr != nil {
			c.Violate("lost", "reading message %d of %d failed: %v (buffers: http %d, library %d; %d of %d bytes sent with the request)", i, len(p.Msgs), rerr, p.Open.Br, p.RBuf, early, len(stream))
			return
		}
		if int(op) != m.op() || !bytes.Equal(data, m.data()) {
			c.Violate("corrupt", "message %d arrived as %s: %s", i, opName(int(op)), diff(data, m.data()))
			return
		}
	}
	synctest.Wait()
	out := mc.Out()
	h := headLen(out)
	if h < 0 {
		c.Violate("response", "no complete response: %s", trunc(out, 300))
		return
	}
	resp, e := http.ReadResponse(bufio.NewReader(bytes.NewReader(out[:h])), nil)
	if e != nil || resp.StatusCode != 101 {
		c.Violate("response", "the first bytes the peer receives are not a 101 response (%v): %s", e, trunc(out, 300))
		return
	}
	s := validWire(c, mc)
	if c.Failed() {
		return
	}
	var msgs []string
	for _, m := range s.Msgs {
		msgs = append(msgs, string(m.Data))
	}
	want := []string{}
	switch p.Hook - 1 {
	case ocSend, ocGo:
		want = append(want, "welcome")
	case ocBig:
		want = append(want, string(big))
	case ocClose:
		if s.CloseAt < 0 || s.CloseCode != 1008 {
			c.Violate("hook-close", "OnConnect closed with 1008, the peer got %s", frameList(s))
		}
	}
	if fmt.Sprint(msgs) != fmt.Sprint(want) {
		c.Violate("hook-message", "the peer received %d messages, want %d", len(msgs), len(want))
	}
	c.ClassIf(p.Wrap > 0, "wrapped-writer")
	c.ClassIf(p.Expired && !p.Real, "expired-deadlines")
	c.ClassIf(early > 0, "pipelined")
	c.ClassIf(p.DelayMs > 0 && p.PingMs > 0, "ping-due-during-response")
	c.ClassIf(p.Hook > 0, fmt.Sprint("hook-", p.Hook-1))
}
