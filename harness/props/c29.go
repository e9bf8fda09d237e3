package props

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// kinds of C29
const (
	erHandshake = iota
	erRead
	erClosed
	erCtx
	erMisuse
	erTransport
	erKinds
)

type c29Plan struct {
	Kind int `json:"kind"`
	// what exactly, by kind
	What int `json:"what,omitempty"`
	// handshake: how each of the conditions is broken (0: it holds)
	Bad [6]int `json:"bad,omitzero"`
	MWs []int  `json:"mws,omitempty"` // 0 passes, 1 plain error, 2 coded error, 3 context error
	Via int    `json:"via,omitempty"` // 0 Upgrader, 1 Manager, 2 RoomManager
	// reading
	Msgs   []InMsg `json:"msgs,omitempty"`
	Inside bool    `json:"inside,omitempty"` // a message has begun
	Ctl    int     `json:"ctl,omitempty"`    // pings before it
	Mode   int     `json:"mode,omitempty"`
	N      int     `json:"n,omitempty"`
	Cut    int     `json:"cut,omitempty"`
	Chunks []int   `json:"chunks,omitempty"`
	// contexts: 0 cancelled, 1 deadline, 2 of another type, 3 with a cause
	Ctx   int  `json:"ctx,omitempty"`
	T     int  `json:"t,omitempty"` // ms until it ends; 0: it has ended before
	WBuf  int  `json:"wbuf,omitempty"`
	Batch bool `json:"batch,omitempty"`
	Count int  `json:"count,omitempty"`
}

// what is read in erRead
const (
	rdOpcode = iota
	rdRsv
	rdUnmasked
	rdCtlFragment
	rdCtlLong
	rdContinuation
	rdNewMessage
	rdHuge
	rdFrameTooBig
	rdTotalTooBig
	rdFragments
	rdUTF8
	rdClose
	rdEOF
	rdFailure
	rdSilence
	rdLimiter
	rdKinds
)

// ownCtx is a context that is none of the standard library's.
type ownCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (o *ownCtx) Done() <-chan struct{} { return o.done }
func (o *ownCtx) Err() error {
	select {
	case <-o.done:
		return o.err
	default:
		return nil
	}
}

var errOwnCtx = errors.New("own context ended")

// endingCtx ends after d (at once if 0) with the returned error.
func endingCtx(c *core.Case, kind int, d time.Duration) (context.Context, error) {
	after := func(f func()) {
		if d <= 0 {
			f()
			return
		}
		t := time.AfterFunc(d, f)
		c.Cleanup(func() { t.Stop() })
	}
	switch kind {
	case 1:
		ctx, cancel := context.WithDeadline(bg, time.Now().Add(d))
		c.Cleanup(cancel)
		return ctx, context.DeadlineExceeded
	case 2:
		o := &ownCtx{bg, make(chan struct{}), errOwnCtx}
		after(func() { close(o.done) })
		return o, errOwnCtx
	case 3:
		ctx, cancel := context.WithCancelCause(bg)
		c.Cleanup(func() { cancel(nil) })
		after(func() { cancel(errors.New("the cause")) })
		return ctx, context.Canceled
	}
	ctx, cancel := context.WithCancel(bg)
	c.Cleanup(cancel)
	after(cancel)
	return ctx, context.Canceled
}

// causes are err and the errors it stands for.
func causes(err error) (out []error) {
	for err != nil {
		out = append(out, err)
		if f, ok := err.(*snapws.FatalError); ok {
			err = f.Err
		} else {
			err = errors.Unwrap(err)
		}
	}
	return
}

func names(err error, want error) bool {
	for _, e := range causes(err) {
		if errors.Is(e, want) {
			return true
		}
	}
	return false
}

const (
	anyErr = iota
	mustBeFatal
	mustNotBeFatal
)

func init() {
	core.Register(&core.Prop{
		ID:  "C29",
		New: func() any { return &c29Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c29Plan{Kind: intn(t, "kind", 0, erKinds-1)}
			p.Chunks = genChunks(t)
			p.Mode = intn(t, "mode", 0, 4)
			p.N = intn(t, "n", 0, 9999)
			p.Cut = intn(t, "cut", 0, 20)
			p.Count = intn(t, "count", 0, 9)
			p.WBuf = pick(t, "wbuf", 0, 0, 1, 30, 64)
			p.Via = intn(t, "via", 0, 2)
			p.Batch = chance(t, "batch", 40)
			switch p.Kind {
			case erHandshake:
				for range pick(t, "nbad", 0, 1, 1, 1, 2, 3) {
					p.Bad[intn(t, "cond", 0, 5)] = intn(t, "how", 1, 5)
				}
				for range pick(t, "nmw", 0, 0, 1, 2, 3) {
					p.MWs = append(p.MWs, intn(t, "mw", 0, 3))
				}
				p.What = pick(t, "fault", 0, 0, 0, 1, 2, 3)
			case erRead:
				p.What = intn(t, "what", 0, rdKinds-1)
				p.Inside = chance(t, "inside", 50)
				p.Ctl = pick(t, "ctl", 0, 0, 1, 3)
				for range intn(t, "nmsgs", 0, 3) {
					m := genInMsg(t, 300, ref.Ping, ref.Pong)
					p.Msgs = append(p.Msgs, m)
				}
			case erClosed:
				p.What = intn(t, "what", 0, 5)
			case erCtx:
				p.What = intn(t, "what", 0, 12)
				p.Ctx = intn(t, "ctx", 0, 3)
				p.T = pick(t, "t", 0, 1, 20, 300, 3000)
			case erMisuse:
				p.What = intn(t, "what", 0, 8)
				p.Ctx = intn(t, "ctx", 0, 3)
			case erTransport:
				p.What = intn(t, "what", 0, 4)
				p.T = intn(t, "mode", 0, 2)
			}
			return p
		},
		Run:      c29Run,
		Quick:    150000,
		Thorough: 4000000,
		Rule:     "one provoked failure per case, of every kind: handshakes with 0-3 broken conditions, failing middlewares, hijacks and responses, through the upgrader or a manager; client streams whose last part breaks one rule, limit or transport, read whole, typed, streamed, as JSON or skipped; all calls of a connection closed in six ways; calls that wait or start with a context of four types ended or ending; wrong opcodes, types, values, closed and nil writers, batching off, ended or cancelled; failing and stalled writes; non-trivial: the failure was provoked and its error judged",
	})
}

func c29Run(c *core.Case, plan any) {
	p := plan.(*c29Plan)
	e := &c29{c, p}
	switch p.Kind {
	case erHandshake:
		e.handshake()
	case erRead:
		e.read()
	case erClosed:
		e.closed()
	case erCtx:
		e.ctx()
	case erMisuse:
		e.misuse()
	case erTransport:
		e.transport()
	}
}

type c29 struct {
	*core.Case
	p *c29Plan
}

// judge: the call had to fail, and its error names one of the causes.
func (e *c29) judge(call string, err error, fatal int, want ...error) {
	e.NonTrivial()
	if err == nil {
		e.Violate("no-error", "%s returned no error, want %v", call, want)
		return
	}
	if err.Error() == "" {
		e.Violate("empty", "%s returned an error without a text (%T)", call, err)
	}
	if fatal == mustBeFatal && !isFatal(err) || fatal == mustNotBeFatal && isFatal(err) {
		e.Violate("fatal", "%s returned %q, fatal %v", call, err, isFatal(err))
	}
	if len(want) == 0 {
		return
	}
	for _, w := range want {
		if names(err, w) {
			return
		}
	}
	e.Violate("cause", "%s returned %q (%T), which does not name the cause: want %q", call, err, err, want)
}

func (e *c29) until(name string, f func()) bool { return e.Must("hang", name, time.Hour, f) }

func (e *c29) handshake() {
	p := e.p
	set := func(i int, vals ...string) string { return vals[(p.Bad[i]-1)%len(vals)] }
	h := map[string]string{"Upgrade": "websocket", "Connection": "Upgrade", "Sec-WebSocket-Version": "13", "Sec-WebSocket-Key": sampleK, "Sec-WebSocket-Protocol": "chat"}
	method := "GET"
	var want []error
	// header broken in one of several ways: the first is to leave it out
	brk := func(i int, name string, missing, invalid error, vals ...string) {
		if p.Bad[i] == 0 {
			return
		}
		v := set(i, append([]string{""}, vals...)...)
		if v == "" {
			delete(h, name)
			want = append(want, missing)
		} else {
			h[name] = v
			want = append(want, invalid)
		}
	}
	if p.Bad[0] > 0 {
		method = set(0, "POST", "PUT", "HEAD", "OPTIONS", "DELETE")
		want = append(want, snapws.ErrWrongMethod)
	}
	brk(1, "Upgrade", snapws.ErrMissingUpgradeHeader, snapws.ErrInvalidUpgradeHeader, "h2c", "websockets", "web socket", "h2c,http/3")
	brk(2, "Connection", snapws.ErrMissingConnectionHeader, snapws.ErrInvalidConnectionHeader, "keep-alive", "close", "upgraded", "keep-alive, close")
	brk(3, "Sec-WebSocket-Version", snapws.ErrMissingVersionHeader, snapws.ErrInvalidVersionHeader, "8", "7", "14", "thirteen")
	brk(4, "Sec-WebSocket-Key", snapws.ErrMissingSecKey, snapws.ErrInvalidSecKey, "abc", "not base64!!", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAA")
	opts := &snapws.Options{RejectRaw: true, SubProtocols: []string{"chat", "mqtt"}, WriteWait: time.Second}
	if p.Bad[5] > 0 {
		if v := set(5, "", "other", "Chat", "chat2, x"); v == "" {
			delete(h, "Sec-WebSocket-Protocol")
		} else {
			h["Sec-WebSocket-Protocol"] = v
		}
		want = append(want, snapws.ErrUnsupportedSubProtocols)
	}
	var coded *snapws.MiddlewareErr
	bad := len(want) > 0
	for i, k := range p.MWs {
		var r error
		switch k {
		case 1:
			r = fmt.Errorf("error of middleware %d", i)
		case 2:
			r = snapws.NewMiddlewareErr(403, fmt.Sprint("coded error of ", i))
		case 3:
			r = context.Canceled
		}
		if r != nil && len(want) == 0 {
			want = append(want, r)
			if k == 2 {
				coded = r.(*snapws.MiddlewareErr)
			}
		}
		opts.Middlwares = append(opts.Middlwares, func(http.ResponseWriter, *http.Request) error { return r })
	}
	mc := mem.New("c")
	rw := newRW(mc, OpenOpts{})
	var w http.ResponseWriter = rw
	if len(want) == 0 {
		switch p.What {
		case 1:
			rw.failHij = errors.New("cannot hijack")
			want = append(want, rw.failHij)
		case 2:
			mc.SetFault(0, mem.Fault{Err: true, Partial: p.N % 60})
			want = append(want, mem.ErrInjected)
		case 3:
			w = struct{ http.ResponseWriter }{rw} // cannot be hijacked
			want = append(want, http.ErrNotSupported)
		}
	}
	s := method + " /ws HTTP/1.1\r\nHost: h\r\n"
	for k, v := range h {
		s += k + ": " + v + "\r\n"
	}
	req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(s + "\r\n")))
	if err != nil {
		e.Infra("request: %v", err)
		return
	}
	u := snapws.NewUpgrader(opts)
	var conn *snapws.Conn
	if !e.until("the upgrade", func() {
		switch p.Via {
		case 1:
			var k *snapws.ManagedConn[int]
			if k, err = snapws.NewManager[int](u).Connect(0, w, req); k != nil {
				conn = k.Conn
			}
		case 2:
			conn, _, err = snapws.NewRoomManager[int](u).Connect(w, req, 0)
		default:
			conn, err = u.Upgrade(w, req)
		}
	}) {
		return
	}
	if conn != nil {
		tidy(e.Case, conn, mc)
	}
	if len(want) == 0 {
		if err != nil || conn == nil {
			e.Violate("refused", "a valid request was refused: %v", err)
		}
		return
	}
	e.ClassIf(bad, "invalid-request")
	e.ClassIf(!bad && len(p.MWs) > 0, "middleware")
	e.judge("the upgrade of "+strings.ReplaceAll(s, "\r\n", " | "), err, anyErr, want...)
	if conn != nil {
		e.Violate("data", "a failing upgrade returned a connection")
	}
	if coded != nil {
		if got, ok := snapws.AsMiddlewareErr(err); !ok || got != coded {
			e.Violate("cause", "AsMiddlewareErr(%v) of the middleware's error returned %v, %v", err, got, ok)
		}
	}
}

func (e *c29) read() {
	p := e.p
	const limit = 1000
	what := p.What % rdKinds
	opts := &snapws.Options{WriteWait: time.Second}
	mode := p.Mode
	var want []error
	inside := p.Inside
	switch what {
	case rdContinuation:
		inside = false
	case rdNewMessage, rdTotalTooBig:
		inside = true
	case rdUTF8:
		inside = false
		mode %= 2
	}
	if (what == rdTotalTooBig || what == rdFragments) && mode == 3 {
		mode = 2
	}
	if mode == 3 {
		inside = true
	}
	if what == rdContinuation || what == rdLimiter {
		inside = false
		if mode == 3 {
			mode = 0
		}
	}
	text := mode == 4 || mode == 1 && p.N%2 == 0 || what == rdUTF8
	op := ref.Binary
	if text {
		op = ref.Text
	}
	var fs []ref.Frame
	for _, m := range p.Msgs {
		if what == rdFragments {
			m.Cuts = nil
		}
		fs = append(fs, m.frames()...)
	}
	k := key(uint32(p.N))
	if inside {
		fs = append(fs, ref.Frame{Op: op, Key: k, Payload: []byte(`"abc`)})
	}
	for range p.Ctl {
		fs = append(fs, ref.Frame{Fin: true, Op: ref.Ping, Key: k, Payload: []byte("x")})
	}
	next := op
	if inside {
		next = ref.Cont
	}
	bad := ref.Frame{Fin: true, Op: next, Key: k, Payload: []byte(`"`)}
	add := func(f ...ref.Frame) { fs = append(fs, f...) }
	var after []byte
	end := func(mc *mem.Conn) {}
	fatal := mustBeFatal
	u := snapws.NewUpgrader(opts)
	switch what {
	case rdOpcode:
		bad.Op = []int{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[p.N%10]
		add(bad)
		want = []error{snapws.ErrInvalidOPCODE}
	case rdRsv:
		bad.Rsv = 1 + p.N%7
		if p.Cut%2 == 1 {
			bad.Op = ref.Ping
		}
		add(bad)
		want = []error{snapws.ErrUnnegotiatedRsvBits}
	case rdUnmasked:
		bad.NoMask = true
		add(bad)
	case rdCtlFragment:
		bad.Op, bad.Fin = []int{ref.Close, ref.Ping, ref.Pong}[p.N%3], false
		add(bad)
		want = []error{snapws.ErrInvalidControlFrame}
	case rdCtlLong:
		bad.Op, bad.Payload = []int{ref.Close, ref.Ping, ref.Pong}[p.N%3], make([]byte, 126+p.N%1000)
		add(bad)
		want = []error{snapws.ErrInvalidControlFrame}
	case rdContinuation:
		bad.Op, bad.Fin = ref.Cont, p.Cut%2 == 0
		add(bad)
		want = []error{snapws.ErrInvalidOPCODE, snapws.ErrExpectedContinuation}
	case rdNewMessage:
		bad.Op, bad.Fin = 1+p.N%2, p.Cut%2 == 0
		add(bad)
		want = []error{snapws.ErrExpectedContinuation}
	case rdHuge:
		bad.Declared, bad.DeclLen = true, 1<<63+uint64(p.N)
		bad.Payload = nil
		add(bad)
		want = []error{snapws.ErrTooLargePayload, snapws.ErrMessageTooLarge}
	case rdFrameTooBig:
		opts.MaxMessageSize = limit
		bad.Payload = make([]byte, limit+1+p.N)
		add(bad)
		want = []error{snapws.ErrTooLargePayload, snapws.ErrMessageTooLarge}
	case rdTotalTooBig:
		opts.MaxMessageSize = limit
		bad.Payload = []byte(strings.Repeat("x", limit-3+p.N%4))
		add(bad)
		want = []error{snapws.ErrTooLargePayload, snapws.ErrMessageTooLarge}
	case rdFragments:
		f := 1 + p.N%5
		opts.ReaderMaxFragments = f
		if !inside {
			add(ref.Frame{Op: op, Key: k, Payload: []byte(`"`)})
		}
		for range f - 1 {
			add(ref.Frame{Op: ref.Cont, Key: k, Payload: []byte("y")})
		}
		add(ref.Frame{Fin: p.Cut%2 == 0, Op: ref.Cont, Key: k, Payload: []byte("z")})
		want = []error{snapws.ErrTooMuchFragments}
	case rdUTF8:
		bad.Payload = append([]byte(strings.Repeat("é", p.Cut)), []string{"\xff", "\xc3", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xc0\x80", "\xe2\x82"}[p.N%6]...)
		add(bad)
		want = []error{snapws.ErrInvalidUTF8}
	case rdClose:
		after = [][]byte{closeFrame(0, ""), closeFrame(1000, "bye"), closeFrame(3500, ""), closeFrame(1005, ""), closeFrame(1000, "\xff"), (&ref.Frame{Fin: true, Op: ref.Close, Key: k, Payload: []byte("x")}).Encode(nil)}[p.N%6]
		want = []error{snapws.ErrConnClosed}
	case rdEOF, rdFailure:
		bad.Payload = []byte("\"0123456789")
		if p.Cut%2 == 0 {
			bad.Payload = []byte("\"" + strings.Repeat("long", 50))
		}
		if inside {
			bad.Payload = bad.Payload[1:]
		}
		b := bad.Encode(nil)
		after = b[:min(p.Cut, len(b)-1)]
		if what == rdEOF {
			end = func(mc *mem.Conn) { mc.FeedEOF() }
			want = []error{io.EOF, io.ErrUnexpectedEOF, snapws.ErrConnClosed, snapws.ErrInternalServer}
		} else {
			end = func(mc *mem.Conn) { mc.FeedErr(mem.ErrInjected) }
			want = []error{mem.ErrInjected}
		}
	case rdSilence:
		b := bad.Encode(nil)
		after = b[:min(p.Cut, len(b)-1)]
		if mode == 3 {
			opts.PingEvery = time.Hour
		}
		opts.ReadWait = 70 * time.Second
	case rdLimiter:
		// the hook ends the connection with an error of its own
		own := errors.New("too many messages")
		u.Limiter = snapws.NewRateLimiter(1, len(p.Msgs))
		u.Limiter.OnRateLimitHit = func(k *snapws.Conn) error {
			if p.Cut%2 == 0 {
				k.CloseWithCode(1008, "enough")
			}
			return own
		}
		add(bad)
		want = []error{own}
	}
	mc := mem.New("c")
	conn := open(e.Case, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	chunked(mc, append(encode(fs), after...), p.Chunks)
	end(mc)
	e.Class(fmt.Sprint("read-", what))
	e.Class(fmt.Sprint("mode-", mode))
	e.until("reading", func() {
		for i := range p.Msgs {
			if _, _, err := conn.ReadMessage(); err != nil {
				e.Violate("read", "reading message %d before the failure: %v", i, err)
				return
			}
		}
		var err error
		var data []byte
		call := "ReadMessage"
		switch mode {
		case 1:
			if text {
				call = "ReadString"
				data, err = conn.ReadString()
			} else {
				call = "ReadBinary"
				data, err = conn.ReadBinary()
			}
		case 2:
			call = "NextReader and Read"
			var r io.Reader
			if r, _, err = conn.NextReader(); err == nil {
				if _, err = streamRead(r, []int{1 + p.N%7}, 1<<20); err == io.EOF {
					err = nil
				}
			} else if r != nil {
				e.Violate("data", "a failing NextReader returned a reader")
			}
		case 3:
			call = "NextReader after an unread message"
			var r io.Reader
			if r, _, err = conn.NextReader(); err == nil {
				r.Read(make([]byte, p.N%4))
				_, _, err = conn.NextReader()
			} else {
				e.Violate("read", "NextReader of the message before the failure: %v", err)
				return
			}
		case 4:
			call = "ReadJSON"
			var s string
			err = conn.ReadJSON(&s)
		default:
			_, data, err = conn.ReadMessage()
		}
		// a decoder goes on after an error that came with data
		late := mode == 4 && (what == rdFailure || what == rdSilence) && names(err, snapws.ErrConnClosed)
		if late {
			want = []error{snapws.ErrConnClosed}
		}
		e.judge(call, err, fatal, want...)
		if len(data) > 0 {
			e.Violate("data", "a failing %s returned %d bytes", call, len(data))
		}
		if what == rdSilence && !late {
			ok := false
			for _, x := range causes(err) {
				if n, is := x.(net.Error); is && n.Timeout() {
					ok = true
				}
			}
			if !ok {
				e.Violate("cause", "%s from a silent peer returned %q (%T), which is no timeout", call, err, err)
			}
		}
		if what == rdUnmasked {
			for _, x := range sentinels {
				if names(err, x) {
					e.Violate("cause", "%s of an unmasked frame returned %q", call, err)
				}
			}
		}
		if e.Failed() {
			return
		}
		_, _, err = conn.ReadMessage()
		e.judge("a second read", err, mustBeFatal, snapws.ErrConnClosed)
	})
}

// sentinels are the documented causes a read can have.
var sentinels = []error{snapws.ErrInvalidOPCODE, snapws.ErrTooLargePayload, snapws.ErrExpectedContinuation, snapws.ErrInvalidControlFrame, snapws.ErrUnnegotiatedRsvBits,
	snapws.ErrMessageTooLarge, snapws.ErrTooMuchFragments, snapws.ErrInvalidUTF8, snapws.ErrInvalidJSON, snapws.ErrMessageTypeMismatch, io.EOF, context.Canceled, context.DeadlineExceeded}

func (e *c29) closed() {
	p := e.p
	u := snapws.NewUpgrader(&snapws.Options{WriteBufferSize: p.WBuf, WriteWait: time.Second})
	if p.Batch {
		u.EnableJSONBatching(bg, time.Second)
		fl := u.Flusher
		e.Cleanup(func() { fl.Close() })
	}
	mc := mem.New("c")
	var w *snapws.ConnWriter
	var r io.Reader
	conn := open(e.Case, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	ok := e.until("preparing", func() {
		var err error
		if p.N%2 == 0 {
			if w, err = conn.NextWriter(bg, snapws.OpcodeText); err != nil {
				e.Violate("prepare", "NextWriter: %v", err)
			} else {
				w.Write(make([]byte, p.Cut))
			}
		}
		if p.N%3 > 0 {
			mc.Feed(dataFrame(ref.Text, false, []byte("abc")))
			if r, _, err = conn.NextReader(); err != nil {
				e.Violate("prepare", "NextReader: %v", err)
			}
		}
		switch p.What {
		case 0:
			conn.Close()
		case 1:
			mc.Feed(closeFrame(1001, ""))
		case 2:
			mc.FeedEOF()
		case 3:
			mc.Feed(dataFrame(3, true, nil))
		case 4:
			conn.CloseWithCode(4000, "reason")
		case 5:
			mc.FeedErr(mem.ErrInjected)
		}
		if p.What != 0 && p.What != 4 {
			conn.ReadMessage()
		}
	})
	if !ok || e.Failed() {
		return
	}
	e.Class(fmt.Sprint("closed-", p.What))
	ctx := context.Context(bg)
	switch p.Ctx {
	case 1:
		ctx = nil
	case 2, 3:
		c2, cancel := context.WithCancel(bg)
		e.Cleanup(cancel)
		ctx = c2
	}
	calls := []struct {
		name string
		f    func() error
	}{
		{"ReadMessage", func() error { _, _, err := conn.ReadMessage(); return err }},
		{"ReadString", func() error { _, err := conn.ReadString(); return err }},
		{"ReadBinary", func() error { _, err := conn.ReadBinary(); return err }},
		{"ReadJSON", func() error { var v any; return conn.ReadJSON(&v) }},
		{"NextReader", func() error { _, _, err := conn.NextReader(); return err }},
		{"Read of an old reader", func() error {
			if r == nil {
				return snapws.ErrConnClosed
			}
			_, err := r.Read(make([]byte, 2))
			return err
		}},
		{"SendMessage", func() error { return conn.SendMessage(ctx, snapws.OpcodeText, []byte("a")) }},
		{"SendBytes", func() error { return conn.SendBytes(ctx, make([]byte, p.N)) }},
		{"SendString", func() error { return conn.SendString(ctx, nil) }},
		{"SendJSON", func() error { return conn.SendJSON(ctx, 1) }},
		{"NextWriter", func() error { _, err := conn.NextWriter(ctx, snapws.OpcodeBinary); return err }},
		{"Ping", conn.Ping},
		{"Write of an old writer", func() error {
			if w == nil {
				return snapws.ErrConnClosed
			}
			n, err := w.Write(make([]byte, 1+p.Cut))
			if n != 0 {
				e.Violate("data", "Write after closing accepted %d bytes", n)
			}
			return err
		}},
		{"Flush of an old writer", func() error {
			if w == nil {
				return snapws.ErrConnClosed
			}
			return w.Flush()
		}},
		{"Batch", func() error {
			if !p.Batch {
				return snapws.ErrConnClosed
			}
			return conn.Batch([]byte("1"))
		}},
		{"BatchJSON", func() error {
			if !p.Batch {
				return snapws.ErrConnClosed
			}
			return conn.BatchJSON(1)
		}},
		{"Close of an old writer", func() error {
			if w == nil {
				return snapws.ErrConnClosed
			}
			return w.Close()
		}},
	}
	wClosed := false
	for i := range calls {
		k := calls[(i*(1+2*(p.Cut%4))+p.Count)%len(calls)]
		var err error
		if !e.until(k.name, func() { err = k.f() }) {
			return
		}
		if wClosed && strings.HasSuffix(k.name, "old writer") && (err == nil && strings.HasPrefix(k.name, "Close") || names(err, snapws.ErrWriterClosed)) {
			continue
		}
		wClosed = wClosed || k.name == "Close of an old writer"
		e.judge(k.name+" after closing", err, anyErr, snapws.ErrConnClosed)
	}
}

func (e *c29) ctx() {
	const ms = time.Millisecond
	p := e.p
	opts := &snapws.Options{WriteWait: time.Hour, ReadWait: 10 * time.Hour, PingEvery: 5 * time.Hour, WriteBufferSize: p.WBuf, BroadcastBackpressure: snapws.BackpressureWait, BroadcastChannelsSize: 1 + p.N%3}
	u := snapws.NewUpgrader(opts)
	d := time.Duration(p.T) * ms
	var ctx context.Context
	var want error
	if p.What == 9 || p.What == 10 || p.What == 11 {
		// the context of the batcher
		ctx, want = endingCtx(e.Case, p.Ctx, d)
		u.EnablePrefixBatching(ctx, 7*time.Millisecond)
	} else if p.What == 12 || p.What == 8 {
		u.EnablePrefixBatching(bg, time.Hour)
		fl := u.Flusher
		e.Cleanup(func() { fl.Close() })
	}
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[int](u)
	mc := mem.New("c")
	var conn *snapws.Conn
	var room *snapws.Room[int]
	var err error
	if !e.until("Connect", func() {
		if p.Via == 1 {
			var k *snapws.ManagedConn[int]
			if k, err = mgr.Connect(1, newRW(mc, OpenOpts{}), goodReq()); err == nil {
				conn = k.Conn
			}
		} else {
			conn, room, err = rooms.Connect(newRW(mc, OpenOpts{}), goodReq(), 1)
		}
	}) {
		return
	}
	if err != nil {
		e.Violate("upgrade-failed", "Connect failed: %v", err)
		return
	}
	tidy(e.Case, conn, mc)
	drain(e.Case, "c", conn)
	start := func() {
		if ctx == nil {
			ctx, want = endingCtx(e.Case, p.Ctx, d)
		}
	}
	e.Class(fmt.Sprint("ctx-", p.What))
	e.Class(fmt.Sprint("ctx-type-", p.Ctx))
	text := func(b []byte) (int, error) {
		if p.Via == 1 {
			return mgr.BroadcastString(ctx, b)
		}
		return room.BroadcastString(ctx, b)
	}
	batch := func(x context.Context) (int, error) {
		if p.Via == 1 {
			return mgr.BatchBroadcast(x, []byte("7"))
		}
		return room.BatchBroadcast(x, []byte("7"))
	}
	fatal := mustNotBeFatal
	judge := func(name string, f func() error) {
		var err error
		if !e.until(name, func() { err = f() }) {
			return
		}
		e.judge(name+" with a context that ends", err, fatal, want)
	}
	// held: somebody else is writing a message
	hold := func() {
		w, err := conn.NextWriter(bg, snapws.OpcodeText)
		if err != nil {
			e.Violate("prepare", "NextWriter: %v", err)
			return
		}
		e.Cleanup(func() { w.Close() })
	}
	stall := func() {
		// the peer takes nothing: a ping is stuck in the transport
		mc.SetCredit(0)
		e.Go("ping", func() { conn.Ping() })
		time.Sleep(ms)
	}
	switch p.What {
	case 0:
		hold()
		start()
		judge("NextWriter", func() error { _, err := conn.NextWriter(ctx, snapws.OpcodeBinary); return err })
	case 1:
		hold()
		start()
		judge("SendBytes", func() error { return conn.SendBytes(ctx, make([]byte, p.N)) })
	case 2:
		hold()
		start()
		judge("SendJSON", func() error { return conn.SendJSON(ctx, "x") })
	case 3:
		hold()
		start()
		judge("SendMessage", func() error { return conn.SendMessage(ctx, snapws.OpcodeText, nil) })
	case 4, 5, 6:
		// the writer is free, the transport is not
		if p.T == 0 {
			d = 5 * ms
		}
		ctx, want = endingCtx(e.Case, p.Ctx, d+2*ms)
		w, err := conn.NextWriter(ctx, snapws.OpcodeText)
		if err != nil {
			e.Violate("prepare", "NextWriter: %v", err)
			return
		}
		if p.What == 6 && p.Count%2 == 1 {
			// partly sent: it can neither be completed nor taken back
			w.Write(make([]byte, p.Cut))
			if err := w.Flush(); err != nil {
				e.Violate("prepare", "Flush: %v", err)
				return
			}
			fatal = mustBeFatal
		}
		stall()
		switch p.What {
		case 4:
			w.Write([]byte("a"))
			judge("Flush", w.Flush)
			if p.Count%2 == 0 {
				judge("Flush again", w.Flush)
			}
		case 5:
			judge("Write", func() error { _, err := w.Write(make([]byte, 9000)); return err })
		case 6:
			judge("Close", w.Close)
		}
	case 7:
		stall()
		start()
		// once it has ended, each still has an even chance to be queued
		for i := range 80 {
			n, err := 0, error(nil)
			if !e.until("broadcast", func() { n, err = text([]byte("m")) }) {
				return
			}
			if err != nil {
				e.judge("a waiting broadcast whose context ends", err, mustNotBeFatal, want)
				if n != 0 {
					e.Violate("data", "broadcast counted %d and failed", n)
				}
				return
			}
			if i == 79 {
				e.Violate("no-error", "%d broadcasts to a stalled connection with a queue of %d returned no error", i+1, opts.BroadcastChannelsSize)
			}
		}
	case 8, 9, 10, 11, 12:
		if p.What == 12 {
			u.Flusher.Close()
			want = snapws.ErrFlusherClosed
		} else if p.What == 8 {
			// a batch broadcast with an ended context of its own: any error is that one
			ctx, want = endingCtx(e.Case, p.Ctx, 0)
			var err error
			if e.until("BatchBroadcast", func() { _, err = batch(ctx) }) && err != nil {
				e.judge("BatchBroadcast with a context that ended", err, mustNotBeFatal, want)
			}
			return
		} else {
			time.Sleep(d + ms)
		}
		judge("Batch", func() error { return conn.Batch([]byte("1")) })
		judge("BatchJSON", func() error { return conn.BatchJSON(1) })
		judge("BatchBroadcast", func() error { _, err := batch(bg); return err })
		judge("BatchBroadcastJSON", func() error {
			var err error
			if p.Via == 1 {
				_, err = mgr.BatchBroadcastJSON(bg, 1)
			} else {
				_, err = room.BatchBroadcastJSON(nil, 1)
			}
			return err
		})
	}
}

func (e *c29) misuse() {
	p := e.p
	opts := &snapws.Options{WriteBufferSize: p.WBuf, WriteWait: time.Second}
	u := snapws.NewUpgrader(opts)
	if p.Batch && p.What != 5 {
		u.EnableJSONBatching(bg, time.Minute)
		fl := u.Flusher
		e.Cleanup(func() { fl.Close() })
	}
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[int](u)
	mc := mem.New("c")
	var mcn *snapws.ManagedConn[int]
	var err error
	if !e.until("Connect", func() { mcn, err = mgr.Connect(1, newRW(mc, OpenOpts{}), goodReq()) }) {
		return
	}
	if err != nil {
		e.Violate("upgrade-failed", "Connect failed: %v", err)
		return
	}
	conn := mcn.Conn
	tidy(e.Case, conn, mc)
	room := rooms.Add(1)
	room.Add(conn)
	e.Class(fmt.Sprint("misuse-", p.What))
	judge := func(name string, want error, f func() error) {
		var err error
		if !e.until(name, func() { err = f() }) {
			return
		}
		e.judge(name, err, mustNotBeFatal, want)
	}
	live, cancel := context.WithCancel(bg)
	e.Cleanup(cancel)
	switch p.What {
	case 0:
		if err := conn.Ping(); err != nil {
			e.Violate("prepare", "Ping: %v", err)
		}
		for range 1 + p.Count {
			judge("Ping while one is unanswered", snapws.ErrPingAlreadySent, conn.Ping)
		}
	case 1:
		op := uint8([]int{0, 3, 4, 7, 8, 9, 10, 11, 15, 16, 129, 255}[p.N%12])
		judge(fmt.Sprint("SendMessage with opcode ", op), snapws.ErrInvalidOPCODE, func() error { return conn.SendMessage(live, op, []byte("a")) })
		judge(fmt.Sprint("NextWriter with opcode ", op), snapws.ErrInvalidOPCODE, func() error {
			w, err := conn.NextWriter(live, op)
			if w != nil {
				e.Violate("data", "a failing NextWriter returned a writer")
			}
			return err
		})
	case 2:
		var w *snapws.ConnWriter
		want := snapws.ErrWriterUnintialized
		if p.N%3 > 0 {
			want = snapws.ErrWriterClosed
			if w, err = conn.NextWriter(live, snapws.OpcodeText); err != nil {
				e.Violate("prepare", "NextWriter: %v", err)
				return
			}
			w.Write(make([]byte, p.Cut))
			if err := w.Close(); err != nil {
				e.Violate("prepare", "Close: %v", err)
				return
			}
			if p.N%3 == 2 { // somebody else has the writer now
				w2, err := conn.NextWriter(bg, snapws.OpcodeBinary)
				if err == nil {
					e.Cleanup(func() { w2.Close() })
				}
			}
		}
		judge("Write of a closed or nil writer", want, func() error { _, err := w.Write(make([]byte, p.Cut)); return err })
		judge("Flush of a closed or nil writer", want, func() error { return w.Flush() })
	case 3:
		mc.Feed(dataFrame(ref.Binary, true, []byte(`"a"`)))
		mc.Feed(dataFrame(ref.Text, true, []byte(`"b"`)))
		mc.Feed(dataFrame(ref.Binary, true, nil))
		nothing := func(f func() ([]byte, error)) func() error {
			return func() error {
				b, err := f()
				if len(b) > 0 {
					e.Violate("data", "a failing read returned %d bytes", len(b))
				}
				return err
			}
		}
		judge("ReadString of a binary message", snapws.ErrMessageTypeMismatch, nothing(conn.ReadString))
		judge("ReadBinary of a text message", snapws.ErrMessageTypeMismatch, nothing(conn.ReadBinary))
		judge("ReadJSON of a binary message", snapws.ErrMessageTypeMismatch, func() error { var v any; return conn.ReadJSON(&v) })
	case 4:
		v := badValue(p.N, p.Cut*10)
		_, std := json.Marshal(v)
		same := func(name string, err error) {
			e.judge(name, err, mustNotBeFatal)
			for _, x := range causes(err) {
				if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", std) {
					return
				}
			}
			e.Violate("cause", "%s of a value that cannot be encoded returned %q (%T), the encoder %q (%T)", name, err, err, std, std)
		}
		e.until("JSON", func() {
			same("SendJSON", conn.SendJSON(live, v))
			_, err := mgr.BroadcastJSON(live, v)
			same("Manager.BroadcastJSON", err)
			_, err = room.BroadcastJSON(live, v)
			same("Room.BroadcastJSON", err)
			if !p.Batch {
				return
			}
			same("BatchJSON", conn.BatchJSON(v))
			_, err = mgr.BatchBroadcastJSON(live, v)
			same("Manager.BatchBroadcastJSON", err)
			_, err = room.BatchBroadcastJSON(live, v)
			same("Room.BatchBroadcastJSON", err)
		})
	case 5:
		w := snapws.ErrBatchingUninitialized
		judge("Batch without batching", w, func() error { return conn.Batch([]byte("1")) })
		judge("BatchJSON without batching", w, func() error { return conn.BatchJSON(1) })
		judge("Manager.BatchBroadcast without batching", w, func() error { _, err := mgr.BatchBroadcast(live, []byte("1")); return err })
		judge("Room.BatchBroadcast without batching", w, func() error { _, err := room.BatchBroadcast(live, []byte("1")); return err })
		judge("Manager.BatchBroadcastJSON without batching", w, func() error { _, err := mgr.BatchBroadcastJSON(live, 1); return err })
		judge("Room.BatchBroadcastJSON without batching", w, func() error { _, err := room.BatchBroadcastJSON(live, 1); return err })
	case 6, 7:
		docs := []string{"", "   ", "{", `"a`, "nul", "{]", `{"a":1,}`, "12a", `"x"`, `{"I":"x"}`, `[1,2]`, "1 2", `{} {}`, `1,`, "truex", `{"I":1}x`}
		doc := docs[p.N%len(docs)]
		var v struct{ I int }
		std := json.Unmarshal([]byte(doc), &v)
		cuts := []int{p.Cut % (len(doc) + 1)}
		for i, f := range cutBytes([]byte(doc), cuts) {
			op := ref.Text
			if i > 0 {
				op = ref.Cont
			}
			mc.Feed(dataFrame(op, i == len(cutBytes([]byte(doc), cuts))-1, f))
		}
		var err error
		if !e.until("ReadJSON", func() { err = conn.ReadJSON(&v) }) {
			return
		}
		if std == nil {
			e.Infra("%q is decodable", doc)
			return
		}
		e.judge(fmt.Sprintf("ReadJSON of %q", doc), err, mustNotBeFatal)
		var te *json.UnmarshalTypeError
		var se *json.SyntaxError
		isType, isSyntax := false, false
		for _, x := range causes(err) {
			isType = isType || errors.As(x, &te)
			isSyntax = isSyntax || errors.As(x, &se) || errors.Is(x, io.EOF) || errors.Is(x, io.ErrUnexpectedEOF) || errors.Is(x, snapws.ErrInvalidJSON)
		}
		if wantType := errors.As(std, &te); wantType && !isType || !wantType && !isSyntax && !isType {
			e.Violate("cause", "ReadJSON of %q returned %q (%T), the standard decoder %q (%T)", doc, err, err, std, std)
		}
	case 8:
		if snapws.IsFatalErr(nil) || snapws.IsFatalErr(io.EOF) || !snapws.IsFatalErr(&snapws.FatalError{Err: io.EOF}) {
			e.Violate("fatal", "IsFatalErr is wrong")
		}
		m := snapws.NewMiddlewareErr(400+p.Cut, "text")
		if k, ok := snapws.AsMiddlewareErr(m); !ok || k != m || k.Code != 400+p.Cut || k.Error() != "text" {
			e.Violate("cause", "AsMiddlewareErr returned %v, %v", k, ok)
		}
		if _, ok := snapws.AsMiddlewareErr(io.EOF); ok {
			e.Violate("cause", "AsMiddlewareErr of another error")
		}
	}
	// none of these is fatal
	if !e.Failed() && p.What != 2 {
		var err error
		if e.until("SendBytes", func() { err = conn.SendBytes(bg, []byte("alive")) }) && err != nil {
			e.Violate("closed", "after non-fatal errors a send fails: %v", err)
		}
	}
}

func (e *c29) transport() {
	p := e.p
	u := snapws.NewUpgrader(&snapws.Options{WriteBufferSize: p.WBuf, WriteWait: time.Second})
	mc := mem.New("c")
	conn := open(e.Case, u, mc, OpenOpts{})
	if conn == nil {
		return
	}
	var want []error
	timeout := false
	switch p.T {
	case 0:
		mc.SetFault(1, mem.Fault{Err: true, Partial: p.Cut % 5})
		want = []error{mem.ErrInjected}
	case 1:
		mc.SetFault(1, mem.Fault{Stall: true, Partial: p.Cut % 5})
		timeout = true
	case 2:
		mc.FailSetWD = mc.WD() + 1
	}
	e.Class(fmt.Sprint("transport-", p.What))
	var err error
	call := ""
	if !e.until("the write", func() {
		switch p.What {
		case 0:
			call = "SendBytes"
			err = conn.SendBytes(bg, make([]byte, p.N))
		case 1:
			call = "SendJSON"
			err = conn.SendJSON(bg, strings.Repeat("x", p.N))
		case 2:
			call = "Flush or Close"
			w, e2 := conn.NextWriter(bg, snapws.OpcodeText)
			if e2 != nil {
				e.Violate("prepare", "NextWriter: %v", e2)
				return
			}
			if _, err = w.Write(make([]byte, p.Cut)); err != nil {
				return
			}
			if p.Count%2 == 0 {
				err = w.Flush()
			} else {
				err = w.Close()
			}
		case 3:
			call = "Ping"
			err = conn.Ping()
		case 4:
			call = "Write"
			w, e2 := conn.NextWriter(bg, snapws.OpcodeText)
			if e2 != nil {
				e.Violate("prepare", "NextWriter: %v", e2)
				return
			}
			_, err = w.Write(make([]byte, 9000+p.N))
		}
	}) {
		return
	}
	e.judge(call+" over a failing transport", err, mustBeFatal, want...)
	if timeout {
		for _, x := range causes(err) {
			if n, is := x.(net.Error); is && n.Timeout() {
				return
			}
		}
		e.Violate("cause", "%s to a stalled peer returned %q (%T), which is no timeout", call, err, err)
	}
}
