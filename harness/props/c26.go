package props

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

const (
	jsSend = iota
	jsSendConc
	jsRoom
	jsManager
	jsBatch
	jsRoomBatch
	jsManagerBatch
	jsRead
	jsText // a plain message in between, to see that the connection is usable
	jsKinds
)

// JsOp is one operation of a history.
type JsOp struct {
	K    int    `json:"k"`
	I    int    `json:"i,omitempty"`
	Val  int    `json:"val,omitempty"` // kind of value
	Seed uint32 `json:"seed,omitempty"`
	Size int    `json:"size,omitempty"`
	Ctx  int    `json:"ctx,omitempty"` // 0 live, 1 nil, 2 already cancelled
	// reading
	Mut  int   `json:"mut,omitempty"` // how the document differs from the encoded value
	Cut  int   `json:"cut,omitempty"`
	Into int   `json:"into,omitempty"`
	Bin  bool  `json:"bin,omitempty"`
	Cuts []int `json:"cuts,omitempty"`
	Ping bool  `json:"ping,omitempty"`
	Chk  []int `json:"chunks,omitempty"`
}

type c26Plan struct {
	Conns    int    `json:"conns"`
	WriteBuf int    `json:"writebuf,omitempty"`
	ReadBuf  int    `json:"readbuf,omitempty"`
	Batch    int    `json:"batch"` // 1 JSON, 2 prefix
	Latency  int    `json:"latency,omitempty"`
	SkipUTF8 bool   `json:"skip_utf8,omitempty"`
	Ops      []JsOp `json:"ops"`
}

func init() {
	core.Register(&core.Prop{
		ID:  "C26",
		New: func() any { return &c26Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c26Plan{Conns: pick(t, "conns", 1, 1, 2, 3), WriteBuf: pick(t, "writebuf", 0, 0, 20, 32, 64, 300), ReadBuf: pick(t, "readbuf", 0, 0, 125, 300), Batch: pick(t, "batch", 1, 2), Latency: pick(t, "latency", 0, 0, 0, 1), SkipUTF8: rapid.Bool().Draw(t, "skip")}
			for range intn(t, "nops", 1, 12) {
				o := JsOp{K: pick(t, "k", jsSend, jsSend, jsSend, jsSendConc, jsRoom, jsManager, jsBatch, jsRoomBatch, jsManagerBatch, jsRead, jsRead, jsRead, jsRead, jsText), I: intn(t, "i", 0, p.Conns-1),
					Val: intn(t, "val", 0, valKinds-1), Seed: genSeed(t), Size: pick(t, "size", 0, 1, 2, 3, 5, 8, 30, 200)}
				if o.K == jsRead {
					o.Mut = pick(t, "mut", 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
					o.Cut = intn(t, "cut", 0, 400)
					o.Into = intn(t, "into", 0, intoKinds-1)
					o.Bin = chance(t, "bin", 8)
					for range intn(t, "ncuts", 0, 3) {
						o.Cuts = append(o.Cuts, intn(t, "cutAt", 0, 400))
					}
					slices.Sort(o.Cuts)
					o.Ping = chance(t, "ping", 30)
					o.Chk = genChunks(t)
				} else if o.K == jsText {
					o.Size = genLen(t, "len", 3000)
				} else {
					o.Ctx = pick(t, "ctx", 0, 0, 0, 0, 1, 2)
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		},
		Run:      c26Run,
		Quick:    80000,
		Thorough: 900000,
		Rule:     "histories of 1-12 SendJSON (alone and concurrently), room and manager BroadcastJSON, BatchJSON, room and manager BatchBroadcastJSON calls with generated values of 30 kinds (nested, unicode, escapes, numbers, structs, pointers, marshalers, byte slices and raw messages, strings that look encoded, unencodable and cyclic values) and of ReadJSON calls into 14 kinds of targets of documents that are valid, reformatted, truncated, extended, doubled or mutated, in any fragmentation; differential against encoding/json; non-trivial: at least one value was sent or read and at least one was refused, or a value spanned several frames",
		Assumptions: []string{
			"documents are valid UTF-8 (ReadJSON does not validate UTF-8)",
			"after an error of ReadJSON the target's value is not judged"},
	})
}

type jsBase struct {
	ID   int     `json:"id"`
	Name *string `json:"name,omitempty"`
}

type jsStruct struct {
	jsBase
	A      string            `json:"a"`
	B      []int64           `json:"b,omitempty"`
	C      map[string]*int   `json:"c"`
	D      float64           `json:"-"`
	E      json.RawMessage   `json:"e,omitempty"`
	F      []byte            `json:"f"`
	G      any               `json:"g"`
	H      bool              `json:"h,string"`
	Next   *jsStruct         `json:"next,omitempty"`
	Labels map[string]string `json:"labels,omitempty"`
	hidden int
}

type jsMarshaler struct {
	s   string
	err error
}

func (m jsMarshaler) MarshalJSON() ([]byte, error) { return []byte(m.s), m.err }

type jsText_ struct{ s string }

func (m jsText_) MarshalText() ([]byte, error) { return []byte(m.s), nil }

type jsCycle struct {
	Next *jsCycle
	M    map[string]any
}

const valKinds = 30

// texts that mean something to a careless encoder.
var jsPieces = []string{`\u003c`, `\u003e`, `\u0026`, `\u2028`, `\u0000`, `\ud83d`, `\n`, `\"`, `\\`, `\/`, `\x41`, "&lt;", "&quot;", "&#34;", "%20", "%s", "%!d", "null", "true", "NaN",
	`{"a":1}`, `[1,2]`, `","`, `":"`, "],[", "}{", "  ", "-0", "1e5", "//", "/*", "*/", "\ufeff", "\u0085", "\u00a0", "\u200b", "e\u0301", "\U0010ffff", "\r\n", "\v\f", "<script>", "'", "`", "${x}", "\x1b[0m", "\xff", "\xed\xa0\x80", "\xc3"}

// jsValue builds a value of one of the kinds.
func jsValue(kind int, seed uint32, size int) any {
	r := rng(seed + uint32(kind)*7919)
	n := func(k int) int { return int(r()>>7) % max(k, 1) }
	alphabet := []rune("abc \"\\/<>&\u2028\u2029\t\n\r\x00\x1f\x7fé漢😀\ufffd{}[]:,0")
	str := func(k int) string {
		var sb strings.Builder
		for range k {
			if n(6) == 0 {
				sb.WriteString(jsPieces[n(len(jsPieces))])
			} else {
				sb.WriteRune(alphabet[n(len(alphabet))])
			}
		}
		return sb.String()
	}
	num := func() any {
		switch n(8) {
		case 0:
			return n(100)
		case 1:
			return -float64(n(1000)) / 7
		case 2:
			return math.MaxFloat64
		case 3:
			return math.SmallestNonzeroFloat64
		case 4:
			return uint64(math.MaxUint64) - uint64(n(3))
		case 5:
			return int64(math.MinInt64) + int64(n(3))
		case 6:
			return float32(n(50)) / 3
		}
		return 1e21 * float64(n(9))
	}
	var tree func(d int) any
	tree = func(d int) any {
		switch k := n(9); {
		case k < 2 && d > 0:
			l := []any{}
			for range n(5) {
				l = append(l, tree(d-1))
			}
			return l
		case k < 5 && d > 0:
			m := map[string]any{}
			for range n(5) {
				m[str(n(4))] = tree(d - 1)
			}
			return m
		case k == 5:
			return nil
		case k == 6:
			return n(2) == 0
		case k == 7:
			return num()
		}
		return str(n(1 + size%30))
	}
	var st func(d int) *jsStruct
	st = func(d int) *jsStruct {
		s := &jsStruct{A: str(n(size + 1)), D: 1, F: []byte(str(n(9))), G: tree(2), H: n(2) == 0, hidden: 4}
		s.ID = n(1000)
		if n(2) == 0 {
			x := str(3)
			s.Name = &x
			s.B = []int64{math.MaxInt64, int64(n(9))}
			y := n(7)
			s.C = map[string]*int{"y": &y, "nil": nil}
			s.E = json.RawMessage(`{"raw": [1, 2 ] }`)
		}
		if d > 0 {
			s.Next = st(d - 1)
		}
		return s
	}
	switch kind {
	case 0:
		return nil
	case 1:
		return n(2) == 0
	case 2:
		return num()
	case 3:
		return str(size)
	case 4:
		return tree(2)
	case 5:
		return tree(5)
	case 6:
		return st(n(3))
	case 7:
		return *st(0)
	case 8:
		return []jsStruct{*st(0), *st(1)}
	case 9:
		return strings.Repeat("0123456789", size*5) // longer than any buffer
	case 10:
		l := []any{}
		for range size * 4 {
			l = append(l, num())
		}
		return l
	case 11:
		return map[int]string{n(9): "int keys", -1: str(size)}
	case 12:
		return jsMarshaler{s: ` { "custom" : [ 1 , "` + strings.Repeat("é", size) + `" ] } `}
	case 13:
		return []any{jsText_{str(n(9))}, json.Number("12345678901234567890.5"), time.Unix(int64(n(1e9)), 0).UTC(), &[]string{str(2)}}
	case 14: // nested deeply
		var v any = n(9)
		for range size * 3 {
			v = []any{v}
		}
		return v
	case 15:
		return "a" + string([]byte{0xff, 0xfe}) + "b" // not UTF-8: the encoder replaces it
	// values that cannot be encoded
	case 16:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[n(3)]
	case 17:
		return map[string]any{"ok": strings.Repeat("x", size*20), "chan": make(chan int)}
	case 18:
		return []any{strings.Repeat("y", size*20), func() {}}
	case 19:
		return []any{str(size), jsMarshaler{err: errors.New("refused")}, 1}
	case 20:
		x := &jsCycle{}
		x.Next = x
		return x
	case 21:
		return []any{strings.Repeat("z", size*20), jsMarshaler{s: []string{``, `{`, `1 2`, `"a`, `nul`}[n(5)]}}
	// values that look encoded already, or have a representation of their own
	case 22:
		return []byte([]string{"", "123", `{"a":1}`, "[]", str(size), "\xff\x00"}[n(6)])
	case 23:
		return json.RawMessage([]string{"null", "123", ` { "a" : 1 } `, "[]", `"` + strings.Repeat("q", size*20) + `"`, "{"}[n(6)])
	case 24:
		return []string{"", "123", `{"a":1}`, "[]", `"x"`, "null"}[n(6)]
	case 25:
		return bytes.NewBufferString(`{"a":1}`)
	case 26:
		return []json.RawMessage{[]byte("1"), []byte(`{"b": "` + strings.Repeat("w", size*9) + `"}`), nil}
	case 27:
		x := str(size)
		return []any{&x, (*string)(nil), new(any), [3]byte{1, 2, 3}, json.Number("7"), errors.New("e")}[n(6)]
	case 28:
		return json.Number([]string{"1", "-0.5e10", "x", "", "1 2"}[n(5)])
	case 29:
		return jsText_{str(size)}
	}
	return nil
}

const intoKinds = 14

func jsTarget(kind int) any {
	seven := 7
	switch kind {
	case 0, 1:
		var v any
		return &v
	case 2:
		return &map[string]any{"before": 1.0}
	case 3:
		return &[]any{"x", "y"}
	case 4:
		return new(string)
	case 5:
		return new(float64)
	case 6:
		return new(int8)
	case 7:
		return &jsStruct{A: "before", C: map[string]*int{"q": &seven}}
	case 8:
		var s *jsStruct
		return &s
	case 9:
		return &[]jsStruct{}
	case 10:
		return &json.RawMessage{}
	case 11:
		return new(bool)
	case 12:
		return jsStruct{} // not a pointer
	case 13:
		return nil
	}
	return nil
}

func jsDoc(o JsOp) []byte {
	v := jsValue(o.Val%16, o.Seed, o.Size)
	d, err := json.Marshal(v)
	if err != nil {
		d = []byte(`"unencodable"`)
	}
	r := rng(o.Seed * 31)
	cut := o.Cut % (len(d) + 1)
	switch o.Mut {
	case 1:
		var b bytes.Buffer
		json.Indent(&b, d, " \t", " \r\n")
		d = append([]byte(" \n\t"), append(b.Bytes(), " \r\n\n\t "...)...)
	case 2:
		d = d[:cut]
	case 3:
		d = append(bytes.Clone(d), []string{"x", "}", "]", " 1", ",", "null", "\"", " {}", "\x00", "\n["}[o.Cut%10]...)
	case 4:
		d = append(append(bytes.Clone(d), '\n'), d...)
	case 5:
		d = []byte([]string{"", " ", "\n", "nul", "tru", "-", "01", "1.", "1e", "1e999", "-0", "\"\\u12\"", "\"\\ud800\"", "\"\\ud83d\\ude00\"", "{\"a\":1,\"a\":2}", "{\"A\":\"case\"}", "\"\t\"", "'a'", "{a:1}", "[1,]", "{,}", "/**/1", "NaN", "\ufeff1", "{\"id\":1e2}", "{\"h\":\"true\",\"f\":\"!!\"}", "[[[[", "12345678901234567890123"}[o.Cut%28])
	case 6: // insert
		d = slices.Concat(d[:cut], []byte{`{}[]:,"\ 0-.etn`[r()>>5%15]}, d[cut:])
	case 7: // delete
		if cut < len(d) {
			d = slices.Concat(d[:cut], d[cut+1:])
		}
	case 8: // replace
		if cut < len(d) {
			d = bytes.Clone(d)
			d[cut] = `{}[]:,"\ 0-.etn`[r()>>5%15]
		}
	case 9: // white space somewhere
		d = slices.Concat(d[:cut], []byte(strings.Repeat(" ", o.Seed2())), d[cut:])
	}
	return []byte(strings.ToValidUTF8(string(d), "?"))
}

// Seed2 is a number of spaces, sometimes more than the decoder's buffer.
func (o JsOp) Seed2() int { return []int{1, 2, 511, 512, 513, 5000}[int(o.Seed)%6] }

func jsGeneric(d []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(d))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if rest := bytes.TrimSpace(d[dec.InputOffset():]); len(rest) > 0 {
		return nil, fmt.Errorf("%q after the value", trunc(rest, 40))
	}
	return v, nil
}

func c26Run(c *core.Case, plan any) {
	p := plan.(*c26Plan)
	ms := time.Millisecond
	if p.Conns < 1 || p.Batch < 1 || p.Batch > 2 {
		return
	}
	const every = 20
	u := snapws.NewUpgrader(&snapws.Options{WriteWait: 10 * time.Second, PingEvery: 900 * time.Hour, ReadWait: 1000 * time.Hour, WriteBufferSize: p.WriteBuf, ReadBufferSize: p.ReadBuf, BroadcastChannelsSize: 64, SkipUTF8Validation: p.SkipUTF8, MaxMessageSize: 1 << 22})
	bctx, bcancel := context.WithCancel(bg)
	c.Cleanup(bcancel)
	if p.Batch == 1 {
		u.EnableJSONBatching(bctx, every*ms)
	} else {
		u.EnablePrefixBatching(bctx, every*ms)
	}
	mgr := snapws.NewManager[int](u)
	rooms := snapws.NewRoomManager[string](u)
	room := rooms.Add("r")
	type jc struct {
		mc   *mem.Conn
		conn *snapws.Conn
		seen int
	}
	var conns []*jc
	for i := range p.Conns {
		k := &jc{mc: mem.New(fmt.Sprint("connection ", i))}
		k.mc.Latency = time.Duration(p.Latency) * ms
		m, err := mgr.Connect(i, newRW(k.mc, OpenOpts{}), goodReq())
		if err != nil {
			c.Violate("upgrade-failed", "Connect failed: %v", err)
			return
		}
		k.conn = m.Conn
		tidy(c, k.conn, k.mc)
		room.Add(k.conn)
		conns = append(conns, k)
	}
	good, refused, multi := false, false, false
	// fresh returns the messages a connection got since the last call
	fresh := func(k *jc) []ref.Msg {
		s := validWire(c, k.mc)
		if s.Open != nil {
			c.Violate("unfinished", "connection %s: an unfinished message is left: %s", k.mc.Name, frameList(s))
			return nil
		}
		if s.CloseAt >= 0 {
			c.Violate("closed", "%s was closed: %s", k.mc.Name, frameList(s))
			return nil
		}
		m := s.Msgs[k.seen:]
		k.seen = len(s.Msgs)
		for _, x := range m {
			multi = multi || x.Frames > 1
		}
		return m
	}
	same := func(what string, got, want []byte) bool {
		g, err := jsGeneric(got)
		if err != nil {
			c.Violate("invalid-json", "%s: what the peer received is not JSON: %v: %s", what, err, trunc(got, 200))
			return false
		}
		w, err := jsGeneric(want)
		if err != nil {
			c.Infra("the standard encoding does not decode: %v", err)
			return false
		}
		if !reflect.DeepEqual(g, w) {
			c.Violate("different-value", "%s: the peer received a value that differs from the standard encoding: %s", what, diff(got, want))
			return false
		}
		return true
	}
	for i, o := range p.Ops {
		if o.I >= len(conns) {
			continue
		}
		k := conns[o.I]
		what := fmt.Sprintf("operation %d (%s)", i, []string{"SendJSON", "concurrent SendJSON", "Room.BroadcastJSON", "Manager.BroadcastJSON", "BatchJSON", "Room.BatchBroadcastJSON", "Manager.BatchBroadcastJSON", "ReadJSON", "SendString"}[o.K])
		v := jsValue(o.Val, o.Seed, o.Size)
		std, stdErr := json.Marshal(v)
		var ctx context.Context
		if o.K == jsSend && o.Ctx == 2 {
			o.Ctx = 0 // may be sent in part and end the connection; C13 judges that
		}
		switch o.Ctx {
		case 0:
			ctx = bg
		case 2:
			x, cancel := context.WithCancel(bg)
			cancel()
			ctx = x
		}
		if o.K == jsRead {
			if o.Into < 0 || o.Into >= intoKinds {
				continue
			}
			doc := jsDoc(o)
			m := cutBytes(doc, o.Cuts)
			var fs []ref.Frame
			for j, part := range m {
				f := ref.Frame{Op: ref.Cont, Key: key(o.Seed + uint32(j)), Payload: part, Fin: j == len(m)-1}
				if j == 0 {
					f.Op = ref.Text
					if o.Bin {
						f.Op = ref.Binary
					}
				} else if o.Ping {
					fs = append(fs, ref.Frame{Fin: true, Op: ref.Ping, Key: key(o.Seed), Payload: []byte("p")})
				}
				fs = append(fs, f)
			}
			multi = multi || len(m) > 1
			chunked(k.mc, encode(fs), o.Chk)
			got, want := jsTarget(o.Into), jsTarget(o.Into)
			var err error
			if !c.Must("hang", what, time.Minute, func() { err = k.conn.ReadJSON(got) }) {
				return
			}
			werr := json.Unmarshal(doc, want)
			switch {
			case isFatal(err):
				c.Violate("fatal", "%s of %s failed fatally: %v", what, trunc(doc, 100), err)
				return
			case o.Bin:
				refused = true
				if !errors.Is(err, snapws.ErrMessageTypeMismatch) {
					c.Violate("binary", "%s of a binary message returned %v", what, err)
					return
				}
			case werr != nil:
				refused = true
				if err == nil {
					c.Violate("invalid-accepted", "%s into %T accepted %s; the standard decoder says: %v", what, got, trunc(doc, 200), werr)
					return
				}
			case err != nil:
				c.Violate("valid-refused", "%s into %T of %s failed: %v", what, got, trunc(doc, 200), err)
				return
			case !reflect.DeepEqual(got, want):
				c.Violate("decoded-differently", "%s into %T of %s stored %s instead of %s", what, got, trunc(doc, 200), trunc(fmt.Appendf(nil, "%+v", reflect.ValueOf(got).Elem()), 200), trunc(fmt.Appendf(nil, "%+v", reflect.ValueOf(want).Elem()), 200))
				return
			default:
				good = true
			}
			continue
		}
		n, err := 0, error(nil)
		values := [][]byte{std}
		lim := 30 * time.Minute
		ok := true
		switch o.K {
		case jsSend:
			ok = c.Must("hang", what, lim, func() { err = k.conn.SendJSON(ctx, v) })
		case jsSendConc:
			if stdErr != nil || o.Ctx == 2 {
				o.Ctx = 0
				ctx = bg
			}
			values = nil
			var ops []*core.Op
			for j := range 3 {
				v := jsValue((o.Val+5*j)%valKinds, o.Seed+uint32(j), o.Size)
				std, stdErr := json.Marshal(v)
				if stdErr == nil {
					values = append(values, std)
				}
				ops = append(ops, c.Go(what, func() {
					if err := k.conn.SendJSON(ctx, v); (err == nil) != (stdErr == nil) || isFatal(err) {
						c.Violate("concurrent", "%s returned %v; the standard encoder: %v", what, err, stdErr)
					}
				}))
			}
			for _, x := range ops {
				if !x.Wait(lim) {
					c.Violate("hang", "%s hangs", what)
					return
				}
			}
		case jsRoom:
			ok = c.Must("hang", what, lim, func() { n, err = room.BroadcastJSON(ctx, v) })
		case jsManager:
			ok = c.Must("hang", what, lim, func() { n, err = mgr.BroadcastJSON(ctx, v) })
		case jsBatch:
			ok = c.Must("hang", what, lim, func() { err = k.conn.BatchJSON(v) })
		case jsRoomBatch:
			ok = c.Must("hang", what, lim, func() { n, err = room.BatchBroadcastJSON(ctx, v) })
		case jsManagerBatch:
			ok = c.Must("hang", what, lim, func() { n, err = mgr.BatchBroadcastJSON(ctx, v) })
		case jsText:
			d := Pay{N: o.Size, Seed: o.Seed}.Text()
			ok = c.Must("hang", what, lim, func() { err = k.conn.SendString(bg, d) })
			values, stdErr, o.Ctx = [][]byte{d}, nil, 0
		}
		if !ok || c.Failed() {
			return
		}
		if isFatal(err) {
			c.Violate("fatal", "%s of a %T failed fatally: %v", what, v, err)
			return
		}
		ctxDone := o.Ctx == 2 && o.K != jsBatch
		if o.K != jsSendConc {
			if stdErr != nil {
				refused = true
				if err == nil {
					c.Violate("unencodable-accepted", "%s of a %T returned no error; the standard encoder: %v", what, v, stdErr)
					return
				}
				if n != 0 {
					c.Violate("unencodable-counted", "%s of a %T that cannot be encoded returned %d", what, v, n)
				}
				values = nil
			} else if err != nil && !ctxDone {
				c.Violate("encodable-refused", "%s of a %T failed: %v", what, v, err)
				return
			}
		}
		good = good || len(values) > 0 && err == nil
		for _, x := range conns {
			settle(x.mc, 3*every*ms)
		}
		for j, x := range conns {
			got := fresh(x)
			if c.Failed() {
				return
			}
			var want [][]byte
			if o.K == jsRoom || o.K == jsManager || o.K == jsRoomBatch || o.K == jsManagerBatch || x == k {
				want = values
			}
			batch := o.K == jsBatch || o.K == jsRoomBatch || o.K == jsManagerBatch
			if ctxDone && len(got) == 0 {
				want = nil // the broadcast may have ended before it reached this one
			}
			var els [][]byte
			for _, m := range got {
				if batch {
					e, msg := decodeBatch(p.Batch, m.Data)
					if msg != "" {
						c.Violate("broken-batch", "%s: connection %d received a broken batch: %s", what, j, msg)
						return
					}
					els = append(els, e...)
				} else {
					if m.Op != ref.Text {
						c.Violate("not-text", "%s: connection %d received a %s message", what, j, opName(m.Op))
						return
					}
					els = append(els, m.Data)
				}
			}
			if len(els) != len(want) {
				c.Violate("count", "%s of a %T (standard encoder: %v) returned (%d, %v): connection %d received %d values instead of %d", what, v, stdErr, n, err, j, len(els), len(want))
				return
			}
			if o.K == jsText {
				if len(want) == 1 && !bytes.Equal(els[0], want[0]) {
					c.Violate("text", "%s: %s", what, diff(els[0], want[0]))
				}
				continue
			}
			if o.K == jsSendConc {
				for _, e := range els {
					g, err := jsGeneric(e)
					at := slices.IndexFunc(want, func(w []byte) bool { x, _ := jsGeneric(w); return reflect.DeepEqual(x, g) })
					if err != nil || at < 0 {
						c.Violate("concurrent", "%s: the peer received %s, which is none of the values sent", what, trunc(e, 200))
						return
					}
					want = slices.Delete(slices.Clone(want), at, at+1)
				}
				continue
			}
			for l := range els {
				if !same(fmt.Sprintf("%s of a %T, connection %d", what, v, j), els[l], want[l]) {
					return
				}
			}
		}
	}
	if good && refused || multi {
		c.NonTrivial()
	}
	c.ClassIf(multi, "several frames")
	c.ClassIf(refused, "refused")
}
