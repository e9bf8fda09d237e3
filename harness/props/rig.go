// Package props holds one check per property.
package props

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"slices"
	"strings"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

var bg = context.Background()

const (
	forever = 2000 * time.Hour // virtual: a call that has not returned by then never will
	sampleK = "dGhlIHNhbXBsZSBub25jZQ=="
)

// ------------------------------------------------------------ payloads

// Pay describes payload bytes as data.
type Pay struct {
	N    int    `json:"n"`
	Seed uint32 `json:"s,omitempty"`
}

func rng(seed uint32) func() uint32 {
	x := uint64(seed)*0x9E3779B97F4A7C15 + 0x1234567
	return func() uint32 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return uint32(x >> 16)
	}
}

// Bytes is the binary form.
func (p Pay) Bytes() []byte {
	b := make([]byte, p.N)
	r := rng(p.Seed)
	for i := range b {
		b[i] = byte(r())
	}
	return b
}

var runes = []string{"a", "Z", "0", " ", "\n", "\"", "\\", "é", "ß", "\u07ff", "ह", "\u0800", "\ud7ff", "\ue000", "\uffff", "\ufffd", "\ufeff", "\u2028", "\x1b", "\u0085", "😀", "\U00010000", "\U0010ffff", "\x00", "\x7f"}

// Text is valid UTF-8 of exactly N bytes.
func (p Pay) Text() []byte {
	b := make([]byte, 0, p.N)
	r := rng(p.Seed)
	for len(b) < p.N {
		s := runes[r()%uint32(len(runes))]
		if len(b)+len(s) > p.N {
			s = "x"
		}
		b = append(b, s...)
	}
	return b
}

func (p Pay) Of(text bool) []byte {
	if text {
		return p.Text()
	}
	return p.Bytes()
}

var edgeLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 135, 136, 137, 139, 140, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4080, 4081, 4082, 4083, 4091, 4092, 4093, 4095, 4096, 4097, 4109, 4110, 4111, 8163, 8164, 8165, 8192}
var bigLens = []int{65530, 65534, 65535, 65536, 65537, 65540, 65550, 131071, 131072, 131073, 200000}

// genLen draws a payload length up to max.
func genLen(t *rapid.T, name string, max int) int {
	k := rapid.IntRange(0, 19).Draw(t, name+"K")
	n := 0
	switch {
	case k < 6:
		n = rapid.IntRange(0, 20).Draw(t, name)
	case k < 11:
		n = rapid.SampledFrom(edgeLens).Draw(t, name)
	case k < 15:
		n = rapid.IntRange(0, 300).Draw(t, name)
	case k < 19:
		n = rapid.IntRange(0, 9000).Draw(t, name)
	default:
		n = rapid.SampledFrom(bigLens).Draw(t, name)
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

func genSeed(t *rapid.T) uint32 { return uint32(rapid.IntRange(0, 9999).Draw(t, "seed")) }

func genPay(t *rapid.T, max int) Pay { return Pay{N: genLen(t, "len", max), Seed: genSeed(t)} }

func pick[T any](t *rapid.T, name string, v ...T) T { return rapid.SampledFrom(v).Draw(t, name) }

func chance(t *rapid.T, name string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-percent // shrinks to false
}

func intn(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// ------------------------------------------------------------ client input

// Ctl is a control frame placed before fragment At of a message (At equal to
// the number of fragments: after it).
type Ctl struct {
	At   int    `json:"at,omitempty"`
	Op   int    `json:"op"`
	N    int    `json:"n,omitempty"`
	Seed uint32 `json:"s,omitempty"`
}

func (c Ctl) payload() []byte { return Pay{c.N, c.Seed}.Bytes() }

func (c Ctl) frame() ref.Frame {
	return ref.Frame{Fin: true, Op: c.Op, Key: key(c.Seed + 77), Payload: c.payload()}
}

// InMsg is one client message.
type InMsg struct {
	Text bool   `json:"text,omitempty"`
	Pay  Pay    `json:"pay"`
	Cuts []int  `json:"cuts,omitempty"` // fragment boundaries (offsets, taken modulo)
	Ctls []Ctl  `json:"ctls,omitempty"`
	Key  uint32 `json:"key,omitempty"`
	// Every cuts the payload into fragments of that many bytes instead of at Cuts.
	Every int `json:"every,omitempty"`
}

func key(seed uint32) (k [4]byte) {
	if seed%7 == 0 {
		return // the all-zero key is legal
	}
	r := rng(seed ^ 0xabcdef)
	for i := range k {
		k[i] = byte(r())
	}
	return
}

func (m InMsg) op() int {
	if m.Text {
		return ref.Text
	}
	return ref.Binary
}

func (m InMsg) data() []byte { return m.Pay.Of(m.Text) }

// frags cuts the payload.
func (m InMsg) frags() [][]byte {
	if m.Every <= 0 {
		return cutBytes(m.data(), m.Cuts)
	}
	var out [][]byte
	for d := range slices.Chunk(m.data(), m.Every) {
		out = append(out, d)
	}
	return out
}

func cutBytes(d []byte, cuts []int) [][]byte {
	offs := []int{0}
	for _, c := range cuts {
		if c < 0 {
			c = -c
		}
		offs = append(offs, c%(len(d)+1))
	}
	for i := 1; i < len(offs); i++ { // insertion sort
		for j := i; j > 0 && offs[j] < offs[j-1]; j-- {
			offs[j], offs[j-1] = offs[j-1], offs[j]
		}
	}
	var out [][]byte
	for i, o := range offs {
		e := len(d)
		if i+1 < len(offs) {
			e = offs[i+1]
		}
		out = append(out, d[o:e])
	}
	return out
}

// frames is the message with its control frames.
func (m InMsg) frames() []ref.Frame {
	fr := m.frags()
	var out []ref.Frame
	for i := 0; i <= len(fr); i++ {
		for _, c := range m.Ctls {
			if min(c.At, len(fr)) == i {
				out = append(out, c.frame())
			}
		}
		if i < len(fr) {
			op := ref.Cont
			if i == 0 {
				op = m.op()
			}
			out = append(out, ref.Frame{Fin: i == len(fr)-1, Op: op, Key: key(m.Key + uint32(i)), Payload: fr[i]})
		}
	}
	return out
}

func encode(fs []ref.Frame) []byte {
	var b []byte
	for i := range fs {
		b = fs[i].Encode(b)
	}
	return b
}

func genCtl(t *rapid.T, maxAt int, ops ...int) Ctl {
	return Ctl{
		At: intn(t, "at", 0, maxAt),
		Op: rapid.SampledFrom(ops).Draw(t, "ctlop"),
		N:  pick(t, "ctln", 0, 1, 2, 4, 5, 17, 63, 124, 125), Seed: genSeed(t),
	}
}

func genInMsg(t *rapid.T, maxLen int, ctlOps ...int) InMsg {
	m := InMsg{Text: rapid.Bool().Draw(t, "text"), Pay: genPay(t, maxLen), Key: genSeed(t)}
	if chance(t, "frag", 60) {
		n := pick(t, "ncuts", 1, 1, 2, 3, 5, 9)
		for range n {
			m.Cuts = append(m.Cuts, pick(t, "cut", 0, 1, 2, 3, m.Pay.N, m.Pay.N-1+1, intn(t, "cutAt", 0, m.Pay.N)))
		}
	}
	if len(ctlOps) > 0 && chance(t, "hasCtl", 50) {
		for range intn(t, "nctl", 1, 3) {
			m.Ctls = append(m.Ctls, genCtl(t, len(m.Cuts)+1, ctlOps...))
		}
	}
	return m
}

// genChunks draws a cycle of network read sizes.
func genChunks(t *rapid.T) []int {
	switch intn(t, "chunkKind", 0, 4) {
	case 0:
		return nil // all at once
	case 1:
		return []int{1}
	case 2:
		return []int{pick(t, "chunk", 2, 3, 5, 7, 13, 14, 16, 100, 125, 128, 512, 1000, 4096, 4097)}
	}
	return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 4, 6, 8, 10, 14, 50, 127, 1000, 5000}), 1, 6).Draw(t, "chunks")
}

// chunked feeds b in pieces.
func chunked(mc *mem.Conn, b []byte, chunks []int) {
	if len(chunks) == 1 && chunks[0] == 1 && len(b) > 20000 {
		chunks = []int{1, 997} // bound the number of pieces
	}
	var pieces [][]byte
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(chunks) > 0 {
			n = min(n, max(1, chunks[i%len(chunks)]))
		}
		pieces = append(pieces, b[:n])
		b = b[n:]
	}
	mc.FeedPieces(pieces)
}

// ------------------------------------------------------------ connections

// fakeRW is the http.ResponseWriter of one request.
type fakeRW struct {
	hdr      http.Header
	code     int
	body     bytes.Buffer
	mc       *mem.Conn
	brSize   int
	bwSize   int
	prebuf   int
	hijacked int
	failHij  error
	expired  bool // hand over a connection whose deadlines have passed
	br       *bufio.Reader
}

// wrapRW is a ResponseWriter as logging or metrics middlewares wrap it.
type wrapRW struct{ http.ResponseWriter }

func (w wrapRW) Unwrap() http.ResponseWriter { return w.ResponseWriter }

func (w *fakeRW) Header() http.Header { return w.hdr }
func (w *fakeRW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *fakeRW) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	return w.body.Write(b)
}
func (w *fakeRW) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if w.failHij != nil {
		return nil, nil, w.failHij
	}
	w.hijacked++
	if w.brSize <= 0 {
		w.brSize = 4096
	}
	if w.bwSize <= 0 {
		w.bwSize = 4096
	}
	br := bufio.NewReaderSize(w.mc, w.brSize)
	if w.prebuf > 0 {
		br.Peek(min(w.prebuf, br.Size())) // the bytes must have been fed
	}
	w.br = br
	if w.expired {
		w.mc.SetDeadline(time.Now().Add(-time.Second))
	}
	return w.mc, bufio.NewReadWriter(br, bufio.NewWriterSize(w.mc, w.bwSize)), nil
}

// goodReq is a plain valid request.
func goodReq(extra ...string) *http.Request {
	s := "GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + sampleK + "\r\n" + strings.Join(extra, "") + "\r\n"
	r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(s)))
	if err != nil {
		panic(err)
	}
	return r
}

// OpenOpts describes how the HTTP server hands the connection over.
type OpenOpts struct {
	Br     int `json:"br,omitempty"` // size of the server's reader
	Bw     int `json:"bw,omitempty"`
	Prebuf int `json:"pre,omitempty"`
}

func newRW(mc *mem.Conn, o OpenOpts) *fakeRW {
	return &fakeRW{hdr: http.Header{}, mc: mc, brSize: o.Br, bwSize: o.Bw, prebuf: o.Prebuf}
}

// open upgrades a connection over mc; nil after recording a violation.
func open(c *core.Case, u *snapws.Upgrader, mc *mem.Conn, o OpenOpts) *snapws.Conn {
	var conn *snapws.Conn
	var err error
	if !c.Must("hang", "Upgrade", time.Hour, func() { conn, err = u.Upgrade(newRW(mc, o), goodReq()) }) {
		return nil
	}
	if err != nil || conn == nil {
		c.Violate("upgrade-failed", "Upgrade of a valid request over a working transport failed: %v", err)
		return nil
	}
	tidy(c, conn, mc)
	return conn
}

// tidy ends the connection when the case is over.
func tidy(c *core.Case, conn *snapws.Conn, mc *mem.Conn) {
	c.Cleanup(func() {
		mc.Kill()
		conn.Close()
	})
}

// headLen is the length of the 101 response at the start of b (-1: incomplete).
func headLen(b []byte) int {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return -1
	}
	return i + 4
}

// wire parses what the peer received after the 101 response.
func wire(mc *mem.Conn) *ref.Stream {
	b := mc.Out()
	h := headLen(b)
	if h < 0 {
		return &ref.Stream{CloseAt: -1, Err: fmt.Sprintf("no complete handshake response: %q", trunc(b, 200))}
	}
	return ref.ParseServer(b[h:])
}

// validWire records a violation unless the peer received a valid stream.
func validWire(c *core.Case, mc *mem.Conn) *ref.Stream {
	s := wire(mc)
	if s.Err != "" {
		c.Violate("invalid-stream", "%s: the peer received an invalid frame stream: %s; frames: %s", mc.Name, s.Err, frameList(s))
	}
	if mc.Runaway.Load() {
		c.Violate("runaway", "the library wrote more than %d bytes", mc.MaxOut)
	}
	return s
}

func frameList(s *ref.Stream) string {
	var sb strings.Builder
	for i, f := range s.Frames {
		if i > 30 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " [op %d fin %v len %d]", f.Op, f.Fin, len(f.Payload))
	}
	return sb.String()
}

func trunc(b []byte, n int) string {
	if len(b) > n {
		return fmt.Sprintf("%q... (%d bytes)", b[:n], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("got %d bytes, want %d; first difference at %d: got ..%x, want ..%x", len(got), len(want), i,
		got[min(lo, len(got)):min(len(got), i+8)], want[min(lo, len(want)):min(len(want), i+8)])
}

func isFatal(err error) bool { return snapws.IsFatalErr(err) }

// readAll is io.ReadAll bounded against readers that never make progress.
func streamRead(r io.Reader, sizes []int, maxBytes int) (data []byte, err error) {
	idle := 0
	for i := 0; ; i++ {
		n := 512
		if len(sizes) > 0 {
			n = max(1, sizes[i%len(sizes)])
		}
		p := make([]byte, n)
		k, err := r.Read(p)
		if k < 0 || k > len(p) {
			return data, fmt.Errorf("harness: Read returned count %d for a buffer of %d", k, n)
		}
		data = append(data, p[:k]...)
		if err != nil {
			return data, err
		}
		if k == 0 {
			idle++
			if idle > 100000 {
				return data, fmt.Errorf("harness: reader makes no progress")
			}
		} else {
			idle = 0
		}
		if len(data) > maxBytes {
			return data, fmt.Errorf("harness: reader returned more than %d bytes", maxBytes)
		}
	}
}

func opName(op int) string {
	switch op {
	case ref.Text:
		return "text"
	case ref.Binary:
		return "binary"
	}
	return fmt.Sprint("opcode ", op)
}

// settle waits until nothing more is being written.
func settle(mc *mem.Conn, quiet time.Duration) {
	for range 1000 {
		n, k := mc.OutLen(), mc.WriteCalls()
		time.Sleep(quiet)
		if mc.OutLen() == n && mc.WriteCalls() == k {
			break
		}
	}
	synctest.Wait()
}

// keyName is the key of number i: number 0 has the zero value of its type.
func keyName(prefix string, i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprint(prefix, i)
}
