package props

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"net/http"
	"strings"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/mem"
)

// Hdr is one header line.
type Hdr struct {
	Name  string `json:"n"`
	Value string `json:"v"`
}

type c14Plan struct {
	Method    string   `json:"method"`
	Hdrs      []Hdr    `json:"hdrs"`
	Protos    []string `json:"protos,omitempty"`
	NilProtos bool     `json:"nilprotos,omitempty"`
	RejectRaw bool     `json:"rejectraw,omitempty"`
	NoPool    bool     `json:"nopool,omitempty"`
	BufW      int      `json:"bufw,omitempty"`
}

func recase(t *rapid.T, s string) string {
	switch intn(t, "case", 0, 3) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i := range b {
		if rapid.Bool().Draw(t, "up") {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

// list renders tokens as one or several header lines.
func list(t *rapid.T, name string, toks []string) (out []Hdr) {
	cur := ""
	n := 0
	flush := func() { out = append(out, Hdr{recase(t, name), cur}); cur, n = "", 0 }
	for i, k := range toks {
		if n > 0 {
			cur += pick(t, "sep", ",", ", ", " ,", " , ", ",\t", ",,", ", ,")
		}
		cur += k
		n++
		if i+1 < len(toks) && chance(t, "newline", 30) {
			flush()
		}
	}
	if n > 0 || len(toks) == 0 && chance(t, "emptyline", 30) {
		if chance(t, "pad", 15) {
			cur = pick(t, "padding", " ", "\t", ",", ", ") + cur + pick(t, "padding2", " ", ",", "")
		}
		flush()
	}
	return
}

func init() {
	core.Register(&core.Prop{
		ID:  "C14",
		New: func() any { return &c14Plan{} },
		Gen: func(t *rapid.T) any {
			p := &c14Plan{Method: "GET", NoPool: chance(t, "nopool", 20), BufW: pick(t, "bufw", 0, 0, 16, 64, 256)}
			// few things go wrong at once
			wrong := func(name string) bool { return chance(t, name, 12) }
			if wrong("method") {
				p.Method = pick(t, "methodV", "POST", "HEAD", "PUT", "OPTIONS", "DELETE", "PATCH", "CONNECT", "get", "GETT", "FOO")
			}
			var hs [][]Hdr
			up := []string{recase(t, "websocket")}
			if wrong("upgrade") {
				up = pick(t, "upgradeV", nil, []string{""}, []string{"websockets"}, []string{"web socket"}, []string{"h2c"}, []string{"xwebsocket"}, []string{"websocket-x", "h2c"}, []string{"websocke"}, []string{"\"websocket\""}, []string{"web", "socket"})
			} else {
				for range pick(t, "upx", 0, 0, 1, 2) {
					up = insertAt(t, up, pick(t, "upo", "h2c", "TLS/1.0", "foo", "websocketx", "IRC/6.9"))
				}
			}
			hs = append(hs, list(t, "Upgrade", up))
			cn := []string{recase(t, "Upgrade")}
			if wrong("connection") {
				cn = pick(t, "connectionV", nil, []string{""}, []string{"keep-alive"}, []string{"close"}, []string{"upgrades"}, []string{"up grade"}, []string{"keep-alive upgrade"}, []string{"upgrade-insecure"}, []string{"up", "grade"}, []string{"websocket"})
			} else {
				for range pick(t, "cnx", 0, 0, 1, 2) {
					cn = insertAt(t, cn, pick(t, "cno", "keep-alive", "Keep-Alive", "close", "te", "upgradex"))
				}
			}
			hs = append(hs, list(t, "Connection", cn))
			ver := []Hdr{{recase(t, "Sec-WebSocket-Version"), "13"}}
			if wrong("version") {
				ver = nil
				if v := pick(t, "versionV", "none", "", "12", "8", "0", "14", "1", "3", "013", "13.0", "130", "113", "+13", "13a", "x13", "0xd", "thirteen", "1 3"); v != "none" {
					ver = []Hdr{{"Sec-WebSocket-Version", v}}
				}
			}
			hs = append(hs, ver)
			raw := Pay{16, genSeed(t)}.Bytes()
			k := base64.StdEncoding.EncodeToString(raw)
			keyh := []Hdr{{recase(t, "Sec-WebSocket-Key"), k}}
			if wrong("key") {
				bad := "none"
				switch intn(t, "keyV", 0, 12) {
				case 1:
					bad = ""
				case 2:
					bad = base64.StdEncoding.EncodeToString(raw[:15])
				case 3:
					bad = base64.StdEncoding.EncodeToString(append(raw, 1))
				case 4:
					bad = base64.StdEncoding.EncodeToString(raw[:intn(t, "kl", 0, 15)])
				case 5:
					bad = strings.TrimRight(k, "=")
				case 6:
					bad = k + "="
				case 7:
					bad = "!" + k[1:]
				case 8:
					bad = k[:10] + " " + k[10:]
				case 9:
					bad = base64.StdEncoding.EncodeToString(Pay{intn(t, "kl2", 17, 60), 3}.Bytes())
				case 10:
					bad = base64.URLEncoding.EncodeToString([]byte{255, 254, 253, 252, 251, 250, 255, 254, 253, 252, 251, 250, 255, 255, 255, 255})
				case 11:
					bad = strings.Repeat("A", 22)
				case 12:
					bad = fmt.Sprintf("%x", raw)
				}
				keyh = nil
				if bad != "none" {
					keyh = []Hdr{{"Sec-WebSocket-Key", bad}}
				}
			}
			hs = append(hs, keyh)
			names := []string{"chat", "chat2", "v1.json", "CHAT", "a", "superchat", "graphql-ws"}
			var offer []string
			for range pick(t, "noffer", 0, 0, 1, 2, 3, 5) {
				offer = append(offer, rapid.SampledFrom(names).Draw(t, "proto"))
			}
			if len(offer) > 0 {
				hs = append(hs, list(t, "Sec-WebSocket-Protocol", offer))
			}
			for range pick(t, "nserver", 0, 1, 2, 3) {
				p.Protos = append(p.Protos, rapid.SampledFrom(names).Draw(t, "sproto"))
			}
			p.NilProtos = len(p.Protos) == 0 && rapid.Bool().Draw(t, "nilprotos")
			p.RejectRaw = chance(t, "rejectraw", 35)
			for range pick(t, "nother", 0, 0, 1, 2) {
				hs = append(hs, []Hdr{{pick(t, "oname", "User-Agent", "Origin", "Cookie", "X-Upgrade", "Sec-WebSocket-Extensions", "Accept"), pick(t, "oval", "x", "websocket", "permessage-deflate", "upgrade, 13")}})
			}
			for len(hs) > 0 { // any order of the headers
				i := 0
				if len(hs) > 1 {
					i = intn(t, "order", 0, len(hs)-1)
				}
				p.Hdrs = append(p.Hdrs, hs[i]...)
				hs = append(hs[:i], hs[i+1:]...)
			}
			return p
		},
		Run:      c14Run,
		Quick:    200000,
		Thorough: 3000000,
		Rule:     "requests as text (methods, token lists in any case, spacing, order and split over header lines, versions, keys of every wrong shape, subprotocol offers) parsed by net/http, against generated server subprotocols and RejectRaw; non-trivial: the request is refused, or lists, repeated lines or subprotocols are present",
	})
}

func insertAt(t *rapid.T, s []string, x string) []string {
	i := intn(t, "ins", 0, len(s))
	return append(s[:i:i], append([]string{x}, s[i:]...)...)
}

// tokens are the elements of a header list, over all its lines.
func tokens(hs []Hdr, name string) (out []string, any bool) {
	for _, h := range hs {
		if strings.EqualFold(h.Name, name) {
			any = true
			for _, f := range strings.Split(h.Value, ",") {
				if f = strings.Trim(f, " \t"); f != "" {
					out = append(out, f)
				}
			}
		}
	}
	return
}

func hasToken(hs []Hdr, name, tok string) bool {
	l, _ := tokens(hs, name)
	for _, x := range l {
		if strings.EqualFold(x, tok) {
			return true
		}
	}
	return false
}

func single(hs []Hdr, name string) string {
	for _, h := range hs {
		if strings.EqualFold(h.Name, name) {
			return strings.Trim(h.Value, " \t")
		}
	}
	return ""
}

// accept decides, independently of the library, whether the request is valid.
func (p *c14Plan) accept() (ok bool, why, proto string) {
	switch {
	case p.Method != "GET":
		return false, "method", ""
	case !hasToken(p.Hdrs, "Upgrade", "websocket"):
		return false, "upgrade", ""
	case !hasToken(p.Hdrs, "Connection", "upgrade"):
		return false, "connection", ""
	case single(p.Hdrs, "Sec-WebSocket-Version") != "13":
		return false, "version", ""
	}
	k := single(p.Hdrs, "Sec-WebSocket-Key")
	if len(k) != 24 || !strings.HasSuffix(k, "==") {
		return false, "key", ""
	}
	if b, err := base64.StdEncoding.DecodeString(k); err != nil || len(b) != 16 {
		return false, "key", ""
	}
	offer, _ := tokens(p.Hdrs, "Sec-WebSocket-Protocol")
	for _, o := range offer {
		for _, s := range p.Protos {
			if o == s {
				return true, "", o
			}
		}
	}
	if p.RejectRaw {
		return false, "subprotocol", ""
	}
	return true, "", ""
}

func (p *c14Plan) request() (*http.Request, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "%s /path?q=1 HTTP/1.1\r\nHost: example.com\r\n", p.Method)
	for _, h := range p.Hdrs {
		fmt.Fprintf(&b, "%s: %s\r\n", h.Name, h.Value)
	}
	b.WriteString("\r\n")
	return http.ReadRequest(bufio.NewReader(strings.NewReader(b.String())))
}

func c14Run(c *core.Case, plan any) {
	p := plan.(*c14Plan)
	req, err := p.request()
	if err != nil {
		c.Class("not-http") // net/http refuses it before the library sees it
		return
	}
	opts := &snapws.Options{SubProtocols: p.Protos, RejectRaw: p.RejectRaw, DisableWriteBuffersPooling: p.NoPool}
	if !p.NilProtos && p.Protos == nil {
		opts.SubProtocols = []string{}
	}
	connects := 0
	opts.OnConnect = func(*snapws.Conn) { connects++ }
	u := snapws.NewUpgrader(opts)
	mc := mem.New("c")
	rw := newRW(mc, OpenOpts{Bw: p.BufW})
	var conn *snapws.Conn
	if !c.Must("hang", "Upgrade", time.Hour, func() { conn, err = u.Upgrade(rw, req) }) {
		return
	}
	if conn != nil {
		tidy(c, conn, mc)
	}
	ok, why, proto := p.accept()
	for _, n := range []string{"Upgrade", "Connection", "Sec-WebSocket-Protocol"} {
		lines := 0
		for _, h := range p.Hdrs {
			if strings.EqualFold(h.Name, n) {
				lines++
			}
		}
		l, _ := tokens(p.Hdrs, n)
		if lines > 1 {
			c.Class("repeated-lines")
		}
		if lines > 1 || len(l) > 1 || !ok || proto != "" {
			c.NonTrivial()
		}
	}
	if !ok {
		c.Class("refused-" + why)
		if err == nil || conn != nil {
			c.Violate("accepted", "a request with an invalid %s was upgraded", why)
			return
		}
		if rw.hijacked > 0 || mc.OutLen() > 0 {
			c.Violate("taken-over", "the connection of a refused request (%s) was taken over", why)
		}
		if rw.code < 400 || rw.code > 599 {
			c.Violate("status", "a request refused for its %s was answered with status %d", why, rw.code)
		}
		if connects > 0 {
			c.Violate("connect-hook", "OnConnect ran for a refused request")
		}
		return
	}
	c.Class("accepted")
	c.ClassIf(proto != "", "subprotocol")
	if err != nil || conn == nil {
		c.Violate("refused", "a valid request was refused: %v (status %d)", err, rw.code)
		return
	}
	if rw.code != 0 {
		c.Violate("status", "an HTTP response with status %d was written besides the upgrade", rw.code)
	}
	out := mc.Out()
	h := headLen(out)
	if h != len(out) {
		c.Violate("response", "response is %s", trunc(out, 300))
		return
	}
	resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(out)), req)
	if err != nil {
		c.Violate("response", "response cannot be parsed (%v): %s", err, trunc(out, 300))
		return
	}
	sum := sha1.Sum([]byte(single(p.Hdrs, "Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	want := base64.StdEncoding.EncodeToString(sum[:])
	if resp.StatusCode != 101 || resp.Proto != "HTTP/1.1" {
		c.Violate("response", "status line %s %s", resp.Proto, resp.Status)
	}
	if v := resp.Header.Values("Sec-WebSocket-Accept"); len(v) != 1 || v[0] != want {
		c.Violate("accept-value", "Sec-WebSocket-Accept is %q, want %q", v, want)
	}
	if v := resp.Header.Values("Upgrade"); len(v) != 1 || !strings.EqualFold(v[0], "websocket") {
		c.Violate("response", "Upgrade is %q", v)
	}
	if v := resp.Header.Values("Connection"); len(v) != 1 || !strings.EqualFold(v[0], "upgrade") {
		c.Violate("response", "Connection is %q", v)
	}
	if v := resp.Header.Values("Sec-WebSocket-Protocol"); proto == "" && len(v) != 0 || proto != "" && (len(v) != 1 || v[0] != proto) {
		c.Violate("subprotocol", "Sec-WebSocket-Protocol is %q, want %q", v, proto)
	}
	if v := resp.Header.Values("Sec-WebSocket-Extensions"); len(v) != 0 {
		c.Violate("response", "extensions %q were negotiated", v)
	}
	if conn.SubProtocol != proto {
		c.Violate("subprotocol", "Conn.SubProtocol is %q, want %q", conn.SubProtocol, proto)
	}
	if connects != 1 {
		c.Violate("connect-hook", "OnConnect ran %d times", connects)
	}
}
