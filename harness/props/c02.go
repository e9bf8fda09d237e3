package props

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:   "C02",
		New:  func() any { return &inPlan{} },
		Gen:  func(t *rapid.T) any { return genMalformed(t) },
		Enum: enumHeaders,
		Run: func(c *core.Case, plan any) {
			p := plan.(*inPlan)
			v := runInbound(c, p)
			c.Class("end:" + v.End)
			if v.End == ref.EndViol {
				c.Class("viol:" + strings.TrimSuffix(strings.TrimSpace(strings.SplitN(v.Why, ";", 2)[0]), ";"))
			}
			if v.End == ref.EndViol || v.End == ref.EndTrunc {
				c.NonTrivial()
			}
		},
		Quick:    150000,
		Thorough: 2000000,
		Rule:     "byte streams of valid messages with one broken frame (every rule, also two at once, inside and outside a fragmented message), byte-level mutations (set, flip, delete, insert, duplicate, truncate) and random bytes; plus every first header byte with the interesting second bytes inside and outside a message (thorough: all 65536 headers); non-trivial: the stream breaks the protocol or is cut off",
	})
}

// enumHeaders: every header, idle and inside a fragmented message.
func enumHeaders(thorough bool) []any {
	second := []int{0, 1, 2, 3, 125, 126, 127, 128, 129, 130, 131, 253, 254, 255}
	var out []any
	for b0 := range 256 {
		for b1 := range 256 {
			if !thorough {
				in := false
				for _, s := range second {
					in = in || s == b1
				}
				if !in {
					continue
				}
			}
			for inside := range 2 {
				p := &inPlan{Modes: []int{(b0 + b1) % 4}, Sizes: []int{7}, End: (b0 + b1 + inside) % 2}
				m := InMsg{Text: true, Pay: Pay{N: 5}}
				p.Items = append(p.Items, Item{Msg: &m})
				if inside == 1 {
					p.Items = append(p.Items, Item{Frame: &ref.Frame{Op: ref.Binary, Key: [4]byte{1, 2, 3, 4}, Payload: []byte("ab")}})
				}
				raw := []byte{byte(b0), byte(b1)}
				// the rest of the frame: length 200, 70000 or as in the header
				n := b1 & 127
				switch n {
				case 126:
					n = 200
					raw = append(raw, 0, 200)
				case 127:
					n = 70000
					raw = append(raw, 0, 0, 0, 0, 0, 1, 0x11, 0x70)
				}
				if b1&128 != 0 {
					raw = append(raw, 9, 8, 7, 6)
				}
				raw = append(raw, Pay{N: n, Seed: uint32(b0)}.Bytes()...)
				p.Items = append(p.Items, Item{Raw: raw})
				out = append(out, p)
			}
		}
	}
	return out
}

func genBadFrame(t *rapid.T) *ref.Frame {
	f := &ref.Frame{Fin: true, Op: ref.Binary, Key: key(genSeed(t))}
	pay := func(n int) { f.Payload = Pay{N: n, Seed: genSeed(t)}.Bytes() }
	pay(pick(t, "bl", 0, 1, 2, 5, 125, 126, 127, 200, 1000, 65535, 65536))
	one := func() {
		switch intn(t, "bad", 0, 12) {
		case 0:
			f.Rsv = intn(t, "rsv", 1, 7)
		case 1:
			f.Op = pick(t, "op", 3, 4, 5, 6, 7, 11, 12, 13, 14, 15)
		case 2:
			f.NoMask = true
		case 3:
			f.Op = pick(t, "ctl", 8, 9, 10)
			f.Fin = false
			pay(pick(t, "n", 0, 0, 2, 4, 125))
		case 4:
			f.Op = pick(t, "ctl", 8, 9, 10)
			pay(pick(t, "n", 126, 127, 128, 255, 65535, 65536))
		case 5:
			f.Op = ref.Cont
			f.Fin = rapid.Bool().Draw(t, "fin")
		case 6:
			f.Op = pick(t, "op", 1, 2)
			f.Fin = rapid.Bool().Draw(t, "fin")
		case 7: // close payloads
			f.Op = ref.Close
			switch intn(t, "close", 0, 3) {
			case 0:
				f.Payload = []byte{byte(intn(t, "b", 0, 255))}
			case 1:
				code := pick(t, "code", 0, 1, 999, 1004, 1005, 1006, 1012, 1013, 1014, 1015, 1016, 1100, 2000, 2999, 5000, 65535, 1000, 1001, 3000, 4999)
				f.Payload = append([]byte{byte(code >> 8), byte(code)}, Pay{N: pick(t, "rn", 0, 1, 50, 123)}.Text()...)
			case 2:
				f.Payload = append([]byte{3, 0xe8}, Pay{N: pick(t, "rn", 1, 2, 50, 123), Seed: genSeed(t)}.Bytes()...)
			case 3:
				code := intn(t, "code", 0, 65535)
				f.Payload = []byte{byte(code >> 8), byte(code)}
			}
		case 8: // lengths
			f.Declared = true
			f.DeclLen = pick(t, "decl", uint64(1<<20), 1<<20+1, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+5, 1<<62, 1<<63-1, 1<<63, 1<<63+1, ^uint64(0), ^uint64(0)-13)
			if chance(t, "declctl", 25) {
				f.Op = pick(t, "ctl", 8, 9, 10)
			}
		case 9:
			f.LenForm = intn(t, "form", 1, 2)
			pay(pick(t, "n", 0, 1, 5, 125, 126, 200, 65535))
		case 10: // non-minimal control
			f.Op = pick(t, "ctl", 8, 9, 10)
			f.LenForm = intn(t, "form", 1, 2)
			pay(pick(t, "n", 0, 2, 5, 125))
		case 11: // text that is not UTF-8
			f.Op = ref.Text
			pay(intn(t, "n", 1, 40))
		case 12: // declared longer than what follows
			f.Declared = true
			f.DeclLen = uint64(len(f.Payload) + pick(t, "more", 1, 2, 100, 70000))
		}
	}
	one()
	if chance(t, "two", 20) {
		one()
	}
	return f
}

func genMalformed(t *rapid.T) *inPlan {
	p := &inPlan{
		ReadBuf: pick(t, "readbuf", 0, 0, 1, 16, 64, 125, 128, 140, 1000, 4096),
		NoPool:  chance(t, "nopool", 20),
		SkipUTF: chance(t, "skiputf", 20),
		Open:    OpenOpts{Br: pick(t, "br", 0, 0, 0, 64, 121, 124, 1024)},
		Max:     pick(t, "max", 0, 0, 0, -1, 1000),
		End:     pick(t, "end", 0, 0, 1, 2),
	}
	nm := intn(t, "nbefore", 0, 3)
	for range nm {
		m := genInMsg(t, 3000, ref.Ping, ref.Pong)
		p.Items = append(p.Items, Item{Msg: &m})
	}
	kind := intn(t, "kind", 0, 9)
	if kind <= 5 { // one broken frame
		if chance(t, "inside", 50) {
			n := intn(t, "nfr", 1, 2)
			for i := range n {
				op := pick(t, "op0", ref.Text, ref.Binary)
				if i > 0 {
					op = ref.Cont
				}
				p.Items = append(p.Items, Item{Frame: &ref.Frame{Op: op, Key: key(genSeed(t)), Payload: []byte(strings.Repeat("x", pick(t, "fl", 0, 1, 4, 130)))}})
			}
		}
		p.Items = append(p.Items, Item{Frame: genBadFrame(t)})
	}
	if kind <= 7 {
		for range intn(t, "nafter", 0, 2) {
			m := genInMsg(t, 300, ref.Ping, ref.Pong)
			p.Items = append(p.Items, Item{Msg: &m})
		}
	}
	if kind == 6 || kind == 7 {
		if len(p.Items) == 0 {
			m := genInMsg(t, 300, ref.Ping, ref.Pong)
			p.Items = append(p.Items, Item{Msg: &m})
		}
		for range intn(t, "nmut", 1, 4) {
			p.Muts = append(p.Muts, Mut{Kind: intn(t, "mk", 0, 5), At: intn(t, "mat", 0, pick(t, "mspan", 10, 200, 5000)), N: intn(t, "mn", 1, 8), V: intn(t, "mv", 0, 255)})
		}
	}
	if kind >= 8 {
		p.Items = append(p.Items, Item{Raw: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")})
	}
	if chance(t, "cut", 20) {
		p.Muts = append(p.Muts, Mut{Kind: 4, At: intn(t, "cutat", 0, 4000)})
	}
	p.Chunks = genChunks(t)
	p.Modes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 4}), 1, 3).Draw(t, "modes")
	p.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 8, 100, 512, 4096}), 0, 3).Draw(t, "sizes")
	if chance(t, "paced", 20) {
		p.Paced = pick(t, "pace", 1, 5)
	}
	if chance(t, "early", 20) {
		p.Open.Prebuf = intn(t, "prebuf", 1, 300)
	}
	return p
}
