package props

import (
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/ref"
)

var u8edge = []byte{0x00, 'a', 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFF}

var u8pieces = []string{
	"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf",
	"\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xc2", "\xe0\xa0", "\xe1\x80", "\xf0\x90\x80", "\xf1\x80", "\xf4\x8f\xbf", "\xe2\x28\xa1",
}

func textFrames(b []byte, op int, cuts []int, ping bool) []Item {
	var out []Item
	for i, f := range cutBytes(b, cuts) {
		o := ref.Cont
		if i == 0 {
			o = op
		}
		if ping && i > 0 {
			out = append(out, Item{Frame: &ref.Frame{Fin: true, Op: ref.Ping, Key: key(uint32(i)), Payload: []byte{0xff, byte(i)}}})
		}
		out = append(out, Item{Frame: &ref.Frame{Fin: i == len(cuts), Op: o, Key: key(uint32(i + 3)), Payload: f}})
	}
	return out
}

func init() {
	core.Register(&core.Prop{
		ID:  "C04",
		New: func() any { return &inPlan{} },
		Gen: func(t *rapid.T) any {
			p := &inPlan{
				ReadBuf: pick(t, "readbuf", 0, 0, 16, 128, 4096),
				SkipUTF: chance(t, "skiputf", 25),
				End:     pick(t, "end", 0, 0, 1),
			}
			for range intn(t, "n", 1, 3) {
				b := Pay{N: pick(t, "pre", 0, 1, 3, 10, 60, 100, 500, 4090, 4096), Seed: genSeed(t)}.Text()
				if chance(t, "bad", 45) {
					at := intn(t, "at", 0, len(b))
					var ins []byte
					if rapid.Bool().Draw(t, "edge") {
						ins = rapid.SliceOfN(rapid.SampledFrom(u8edge), 1, 5).Draw(t, "bytes")
					} else {
						ins = []byte(rapid.SampledFrom(u8pieces).Draw(t, "piece"))
					}
					b = append(append(b[:at:at], ins...), b[at:]...)
				} else {
					for range intn(t, "nr", 0, 6) {
						b = append(b, rapid.SampledFrom(runes).Draw(t, "r")...)
					}
				}
				if chance(t, "cutend", 15) && len(b) > 0 {
					b = b[:len(b)-1]
				}
				var cuts []int
				if chance(t, "frag", 60) {
					cuts = rapid.SliceOfN(rapid.IntRange(0, len(b)), 1, 6).Draw(t, "cuts")
				}
				op := pick(t, "op", ref.Text, ref.Text, ref.Text, ref.Binary)
				p.Items = append(p.Items, textFrames(b, op, cuts, chance(t, "ping", 25))...)
			}
			p.Chunks = genChunks(t)
			p.Modes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 0, 1, 2, 3}), 1, 3).Draw(t, "modes")
			p.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 512}), 0, 2).Draw(t, "sizes")
			return p
		},
		Enum: func(thorough bool) []any {
			var out []any
			add := func(b []byte) {
				h := 0
				for _, x := range b {
					h = h*31 + int(x)
				}
				p := &inPlan{Modes: []int{h % 2}, End: h % 3 % 2}
				switch h % 5 { // surroundings
				case 1:
					b = append([]byte("é"), b...)
				case 2:
					b = append(append([]byte("abcdefgh"), b...), "xyz"...)
				case 3:
					b = append(append([]byte{}, b...), "€"...)
				}
				var cuts []int
				switch h % 4 {
				case 1:
					cuts = []int{len(b) / 2}
				case 2:
					cuts = []int{1, 2, 3}
				case 3:
					cuts = []int{len(b) - 1}
				}
				p.Items = textFrames(b, ref.Text, cuts, h%7 == 0)
				out = append(out, p)
			}
			for a := range 256 {
				add([]byte{byte(a)})
			}
			for _, a := range u8edge {
				for _, b := range u8edge {
					add([]byte{a, b})
					for _, c := range u8edge {
						if a < 0xC0 && !thorough {
							continue
						}
						add([]byte{a, b, c})
						if a < 0xF0 || b < 0x80 || b > 0xBF || c < 0x80 || c > 0xBF || !thorough && (b == 0x9f || b == 0xa0 || c != 0x80 && c != 0xBF) {
							continue
						}
						for _, d := range []byte{0x7f, 0x80, 0xBF, 0xC0} {
							add([]byte{a, b, c, d})
						}
					}
				}
			}
			// every code point is accepted, every surrogate refused
			const block = 512
			for lo := 0; lo <= 0x10FFFF; lo += block {
				var b []byte
				for r := lo; r < lo+block; r++ {
					if r < 0xD800 || r > 0xDFFF {
						b = utf8.AppendRune(b, rune(r))
					}
				}
				p := &inPlan{Modes: []int{lo / block % 2}}
				p.Items = textFrames(b, ref.Text, nil, false)
				out = append(out, p)
			}
			for r := 0xD800; r <= 0xDFFF; r++ {
				if thorough || r%17 == 0 {
					add([]byte{0xED, byte(0x80 | r>>6&0x3F), byte(0x80 | r&0x3F)})
				}
			}
			return out
		},
		Run: func(c *core.Case, plan any) {
			p := plan.(*inPlan)
			v := runInbound(c, p)
			c.ClassIf(v.End == ref.EndViol, "invalid-refused")
			multi := false
			for _, e := range v.Events {
				if e.Op == ref.Text {
					for _, x := range e.Data {
						multi = multi || x >= 0x80
					}
					c.ClassIf(!ref.ValidUTF8(e.Data), "invalid-unvalidated")
				}
			}
			c.ClassIf(multi, "multi-byte-delivered")
			if v.End == ref.EndViol || multi {
				c.NonTrivial()
			}
		},
		Quick:    150000,
		Thorough: 1500000,
		Rule:     "text payloads: valid multi-byte text, text with one malformed sequence (overlong, surrogate, out of range, stray, truncated) anywhere, cut into fragments and network reads inside characters; plus all one-byte payloads and every code point, and all combinations of boundary bytes up to length 3 (4 for four-byte leads); read by ReadMessage, ReadString or streamed, validation on or off; non-trivial: refused, or a delivered text holds multi-byte characters",
	})
}
