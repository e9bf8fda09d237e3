package props

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:  "C03",
		New: func() any { return &inPlan{} },
		Gen: func(t *rapid.T) any {
			p := &inPlan{
				ReadBuf: pick(t, "readbuf", 0, 0, 16, 128, 200, 4096),
				Max:     pick(t, "max", 0, -1, -1, 1, 2, 3, 10, 50, 100, 124, 125, 126, 127, 130, 255, 256, 1000, 4096, 65535, 65536, 65537),
				Frags:   pick(t, "frags", 0, 0, 1, 1, 2, 3, 4, 5, 8),
				End:     pick(t, "end", 0, 0, 0, 1),
				SkipUTF: chance(t, "skiputf", 20),
			}
			for range intn(t, "n", 1, 4) {
				m := InMsg{Text: rapid.Bool().Draw(t, "text"), Key: genSeed(t)}
				base := p.Max
				if base <= 0 {
					base = pick(t, "base", 5, 200, 3000)
				}
				n := 0
				switch intn(t, "sizeK", 0, 5) {
				case 0, 1:
					n = base + intn(t, "d", -2, 0)
				case 2:
					n = base + intn(t, "d", 1, 3)
				case 3:
					n = base + intn(t, "d", 1, base)
				default:
					n = intn(t, "small", 0, base)
				}
				m.Pay = Pay{N: max(0, n), Seed: genSeed(t)}
				want := 1
				if p.Frags > 0 && chance(t, "fragedge", 60) {
					want = p.Frags + pick(t, "fd", -1, 0, 0, 1, 2)
				} else {
					want = pick(t, "nf", 1, 1, 2, 3, 6)
				}
				for range max(0, want-1) {
					// empty fragments at both ends are common, too
					m.Cuts = append(m.Cuts, pick(t, "cut", 0, m.Pay.N, m.Pay.N/2, intn(t, "cutAt", 0, m.Pay.N)))
				}
				if chance(t, "ctl", 50) {
					for range intn(t, "nctl", 1, 4) {
						m.Ctls = append(m.Ctls, genCtl(t, len(m.Cuts)+1, ref.Ping, ref.Pong))
					}
				}
				p.Items = append(p.Items, Item{Msg: &m})
			}
			if chance(t, "cut", 10) {
				p.Muts = append(p.Muts, Mut{Kind: 4, At: intn(t, "cutat", 0, 2000)})
			}
			p.Chunks = genChunks(t)
			p.Modes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4, 4}), 1, 3).Draw(t, "modes")
			p.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 8, 100, 512, 4096, 70000}), 0, 3).Draw(t, "sizes")
			return p
		},
		Enum: enumLimits,
		Run: func(c *core.Case, plan any) {
			p := plan.(*inPlan)
			v := runInbound(c, p)
			l := p.limits()
			for _, e := range v.Events {
				if e.Op <= ref.Binary && l.Max >= 0 && int64(len(e.Data)) == l.Max {
					c.Class("exactly-at-limit")
					c.NonTrivial()
				}
			}
			c.ClassIf(l.Max < 0, "no-limit")
			c.ClassIf(l.Frags > 0, "fragment-limit")
			if v.End == ref.EndViol {
				c.Class("viol:" + strings.TrimSpace(strings.SplitN(v.Why, ";", 2)[0]))
				c.NonTrivial()
			}
			if l.Frags > 0 || l.Max < 0 {
				c.NonTrivial()
			}
		},
		Quick:    120000,
		Thorough: 1500000,
		Rule:     "generated limits (sizes 1 to 64K, the 1 MB default, -1; fragment limits 0 to 8) and messages whose size and fragment count sit at, just below, just above or far above them, with empty fragments and interleaved control frames, read whole or streamed; plus the boundary table; non-trivial: at the limit, over it, fragment-limited or unlimited",
	})
}

func enumLimits(thorough bool) []any {
	var out []any
	maxes := []int{0, 1, 2, 100, 125, 126, 127, 65535, 65536}
	for _, mx := range maxes {
		eff := mx
		if mx == 0 {
			eff = 1 << 20
		}
		for d := -1; d <= 1; d++ {
			n := eff + d
			for layout := range 6 {
				for mode := range 4 {
					if mx == 0 && !thorough && (mode == 1 || layout > 3) {
						continue
					}
					m := InMsg{Pay: Pay{N: n, Seed: 3}, Key: 5}
					switch layout {
					case 1:
						m.Cuts = []int{n / 2}
					case 2:
						m.Cuts = []int{0, n}
					case 3:
						m.Cuts = []int{1, n / 3, n / 2, n - 1}
						m.Ctls = []Ctl{{At: 1, Op: ref.Ping, N: 125}, {At: 2, Op: ref.Pong, N: 125}}
					case 4:
						m.Cuts = []int{n}
						m.Ctls = []Ctl{{At: 0, Op: ref.Ping, N: 125}}
					case 5:
						for i := range 20 {
							m.Cuts = append(m.Cuts, i*n/20)
						}
					}
					small := InMsg{Text: true, Pay: Pay{N: 1}}
					out = append(out, &inPlan{Max: mx, Items: []Item{{Msg: &small}, {Msg: &m}, {Msg: &small}}, Modes: []int{mode}, Sizes: []int{4096, 1000}})
				}
			}
		}
	}
	for f := 1; f <= 6; f++ {
		for d := -1; d <= 2; d++ {
			for empty := range 2 {
				for mode := range 4 {
					for ctl := range 2 {
						n := f + d
						if n < 1 {
							continue
						}
						m := InMsg{Pay: Pay{N: 12, Seed: 3}, Key: 5}
						for i := range n - 1 {
							m.Cuts = append(m.Cuts, (1-empty)*(i+1))
						}
						if ctl == 1 {
							for i := range n {
								m.Ctls = append(m.Ctls, Ctl{At: i, Op: ref.Ping, N: i})
							}
						}
						a, b := m, m
						b.Text = true
						out = append(out, &inPlan{Frags: f, Items: []Item{{Msg: &a}, {Msg: &b}}, Modes: []int{mode}, Sizes: []int{5}})
					}
				}
			}
		}
	}
	// no limit means no limit
	for _, n := range []int{1<<20 + 1, 3 << 20} {
		for mode := range 4 {
			m := InMsg{Pay: Pay{N: n, Seed: 9}, Cuts: []int{n / 2}}
			out = append(out, &inPlan{Max: -1, Items: []Item{{Msg: &m}}, Modes: []int{mode}, Sizes: []int{65536}})
		}
	}
	return out
}
