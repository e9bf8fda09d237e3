package props

import (
	"bytes"
	"encoding/binary"
	"sync"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verif/harness/core"
	"verif/harness/mem"
	"verif/harness/ref"
)

// onFrame makes f run for every complete frame the peer receives, while the
// write that completed it is still in progress.
func onFrame(mc *mem.Conn, f func(op int, payload []byte)) {
	var buf []byte
	head := false
	mc.OnWrite = func(_ *mem.Conn, d []byte) {
		buf = append(buf, d...)
		if !head {
			i := headLen(buf)
			if i < 0 {
				return
			}
			head = true
			buf = buf[i:]
		}
		for len(buf) >= 2 {
			n, h := int(buf[1]&127), 2
			switch n {
			case 126:
				h = 4
				if len(buf) < h {
					return
				}
				n = int(binary.BigEndian.Uint16(buf[2:]))
			case 127:
				h = 10
				if len(buf) < h {
					return
				}
				n = int(binary.BigEndian.Uint64(buf[2:]) & (1<<40 - 1))
			}
			if len(buf) < h+n {
				return
			}
			op, p := int(buf[0]&15), bytes.Clone(buf[h:h+n])
			buf = buf[h+n:]
			f(op, p)
		}
		if len(buf) == 0 {
			buf = nil
		}
	}
}

// answerPings makes the peer answer every ping at once.
func answerPings(mc *mem.Conn) {
	onFrame(mc, func(op int, p []byte) {
		if op == ref.Ping {
			f := ref.Frame{Fin: true, Op: ref.Pong, Key: [4]byte{9, 8, 7, 6}, Payload: p}
			mc.Feed(f.Encode(nil))
		}
	})
}

func closeFrame(code int, reason string) []byte {
	f := ref.Frame{Fin: true, Op: ref.Close, Key: [4]byte{1, 5, 2, 4}}
	if code > 0 {
		f.Payload = append([]byte{byte(code >> 8), byte(code)}, reason...)
	}
	return f.Encode(nil)
}

func dataFrame(op int, fin bool, d []byte) []byte {
	f := ref.Frame{Fin: fin, Op: op, Key: [4]byte{3, 1, 4, 1}, Payload: d}
	return f.Encode(nil)
}

// drain reads messages until a read fails fatally.
func drain(c *core.Case, name string, conn *snapws.Conn) *core.Op {
	return c.Go("reader of "+name, func() {
		for {
			if _, _, err := conn.ReadMessage(); isFatal(err) {
				return
			}
		}
	})
}

// tally counts events by name.
type tally struct {
	mu sync.Mutex
	m  map[string]int
}

func newTally() *tally { return &tally{m: map[string]int{}} }

func (t *tally) add(k string) { t.mu.Lock(); t.m[k]++; t.mu.Unlock() }

func (t *tally) get(k string) int { t.mu.Lock(); defer t.mu.Unlock(); return t.m[k] }
