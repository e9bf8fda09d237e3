package ref

import (
	"math/rand"
	"testing"
	"unicode/utf8"
)

func TestUTF8(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 5_000_000; i++ {
		n := r.Intn(6)
		b := make([]byte, n)
		for j := range b {
			b[j] = byte(r.Intn(256))
			if r.Intn(2) == 0 {
				b[j] = []byte{0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xa0, 0x9f, 0xf0, 0xf4, 0x8f, 0x90, 'a'}[r.Intn(12)]
			}
		}
		if ValidUTF8(b) != utf8.Valid(b) {
			t.Fatalf("%x", b)
		}
	}
}
