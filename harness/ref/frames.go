// Package ref is the harness's own, independent model of RFC 6455: a client
// frame encoder, a strict parser for what the server puts on the wire, a
// reference decoder for client byte streams, and a UTF-8 validator.
package ref

import (
	"encoding/binary"
	"fmt"
)

const (
	Cont   = 0
	Text   = 1
	Binary = 2
	Close  = 8
	Ping   = 9
	Pong   = 10
)

// Frame is one frame of a client byte stream, as data. Every field can be set
// to an illegal value.
type Frame struct {
	Fin      bool
	Rsv      int // 0..7
	Op       int
	NoMask   bool
	Key      [4]byte
	LenForm  int // 0: minimal, 1: 16 bit, 2: 64 bit, when the length allows
	DeclLen  uint64
	Declared bool // use DeclLen (64-bit form if it does not fit) instead of len(Payload)
	Payload  []byte
}

// Encode appends the frame's wire form to dst.
func (f *Frame) Encode(dst []byte) []byte {
	b0 := byte(f.Op&15) | byte(f.Rsv&7)<<4
	if f.Fin {
		b0 |= 0x80
	}
	n := uint64(len(f.Payload))
	if f.Declared {
		n = f.DeclLen
	}
	m := byte(0x80)
	if f.NoMask {
		m = 0
	}
	dst = append(dst, b0)
	switch {
	case n > 65535 || f.LenForm == 2:
		dst = append(dst, m|127)
		dst = binary.BigEndian.AppendUint64(dst, n)
	case n > 125 || f.LenForm == 1:
		dst = append(dst, m|126)
		dst = binary.BigEndian.AppendUint16(dst, uint16(n))
	default:
		dst = append(dst, m|byte(n))
	}
	if f.NoMask {
		return append(dst, f.Payload...)
	}
	dst = append(dst, f.Key[:]...)
	for i, b := range f.Payload {
		dst = append(dst, b^f.Key[i%4])
	}
	return dst
}

// SFrame is one frame the server sent.
type SFrame struct {
	Op      int
	Fin     bool
	Payload []byte
	Start   int // offsets in the stream
	End     int
}

// Msg is a complete data message.
type Msg struct {
	Op         int
	Data       []byte
	Start, End int // offsets in the stream
	Frames     int
}

// Stream is the strict reading of a server byte stream.
type Stream struct {
	Frames []SFrame
	Msgs   []Msg // complete messages
	// Open is the unfinished message at the end (nil if none).
	Open *Msg
	// Rest is the number of bytes of an incomplete frame at the end.
	Rest int
	// CloseAt is the index in Frames of the close frame, or -1.
	CloseAt     int
	CloseCode   int // 0: none given
	CloseReason string
	// Err describes the first violation of the protocol ("" if none).
	Err string
}

// LegalSent reports whether an endpoint may put code in a close frame
// (RFC 6455 7.4 plus the IANA registry).
func LegalSent(code int) bool {
	switch {
	case code >= 3000 && code <= 4999:
		return true
	case code >= 1000 && code <= 1014:
		return code != 1004 && code != 1005 && code != 1006
	}
	return false
}

// ParseServer reads b as the bytes a client receives after the 101 response.
func ParseServer(b []byte) *Stream {
	s := &Stream{CloseAt: -1}
	fail := func(off int, f string, a ...any) *Stream {
		s.Err = fmt.Sprintf("byte %d (frame %d): ", off, len(s.Frames)) + fmt.Sprintf(f, a...)
		return s
	}
	off := 0
	for off < len(b) {
		if s.CloseAt >= 0 {
			return fail(off, "%d bytes after the close frame", len(b)-off)
		}
		rest := b[off:]
		s.Rest = len(rest)
		// judge the header as soon as its first byte is there
		op := int(rest[0] & 15)
		fin := rest[0]&0x80 != 0
		if rest[0]&0x70 != 0 {
			return fail(off, "reserved bits set (first byte %#x)", rest[0])
		}
		switch op {
		case Text, Binary:
			if s.Open != nil {
				return fail(off, "data frame with opcode %d inside a fragmented message", op)
			}
		case Cont:
			if s.Open == nil {
				return fail(off, "continuation frame outside a message")
			}
		case Close, Ping, Pong:
			if !fin {
				return fail(off, "fragmented control frame, opcode %d", op)
			}
		default:
			return fail(off, "undefined opcode %d", op)
		}
		if len(rest) < 2 {
			return s
		}
		if rest[1]&0x80 != 0 {
			return fail(off, "masked server frame")
		}
		n := uint64(rest[1] & 127)
		h := 2
		switch n {
		case 126:
			if len(rest) < 4 {
				return s
			}
			n = uint64(binary.BigEndian.Uint16(rest[2:]))
			h = 4
			if n < 126 {
				return fail(off, "length %d in the 16-bit form", n)
			}
		case 127:
			if len(rest) < 10 {
				return s
			}
			n = binary.BigEndian.Uint64(rest[2:])
			h = 10
			if n < 65536 {
				return fail(off, "length %d in the 64-bit form", n)
			}
			if n>>63 != 0 {
				return fail(off, "length %d has its top bit set", n)
			}
		}
		if op >= 8 && n > 125 {
			return fail(off, "control frame with %d bytes of payload", n)
		}
		if uint64(len(rest)-h) < n {
			return s
		}
		p := rest[h : h+int(n)]
		end := off + h + int(n)
		s.Frames = append(s.Frames, SFrame{op, fin, p, off, end})
		switch op {
		case Text, Binary:
			s.Open = &Msg{Op: op, Data: append([]byte(nil), p...), Start: off, Frames: 1}
		case Cont:
			s.Open.Data = append(s.Open.Data, p...)
			s.Open.Frames++
		case Close:
			s.CloseAt = len(s.Frames) - 1
			if n == 1 {
				return fail(off, "close frame with a payload of one byte")
			}
			if n >= 2 {
				s.CloseCode = int(binary.BigEndian.Uint16(p))
				s.CloseReason = string(p[2:])
				if !LegalSent(s.CloseCode) {
					return fail(off, "close frame with illegal code %d", s.CloseCode)
				}
				if !ValidUTF8(p[2:]) {
					return fail(off, "close reason is not valid UTF-8")
				}
			}
		}
		if op < 8 && fin {
			s.Open.End = end
			s.Msgs = append(s.Msgs, *s.Open)
			s.Open = nil
		}
		off = end
		s.Rest = 0
	}
	return s
}

// ValidUTF8 is a direct table-free transcription of RFC 3629's grammar.
func ValidUTF8(b []byte) bool {
	for i := 0; i < len(b); {
		c := b[i]
		if c < 0x80 {
			i++
			continue
		}
		var n int
		lo, hi := byte(0x80), byte(0xBF)
		switch {
		case c >= 0xC2 && c <= 0xDF:
			n = 1
		case c == 0xE0:
			n, lo = 2, 0xA0
		case c >= 0xE1 && c <= 0xEC, c == 0xEE, c == 0xEF:
			n = 2
		case c == 0xED:
			n, hi = 2, 0x9F
		case c == 0xF0:
			n, lo = 3, 0x90
		case c >= 0xF1 && c <= 0xF3:
			n = 3
		case c == 0xF4:
			n, hi = 3, 0x8F
		default:
			return false
		}
		if i+n >= len(b) {
			return false
		}
		for k := 1; k <= n; k++ {
			x := b[i+k]
			if x < lo || x > hi {
				return false
			}
			lo, hi = 0x80, 0xBF
		}
		i += n + 1
	}
	return true
}
