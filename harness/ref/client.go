package ref

import "encoding/binary"

// Limits are the reader's limits a client stream is judged against.
type Limits struct {
	Max      int64 // largest message; -1: none
	Frags    int   // most data frames of a message; 0: no limit
	Validate func(msg int) bool
}

// Event is something the server must act on, in order.
type Event struct {
	Op   int // Text, Binary (a complete message), Ping, Pong
	Data []byte
}

// How a client stream ends.
const (
	EndEOF   = "eof"       // between messages
	EndTrunc = "truncated" // inside a frame or message
	EndViol  = "violation"
	EndClose = "close"
)

// Early says that refusing with Code after at least the first At events is
// also acceptable.
type Early struct{ At, Code int }

// Verdict is what a server may make of a client byte stream.
type Verdict struct {
	Events []Event
	End    string
	Codes  map[int]bool // acceptable close codes for EndViol
	Early  []Early
	// Partial is the payload of the unfinished message that a streaming
	// reader may have been given before the end.
	Partial   []byte
	PartialOp int
	Open      bool
	// Complete: the frame that ended the stream is there in full.
	Complete    bool
	CloseCode   int // 0: none
	CloseReason string
	BadReason   bool // the close reason is not UTF-8
	Why         string
	MaxOpen     int // most bytes any message or prefix of it had
}

// LegalReceived are the codes a peer may put in a close frame for certain.
func LegalReceived(code int) bool {
	switch code {
	case 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011:
		return true
	}
	return code >= 3000 && code <= 4999
}

// DecodeClient reads b as the byte stream of a client.
func DecodeClient(b []byte, lim Limits) *Verdict {
	v := &Verdict{Codes: map[int]bool{}, PartialOp: -1}
	var data []byte
	open, op0, nfr, msgs := false, 0, 0, 0
	off := 0
	end := func(kind, why string) *Verdict {
		v.End, v.Why = kind, why
		if open {
			v.Open, v.Partial, v.PartialOp = true, data, op0
		}
		return v
	}
	early := func(code int) { v.Early = append(v.Early, Early{len(v.Events), code}) }
	validate := func() bool { return lim.Validate == nil || lim.Validate(msgs) }
	for off < len(b) {
		rest := b[off:]
		if len(rest) < 2 {
			// one byte: judged or not
			if rest[0]&0x70 != 0 || !known(int(rest[0]&15)) || rest[0]&15 >= 8 && rest[0]&0x80 == 0 ||
				(rest[0]&15 == 0) != open && rest[0]&15 < 8 {
				early(1002)
			}
			return end(EndTrunc, "one byte of a header")
		}
		op := int(rest[0] & 15)
		fin := rest[0]&0x80 != 0
		masked := rest[1]&0x80 != 0
		bad := map[int]bool{}
		why := ""
		viol := func(code int, w string) {
			bad[code] = true
			why += w + "; "
		}
		if rest[0]&0x70 != 0 {
			viol(1002, "reserved bits")
		}
		if !known(op) {
			viol(1002, "undefined opcode")
		}
		if !masked {
			viol(1002, "not masked")
		}
		if op >= 8 && !fin {
			viol(1002, "fragmented control frame")
		}
		if (op == Text || op == Binary) && open {
			viol(1002, "data frame inside a message")
		}
		if op == Cont && !open {
			viol(1002, "continuation outside a message")
		}
		n := uint64(rest[1] & 127)
		h := 2
		short := false
		nonMin := false
		switch n {
		case 126:
			h = 4
			if short = len(rest) < h; !short {
				n = uint64(binary.BigEndian.Uint16(rest[2:]))
				nonMin = n < 126
			}
		case 127:
			h = 10
			if short = len(rest) < h; !short {
				n = binary.BigEndian.Uint64(rest[2:])
				nonMin = n < 65536
			}
		}
		if short {
			if op >= 8 {
				early(1002) // a length form no control frame needs
			}
			for c := range bad {
				early(c)
			}
			return end(EndTrunc, "length of a header missing; "+why)
		}
		if op >= 8 && n > 125 {
			viol(1002, "control frame too long")
		}
		if n>>63 != 0 {
			viol(1009, "impossible length")
		}
		if nonMin {
			early(1002)
		}
		isData := op == Text || op == Binary || op == Cont
		have := uint64(0)
		if isData {
			if op == Cont {
				have = uint64(len(data))
			}
			if lim.Max >= 0 && (n > uint64(lim.Max) || have+n > uint64(lim.Max)) {
				viol(1009, "message too big")
			}
			k := 1
			if op == Cont {
				k = nfr + 1
			}
			if lim.Frags > 0 && k > lim.Frags {
				viol(1008, "too many fragments")
			}
		}
		hm := h
		if masked {
			hm += 4
		}
		if len(bad) > 0 {
			v.Complete = uint64(len(rest)) >= uint64(hm) && uint64(len(rest)-hm) >= n
			if !v.Complete {
				for c := range bad {
					early(c)
				}
				return end(EndTrunc, "truncated; "+why)
			}
			v.Codes = bad
			return end(EndViol, why)
		}
		if len(rest) < hm || uint64(len(rest)-hm) < n {
			if isData {
				// what is there of the payload may have been streamed
				if op != Cont {
					open, op0, data = true, op, nil
				}
				if len(rest) > hm {
					k := [4]byte(rest[h:hm])
					for i, x := range rest[hm:] {
						data = append(data, x^k[i%4])
					}
				}
				if op0 == Text && validate() && badPrefix(data) {
					early(1007)
				}
			}
			if lim.Frags > 0 && isData && !fin && nfr+1 >= lim.Frags {
				early(1008)
			}
			v.MaxOpen = max(v.MaxOpen, len(data))
			return end(EndTrunc, "truncated frame")
		}
		k := [4]byte(rest[h:hm])
		p := make([]byte, n)
		for i := range p {
			p[i] = rest[hm+i] ^ k[i%4]
		}
		off += hm + int(n)
		switch op {
		case Ping, Pong:
			v.Events = append(v.Events, Event{op, p})
			continue
		case Close:
			v.Complete = true
			switch {
			case n == 0:
			case n == 1:
				v.Codes[1002] = true
				return end(EndViol, "close payload of one byte")
			default:
				v.CloseCode = int(binary.BigEndian.Uint16(p))
				v.CloseReason = string(p[2:])
				if !LegalReceived(v.CloseCode) {
					if v.CloseCode >= 1012 && v.CloseCode <= 1014 {
						early(v.CloseCode) // registered later; either answer will do
					}
					v.Codes[1002] = true
					if !ValidUTF8(p[2:]) {
						v.Codes[1007] = true
					}
					return end(EndViol, "illegal close code")
				}
				if !ValidUTF8(p[2:]) {
					v.Codes[1002], v.Codes[1007] = true, true
					v.BadReason = true
					return end(EndViol, "close reason is not UTF-8")
				}
			}
			return end(EndClose, "close frame")
		}
		// a data frame
		if op != Cont {
			open, op0, data, nfr = true, op, nil, 0
		}
		nfr++
		data = append(data, p...)
		v.MaxOpen = max(v.MaxOpen, len(data))
		val := op0 == Text && validate()
		if !fin {
			if val && badPrefix(data) {
				early(1007)
			}
			if lim.Frags > 0 && nfr >= lim.Frags {
				early(1008)
			}
			continue
		}
		open = false
		if val && !ValidUTF8(data) {
			v.Complete = true
			v.Codes[1007] = true
			open = true // nothing but a prefix may have been seen
			return end(EndViol, "text is not UTF-8")
		}
		v.Events = append(v.Events, Event{op0, data})
		msgs++
		data = nil
	}
	if open {
		return end(EndTrunc, "message without its end")
	}
	return end(EndEOF, "")
}

func known(op int) bool { return op <= 2 || op >= 8 && op <= 10 }

// badPrefix: no continuation makes b valid UTF-8.
func badPrefix(b []byte) bool {
	for i := 0; i < 4 && i <= len(b); i++ {
		if !ValidUTF8(b[:len(b)-i]) {
			continue
		}
		if i == 0 {
			return false
		}
		t := b[len(b)-i:]
		// t starts a character; some completion must be valid
		var fill [4]byte
		for _, x := range []byte{0x80, 0x90, 0xA0, 0xBF} {
			for _, y := range []byte{0x80, 0xBF} {
				for n := 1; n <= 3; n++ {
					s := append(append(fill[:0:0], t...), x)
					for len(s) < len(t)+n {
						s = append(s, y)
					}
					if ValidUTF8(s) {
						return false
					}
				}
			}
		}
		return true
	}
	return true
}
