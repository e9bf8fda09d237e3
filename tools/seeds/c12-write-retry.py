PROPERTY = 'C12'
NEEDS = 'a transport write that times out after part of a frame'
BREAKS = 'a timed out frame is written again from its start, so the peer sees the bytes of a message twice'
EDITS = [
    ('conn_write.go', '\t_, err := conn.raw.Write(buf)\n', '\tn, err := conn.raw.Write(buf)\n\tif ne, ok := err.(net.Error); ok && ne.Timeout() && n < len(buf) {\n\t\t// a short stall: try once more.\n\t\tif err = conn.raw.SetWriteDeadline(time.Now().Add(conn.upgrader.WriteWait)); err == nil {\n\t\t\t_, err = conn.raw.Write(buf)\n\t\t}\n\t}\n'),
    ('conn_write.go', '\t"encoding/json"\n\t"time"\n', '\t"encoding/json"\n\t"net"\n\t"time"\n'),
]
DEMO = r'''
type stallConn struct {
	net.Conn
	out   []byte
	armed bool
}

func (s *stallConn) Write(b []byte) (int, error) {
	if s.armed && len(b) > 10 {
		s.armed = false
		s.out = append(s.out, b[:5]...)
		return 5, os.ErrDeadlineExceeded
	}
	s.out = append(s.out, b...)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	s := &stallConn{Conn: a, armed: true}
	c := NewUpgrader(nil).newConn(s, "", nil, nil)
	msg := []byte("a message of some length")
	if err := c.SendBytes(context.Background(), msg); !IsFatalErr(err) {
		t.Fatal("partly written frame: ", err)
	}
	if len(s.out) != 5 {
		t.Fatalf("written after the failure: %q", s.out[5:])
	}
}
'''
