PROPERTY = "C29"
NEEDS = "a peer that falls silent between two frames until ReadWait ends the read, and a caller that tells a timeout from a closed connection"
BREAKS = "a read that timed out reports that the connection was closed instead of the transport's timeout"
EDITS = [("conn_read.go", "		b, err := conn.nRead(2)\n		if err != nil {\n			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n			return nilOpcode, err\n", "		b, err := conn.nRead(2)\n		if err != nil {\n			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n			if len(b) == 0 && err != io.EOF {\n				// nothing of the frame arrived.\n				err = ErrConnClosed\n			}\n			return nilOpcode, err\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{ReadWait: 200 * time.Millisecond, PingEvery: time.Minute})
	p := dial(t, u)
	_, _, err := p.srv.ReadMessage()
	f, ok := err.(*FatalError)
	if !ok {
		t.Fatalf("%T %v", err, err)
	}
	if n, ok := f.Err.(net.Error); !ok || !n.Timeout() {
		t.Fatalf("%T %v", f.Err, f.Err)
	}
}
'''
