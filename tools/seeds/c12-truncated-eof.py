PROPERTY = "C12"
NEEDS = "the connection ends in the middle of a message"
BREAKS = "the end of the connection inside a frame is passed on as io.EOF, so ReadMessage returns the truncated message as if it were complete"
EDITS = [("conn_read.go", "			r.conn.CloseWithCode(CloseNormalClosure, \"\")\n			return n, fatal(ErrConnClosed)\n", "			r.conn.CloseWithCode(CloseNormalClosure, \"\")\n			return n, err\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	b := enc(true, OpcodeText, []byte("a long enough message"))
	p.c.Write(b[:len(b)-5])
	p.c.(*net.TCPConn).CloseWrite()
	if _, m, err := p.srv.ReadMessage(); err == nil {
		t.Fatalf("delivered %q", m)
	}
}
'''
