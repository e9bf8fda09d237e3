PROPERTY = "C03"
NEEDS = "a message the application leaves unread, before a message whose size comes near the limit"
BREAKS = "what was left unread of a message counts towards the size of the next one, so a message within the limit is refused"
EDITS = [("conn_read.go", "	conn.reader.totalSize = conn.reader.remaining\n", "	conn.reader.totalSize += conn.reader.remaining\n"),
         ("conn_read.go", "		if r.remaining == 0 && r.fin {\n			return n, io.EOF\n", "		if r.remaining == 0 && r.fin {\n			r.totalSize = 0\n			return n, io.EOF\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{MaxMessageSize: 1000}))
	p.send(true, OpcodeText, make([]byte, 600))
	p.send(false, OpcodeBinary, make([]byte, 300))
	p.send(true, OpcodeContinuation, make([]byte, 400))
	if _, _, err := p.srv.NextReader(); err != nil {
		t.Fatal(err)
	}
	if b, err := p.srv.ReadBinary(); err != nil || len(b) != 700 {
		t.Fatalf("a message of 700 bytes under a limit of 1000: %d bytes, %v", len(b), err)
	}
}
'''
