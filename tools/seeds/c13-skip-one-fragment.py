PROPERTY = "C13"
NEEDS = "a message left unread with at least two of its frames still to come"
BREAKS = "only one further fragment of an abandoned message is skipped, so the next read meets a continuation frame and the connection is closed"
EDITS = [("conn_utils.go", "	for !conn.reader.fin {\n", "	if !conn.reader.fin {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	for n := range 5 {
		p.send(n == 0, OpcodeText, []byte("[1, "))
		for i := range n {
			p.send(i == n-1, OpcodeContinuation, []byte("x "))
		}
		p.send(true, OpcodeText, []byte("next"))
		var v any
		if err := p.srv.ReadJSON(&v); err == nil || IsFatalErr(err) {
			t.Fatal("invalid JSON: ", err)
		}
		if b, err := p.srv.ReadString(); err != nil || string(b) != "next" {
			t.Fatalf("after a bad message of %d frames: %q %v", n+1, b, err)
		}
	}
}
'''
