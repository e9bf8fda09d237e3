PROPERTY = "C13"
NEEDS = "a message of more than a thousand fragments that the application does not read to its end"
BREAKS = "skipping the rest of a message gives up after 1024 fragments, so the connection is closed for a protocol error at the next read"
EDITS = [("conn_utils.go", "	for !conn.reader.fin {\n", "	for i := 0; !conn.reader.fin && i < 1024; i++ {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	p := dial(t, u)
	go func() {
		p.send(false, OpcodeBinary, []byte("x"))
		for range 1500 {
			p.send(false, OpcodeContinuation, []byte("x"))
		}
		p.send(true, OpcodeContinuation, nil)
		p.send(true, OpcodeText, []byte("next"))
	}()
	if _, _, err := p.srv.NextReader(); err != nil {
		t.Fatal(err)
	}
	b, err := p.srv.ReadString()
	if err != nil || string(b) != "next" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
