PROPERTY = 'C07'
NEEDS = 'a ping without a payload followed by anything'
BREAKS = 'the masking key of an empty ping is left in the stream and parsed as the next frame'
EDITS = [
    ('conn_read.go', 'conn.pong(n, isMasked)', 'conn.pong(n, isMasked && n > 0)'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	p.send(false, OpcodeText, []byte("a"))
	p.send(true, OpcodePing, nil)
	p.send(true, OpcodeContinuation, []byte("b"))
	if _, got, err := p.srv.ReadMessage(); err != nil || string(got) != "ab" {
		t.Fatalf("%q %v", got, err)
	}
	if f, err := p.next(time.Second); err != nil || f.op != OpcodePong || len(f.payload) != 0 {
		t.Fatal("pong: ", f, err)
	}
}
'''
