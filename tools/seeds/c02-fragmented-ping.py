PROPERTY = "C02"
NEEDS = "a fragmented (FIN=0) ping or pong frame"
BREAKS = "a fragmented ping is answered instead of being rejected with 1002"
EDITS = [("conn_read.go", "if !fin || n > MaxControlFramePayload {", "if (!fin && opcode == OpcodeClose) || n > MaxControlFramePayload {")]
DEMO = '''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	p.send(false, OpcodePing, []byte("x"))
	p.send(true, OpcodeText, []byte("y"))
	if _, got, err := p.srv.ReadMessage(); err == nil {
		t.Fatalf("delivered %q after a fragmented ping", got)
	}
	if code := p.closeCode(time.Second); code != 1002 {
		t.Fatalf("close code %d", code)
	}
}
'''
