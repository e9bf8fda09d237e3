PROPERTY = "C01"
NEEDS = "a fragmented masked message whose earlier fragment has a length that is not a multiple of four"
BREAKS = "the masking key of a continuation frame is applied from where the previous fragment ended, so its payload arrives garbled"
EDITS = [("conn_read.go", "		conn.reader.maskPos = 0\n", "		if opcode != OpcodeContinuation {\n			conn.reader.maskPos = 0\n		}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	p.send(false, OpcodeText, []byte("abcde"))
	p.send(false, OpcodeContinuation, []byte("fg"))
	p.send(true, OpcodeContinuation, []byte("hijk"))
	if b, err := p.srv.ReadString(); err != nil || string(b) != "abcdefghijk" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
