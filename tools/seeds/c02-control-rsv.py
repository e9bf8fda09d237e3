PROPERTY = "C02"
NEEDS = "a control frame with a reserved bit set"
BREAKS = "reserved bits are checked for data frames only, so a malformed ping or pong is accepted"
EDITS = [("conn_read.go", "		if (rsv1 | rsv2 | rsv3) != 0 {", "		if (rsv1|rsv2|rsv3) != 0 && !isControl(opcode) {")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	b := enc(true, OpcodePing, []byte("x"))
	b[0] |= 0x20
	p.c.Write(append(b, enc(true, OpcodeText, []byte("after"))...))
	if m, err := p.srv.ReadString(); err == nil {
		t.Fatalf("delivered %q after a ping with a reserved bit", m)
	}
}
'''
