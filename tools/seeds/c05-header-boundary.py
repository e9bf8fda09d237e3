PROPERTY = "C05"
NEEDS = "a frame whose payload is exactly 65535 bytes (write buffer larger than that)"
BREAKS = "the frame is sent with a non-minimal 64-bit length"
EDITS = [("frame.go", "payloadLength <= math.MaxUint16", "payloadLength < math.MaxUint16")]
DEMO = '''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{WriteBufferSize: 70000}))
	go p.srv.SendBytes(nil, make([]byte, 65535))
	p.c.SetReadDeadline(time.Now().Add(3 * time.Second))
	var h [2]byte
	if _, err := io.ReadFull(p.br, h[:]); err != nil {
		t.Fatal(err)
	}
	if h[1] != 126 {
		t.Fatalf("length byte is %d", h[1])
	}
}
'''
