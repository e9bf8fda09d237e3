PROPERTY = "C09"
NEEDS = "a close code of 5000 or more, from the application or from the peer"
BREAKS = "codes above 4999 are taken for private ones and put on the wire"
EDITS = [("frame.go", "if code >= 3000 && code <= 4999 {", "if code >= 3000 {")]
DEMO = r'''
func TestDemo(t *testing.T) {
	for _, code := range []uint16{3000, 4999, 5000, 65535} {
		p := dial(t, NewUpgrader(nil))
		p.srv.CloseWithCode(code, "bye")
		got := p.closeCode(time.Second)
		if code < 5000 && got != int(code) || got >= 5000 || got < 1000 {
			t.Fatalf("CloseWithCode(%d) sent %d", code, got)
		}
	}
	for _, code := range []int{5000, 9999} {
		p := dial(t, NewUpgrader(nil))
		p.send(true, OpcodeClose, []byte{byte(code >> 8), byte(code)})
		p.srv.ReadMessage()
		if got := p.closeCode(time.Second); got != 1002 {
			t.Fatalf("the peer's close code %d was answered with %d", code, got)
		}
	}
}
'''
