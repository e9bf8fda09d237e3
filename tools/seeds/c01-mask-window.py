PROPERTY = "C01"
NEEDS = "one Read call of the application served by several network reads (payload arriving in pieces while the caller's buffer is larger)"
BREAKS = "bytes already unmasked are masked again when the rest of the buffer arrives, so the payload delivered differs from what was sent"
EDITS = [("conn_read.go", "r.mask(p[n-rn : n])", "r.mask(p[:n])")]
DEMO = '''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	want := []byte("hello, this arrives in two pieces")
	b := enc(true, OpcodeBinary, want)
	go func() {
		p.c.Write(b[:15])
		time.Sleep(200 * time.Millisecond)
		p.c.Write(b[15:])
	}()
	_, got, err := p.srv.ReadMessage()
	if err != nil || !bytes.Equal(got, want) {
		t.Fatalf("got %q, %v", got, err)
	}
}
'''
