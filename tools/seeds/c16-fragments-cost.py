PROPERTY = "C16"
NEEDS = "a fragmented message under a rate limit"
BREAKS = "every fragment of a message costs a token"
EDITS = [("conn_read.go", "		r.totalSize += r.remaining\n", "		if l := r.conn.upgrader.Limiter; l != nil {\n			l.allow(r.conn)\n		}\n		r.totalSize += r.remaining\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(1, 3)
	p := dial(t, u)
	for i := range 3 {
		p.send(false, OpcodeText, []byte("a"))
		p.send(false, OpcodeContinuation, []byte("b"))
		p.send(true, OpcodeContinuation, []byte("c"))
		if b, err := p.srv.ReadString(); err != nil || string(b) != "abc" {
			t.Fatalf("message %d: %q %v", i, b, err)
		}
	}
}
'''
