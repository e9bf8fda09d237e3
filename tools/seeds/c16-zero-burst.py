PROPERTY = "C16"
NEEDS = "a limiter with burst 0"
BREAKS = "a burst of 0 lets a message through"
EDITS = [("rate_limiter.go", "rate.NewLimiter(rate.Limit(rl.mps), rl.burst)", "rate.NewLimiter(rate.Limit(rl.mps), max(rl.burst, 1))")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(5, 0)
	p := dial(t, u)
	p.send(true, OpcodeText, []byte("x"))
	if m, err := p.srv.ReadString(); err == nil {
		t.Fatalf("delivered %q", m)
	}
}
'''
