PROPERTY = "C11"
NEEDS = "a rate limited connection that is closed while its bucket is not full"
BREAKS = "the limiter keeps the entry of a closed connection that has used tokens"
EDITS = [("rate_limiter.go", "	delete(rl.clients, c)\n", "	if l := rl.clients[c]; l != nil && l.Tokens() < float64(l.Burst()) {\n		return // the rest of its bucket is still owed\n	}\n	delete(rl.clients, c)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(1, 5)
	for range 3 {
		p := dial(t, u)
		p.send(true, OpcodeText, []byte("x"))
		p.srv.ReadString()
		p.srv.Close()
	}
	u.Limiter.mu.RLock()
	defer u.Limiter.mu.RUnlock()
	if n := len(u.Limiter.clients); n != 0 {
		t.Fatal(n, " closed connections are still known to the limiter")
	}
}
'''
