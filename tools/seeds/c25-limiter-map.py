PROPERTY = "C25"
NEEDS = "connections opened or closed while others receive messages, with a rate limiter"
BREAKS = "the limiter's table is read without its lock"
RACE = True
EDITS = [("rate_limiter.go", "	rl.mu.RLock()\n	defer rl.mu.RUnlock()\n	return rl.clients[c]\n", "	return rl.clients[c]\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(1000, 1000)
	p := dial(t, u)
	go func() {
		for range 200 {
			p.send(true, OpcodeText, []byte("x"))
			time.Sleep(time.Millisecond)
		}
	}()
	end := make(chan bool)
	go func() {
		defer close(end)
		for range 200 {
			p.srv.ReadString()
		}
	}()
	for range 30 {
		dial(t, u).srv.Close()
	}
	<-end
}
'''
