PROPERTY = "C30"
NEEDS = "an OnRateLimitHit hook that takes long for one connection, and another connection that opens or closes meanwhile"
BREAKS = "the hook runs under the lock of the limiter: while it runs nobody can connect, and reads of other connections wait behind them"
EDITS = [("conn_utils.go", "			err := conn.upgrader.Limiter.OnRateLimitHit(conn)\n", "			conn.upgrader.Limiter.mu.RLock()\n			err := conn.upgrader.Limiter.OnRateLimitHit(conn)\n			conn.upgrader.Limiter.mu.RUnlock()\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(1, 1)
	in, release := make(chan bool), make(chan bool)
	defer close(release)
	u.Limiter.OnRateLimitHit = func(*Conn) error { close(in); <-release; return errors.New("limit") }
	p := dial(t, u)
	go func() {
		for {
			if _, _, err := p.srv.ReadMessage(); err != nil {
				return
			}
		}
	}()
	p.send(true, 1, []byte("a"))
	p.send(true, 1, []byte("b"))
	<-in
	done := make(chan bool)
	addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) { u.Upgrade(w, r); close(done) })
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"))
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the upgrade waits for the hook of another connection")
	}
}
'''
