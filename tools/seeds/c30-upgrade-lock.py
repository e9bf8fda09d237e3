PROPERTY = "C30"
NEEDS = "a middleware that takes long for one request and another request meanwhile"
BREAKS = "the upgrades of an upgrader run one after another, so a request stuck in a middleware keeps everybody else from connecting"
EDITS = [("upgrader.go", "	// running middlewares\n	if u.Middlwares != nil {\n", "	// running middlewares\n	u.middlewaresMu.Lock()\n	defer u.middlewaresMu.Unlock()\n	if u.Middlwares != nil {\n"),
  ("upgrader.go", "	Flusher   *batchFlusher\n", "	Flusher   *batchFlusher\n\n	// guards the middlewares, see Use.\n	middlewaresMu sync.Mutex\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	release := make(chan bool)
	u := NewUpgrader(&Options{Middlwares: Middlwares{func(_ http.ResponseWriter, r *http.Request) error {
		if r.URL.Path == "/slow" {
			<-release
		}
		return nil
	}}})
	addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) { u.Upgrade(w, r) })
	c, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	defer close(release)
	c.Write([]byte("GET /slow HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"))
	time.Sleep(200 * time.Millisecond)
	c2, err := net.Dial("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	defer c2.Close()
	c2.Write([]byte("GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"))
	c2.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := c2.Read(make([]byte, 12)); err != nil {
		t.Fatal(err)
	}
}
'''
