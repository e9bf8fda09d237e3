PROPERTY = "C14"
NEEDS = "a Connection header with a token that merely contains the word upgrade"
BREAKS = "a token like no-upgrade in the Connection header counts as upgrade"
EDITS = [("upgrader.go", 'if strings.TrimSpace(header) == "upgrade" {', 'if strings.HasSuffix(strings.TrimSpace(header), "upgrade") {')]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	for conn, want := range map[string]bool{"keep-alive, Upgrade": true, "no-upgrade": false} {
		addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) { u.Upgrade(w, r) })
		c, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: %s\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", conn)
		resp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			t.Fatal(err)
		}
		if (resp.StatusCode == 101) != want {
			t.Fatal(conn, resp.StatusCode)
		}
	}
}
'''
