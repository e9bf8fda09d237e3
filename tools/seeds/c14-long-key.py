PROPERTY = "C14"
NEEDS = "a Sec-WebSocket-Key that decodes to more than 16 bytes"
BREAKS = "keys longer than 16 bytes are accepted"
EDITS = [("upgrader.go", "err != nil || len(decoded) != 16 {", "err != nil || len(decoded) < 16 {")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	for _, key := range []string{"dGhlIHNhbXBsZSBub25jZQ==", "dGhlIHNhbXBsZSBub25jZXh5eg=="} {
		addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) { u.Upgrade(w, r) })
		c, err := net.Dial("tcp", addr)
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n\r\n", key)
		resp, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			t.Fatal(err)
		}
		if want := len(key) == 24; (resp.StatusCode == 101) != want {
			t.Fatal(key, resp.StatusCode)
		}
	}
}
'''
