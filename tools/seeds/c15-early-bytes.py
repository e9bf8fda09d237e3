PROPERTY = 'C15'
NEEDS = 'more bytes sent along with the request than the configured read buffer holds'
BREAKS = 'when the buffered bytes need several reads, the last ones are lost'
EDITS = [
    ('upgrader.go', '\t\tif b.br.Buffered() == 0 {\n', '\t\tif b.br.Buffered() < len(p) {\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{ReadBufferSize: 256, ReadWait: 2 * time.Second, PingEvery: time.Second})
	got := make(chan string, 100)
	addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) {
		c, err := u.Upgrade(w, r)
		if err != nil {
			t.Error(err)
			return
		}
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				close(got)
				return
			}
			got <- string(b)
		}
	})
	var after []byte
	for i := range 20 {
		after = append(after, enc(true, OpcodeText, []byte(fmt.Sprintf("message number %03d of the early ones", i)))...)
	}
	rawDial(t, addr, after...)
	for i := range 20 {
		want := fmt.Sprintf("message number %03d of the early ones", i)
		select {
		case s := <-got:
			if s != want {
				t.Fatalf("message %d: %q", i, s)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("message ", i, " was lost")
		}
	}
}
'''
