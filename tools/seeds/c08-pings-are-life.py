PROPERTY = "C08"
NEEDS = "a peer that answers no ping and sends no message, but pings now and then"
BREAKS = "every frame of any kind postpones the read deadline, so a peer that no longer answers is kept as long as it sends pings"
EDITS = [("conn_read.go", "		b, err := conn.nRead(2)\n		if err != nil {\n			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n			return nilOpcode, err\n		}\n\n		// reading", "		b, err := conn.nRead(2)\n		if err == nil {\n			err = conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait))\n		}\n		if err != nil {\n			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n			return nilOpcode, err\n		}\n\n		// reading")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{PingEvery: 400 * time.Millisecond, ReadWait: time.Second})
	p := dial(t, u)
	done := make(chan time.Duration, 1)
	start := time.Now()
	go func() {
		p.srv.ReadMessage()
		done <- time.Since(start)
	}()
	for i := 0; i < 25; i++ {
		select {
		case d := <-done:
			if d > 2*time.Second {
				t.Fatal("disconnected only after ", d)
			}
			return
		case <-time.After(100 * time.Millisecond):
			p.send(true, OpcodePing, []byte("x"))
		}
	}
	t.Fatal("a peer that answers no ping is still connected")
}
'''
