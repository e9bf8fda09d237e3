PROPERTY = "C08"
NEEDS = "an idle peer that only answers pings for longer than ReadWait"
BREAKS = "a pong no longer extends the read deadline, so a responsive idle peer is disconnected after ReadWait"
EDITS = [("conn.go", "conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait)); err != nil {\n\t\t\tconn.CloseWithCode(CloseInternalServerErr, \"timeout\")\n\t\t\treturn ErrConnClosed", "conn.raw.SetReadDeadline(time.Now().Add(conn.upgrader.ReadWait - conn.upgrader.PingEvery)); err != nil {\n\t\t\tconn.CloseWithCode(CloseInternalServerErr, \"timeout\")\n\t\t\treturn ErrConnClosed")]
DEMO = '''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{ReadWait: 1500 * time.Millisecond, PingEvery: time.Second}))
	res := make(chan error, 1)
	go func() {
		_, _, err := p.srv.ReadMessage()
		res <- err
	}()
	go func() {
		for {
			f, err := p.next(time.Minute)
			if err != nil {
				return
			}
			if f.op == OpcodePing {
				p.send(true, OpcodePong, f.payload)
			}
		}
	}()
	time.Sleep(4200 * time.Millisecond)
	p.send(true, OpcodeText, []byte("still here"))
	if err := <-res; err != nil {
		t.Fatal("the responsive peer was disconnected: ", err)
	}
}
'''
