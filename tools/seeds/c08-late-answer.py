PROPERTY = "C08"
NEEDS = "a peer that answers a ping later than PingEvery but well within ReadWait"
BREAKS = "the ping loop takes an unanswered earlier ping for a failure and closes the connection of a peer that is merely slow to answer"
EDITS = [("conn_write.go", "		return ErrPingAlreadySent\n", "		return fatal(ErrPingAlreadySent)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{ReadWait: 2 * time.Second, PingEvery: 300 * time.Millisecond}))
	res := make(chan error, 1)
	go func() {
		_, _, err := p.srv.ReadMessage()
		res <- err
	}()
	go func() {
		for {
			f, err := p.next(time.Minute)
			if err != nil {
				return
			}
			if f.op == OpcodePing {
				time.Sleep(700 * time.Millisecond)
				p.send(true, OpcodePong, f.payload)
			}
		}
	}()
	time.Sleep(3 * time.Second)
	p.send(true, OpcodeText, []byte("still here"))
	if err := <-res; err != nil {
		t.Fatal("disconnected: ", err)
	}
}
'''
