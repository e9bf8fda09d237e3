PROPERTY = "C27"
NEEDS = "a data write that stalls while a ping becomes due (PingEvery shorter than WriteWait) or the peer's pings are answered"
BREAKS = "a control frame that waits for its turn pushes back the deadline of the write in progress, so a stalled write outlives WriteWait"
EDITS = [("conn_write.go", "	// write header and payload\n	cw.buf = cw.buf[:2]\n", "	// the deadline also covers waiting for other frames\n	if err = cw.conn.raw.SetWriteDeadline(time.Now().Add(cw.conn.upgrader.WriteWait)); err != nil {\n		return err\n	}\n\n	// write header and payload\n	cw.buf = cw.buf[:2]\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{WriteWait: 600 * time.Millisecond, PingEvery: 500 * time.Millisecond, ReadWait: 30 * time.Second})
	p := dial(t, u)
	at := time.Now()
	for time.Since(at) < 20*time.Second {
		from := time.Now()
		if err := p.srv.SendBytes(nil, make([]byte, 1<<20)); err != nil {
			if d := time.Since(from); d > 850*time.Millisecond {
				t.Fatalf("a stalled send took %v with WriteWait 600ms (%v)", d, err)
			}
			return
		}
	}
	t.Fatal("the peer takes nothing, and sends succeed")
}
'''
