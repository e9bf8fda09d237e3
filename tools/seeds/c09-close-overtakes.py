PROPERTY = "C09"
NEEDS = "a close while another goroutine's frame is half written"
BREAKS = "the close frame is written without waiting for the frame in progress, so it lands inside that frame"
EDITS = [("conn_write.go", "	// lock without unlocking because this is the last write.\n	cw.conn.writeLock.forceLock()\n", "	// lock without unlocking because this is the last write.\n	cw.conn.writeLock.tryLock()\n")]
DEMO = r'''
type halfConn struct {
	net.Conn
	gate chan bool
	half chan bool
}

func (h *halfConn) Write(b []byte) (int, error) {
	if len(b) < 1000 {
		return h.Conn.Write(b)
	}
	n, _ := h.Conn.Write(b[:len(b)/2])
	close(h.half)
	<-h.gate
	m, err := h.Conn.Write(b[len(b)/2:])
	return n + m, err
}

func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	h := &halfConn{p.srv.raw, make(chan bool), make(chan bool)}
	p.srv.raw = h
	go p.srv.SendBytes(nil, make([]byte, 3000))
	<-h.half
	go p.srv.Close()
	time.Sleep(100 * time.Millisecond)
	close(h.gate)
	f, err := p.next(2 * time.Second)
	if err != nil || f.op != OpcodeBinary || !bytes.Equal(f.payload, make([]byte, len(f.payload))) {
		t.Fatalf("%v %v", f.op, err)
	}
	for {
		f, err = p.next(2 * time.Second)
		if err != nil {
			t.Fatal("no close frame: ", err)
		}
		if f.op == OpcodeClose {
			return
		}
	}
}
'''
