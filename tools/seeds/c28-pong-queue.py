PROPERTY = "C28"
NEEDS = "a peer that sends very many pings and takes none of the answers"
BREAKS = "every ping gets a goroutine that waits to answer it, so they pile up"
EDITS = [("conn_read.go", "				if err := conn.pong(n, isMasked); err != nil {\n					return nilOpcode, err\n				}\n", "				if err := conn.pongLater(n, isMasked); err != nil {\n					return nilOpcode, err\n				}\n"),
  ("conn_read.go", "// NextReader returns an io.Reader", "// pongLater answers a ping without keeping the reader waiting.\nfunc (conn *Conn) pongLater(n int, isMasked bool) error {\n	b, err := conn.nRead(4 + n)\n	if err != nil {\n		conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n		return ErrConnClosed\n	}\n	copy(conn.controlWriter.maskKey[:], b)\n	payload := append([]byte(nil), b[4:]...)\n	conn.controlWriter.mask(payload)\n	prev := conn.lastPong\n	sent := make(chan struct{})\n	conn.lastPong = sent\n	go func() {\n		defer close(sent)\n		if prev != nil {\n			<-prev // in order\n		}\n		if err := conn.controlWriter.write(OpcodePong, payload); err != nil {\n			conn.CloseWithCode(CloseInternalServerErr, ErrInternalServer.Error())\n		}\n	}()\n	return nil\n}\n\n// NextReader returns an io.Reader"),
  ("conn.go", "	pingPayload []byte\n", "	pingPayload []byte\n	lastPong    chan struct{}\n"),
  ("conn_write.go", "	t := time.NewTimer(cw.conn.upgrader.WriteWait)\n", "	return cw.write(opcode, payload)\n}\n\nfunc (cw *ControlWriter) write(opcode byte, payload []byte) error {\n	t := time.NewTimer(cw.conn.upgrader.WriteWait)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{WriteWait: 20 * time.Second}))
	go p.srv.ReadMessage()
	go p.srv.SendBytes(nil, make([]byte, 32<<20)) // the peer takes nothing
	time.Sleep(500 * time.Millisecond)
	a := runtime.NumGoroutine()
	p.c.SetWriteDeadline(time.Now().Add(time.Second))
	for range 20 {
		p.c.Write(bytes.Repeat(enc(true, OpcodePing, []byte("x")), 100))
	}
	time.Sleep(500 * time.Millisecond)
	if n := runtime.NumGoroutine() - a; n > 50 {
		t.Fatalf("%d goroutines more after pings nobody takes the answers of", n)
	}
}
'''
