PROPERTY = "C05"
NEEDS = "a streamed message whose writer is held for longer than WriteWait between two flushes"
BREAKS = "the write deadline is set when the writer is handed out instead of at each flush, so slow streams fail although the transport works"
EDITS = [("conn_write.go", "	err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait))\n	if err == nil {\n		err = w.conn.sendFrame(w.buf[w.start:w.used])\n	}\n", "	if opcode != OpcodeContinuation {\n		err = w.conn.raw.SetWriteDeadline(time.Now().Add(w.conn.upgrader.WriteWait))\n	}\n	if err == nil {\n		err = w.conn.sendFrame(w.buf[w.start:w.used])\n	}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{WriteWait: 100 * time.Millisecond})
	p := dial(t, u)
	w, err := p.srv.NextWriter(nil, OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	for i := range 3 {
		if i > 0 {
			time.Sleep(300 * time.Millisecond)
		}
		if _, err := w.Write([]byte("piece")); err != nil {
			t.Fatal(err)
		}
		if err := w.Flush(); err != nil {
			t.Fatal(err)
		}
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if _, b, err := p.msg(5 * time.Second); err != nil || string(b) != "piecepiecepiece" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
