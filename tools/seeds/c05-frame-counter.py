PROPERTY = "C05"
NEEDS = "a message of more than 65536 frames"
BREAKS = "the count of sent frames wraps around, so a frame in the middle of a very long message starts a new one"
EDITS = [("conn_write.go", "	if w.flushCount > 0 {\n		opcode = OpcodeContinuation\n", "	if uint16(w.flushCount) > 0 {\n		opcode = OpcodeContinuation\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{WriteBufferSize: MaxHeaderSize + 2}))
	go p.srv.SendBytes(context.Background(), make([]byte, 140000))
	for i := 0; ; i++ {
		f, err := p.next(10 * time.Second)
		if err != nil {
			t.Fatal(err)
		}
		if (f.op == OpcodeContinuation) != (i > 0) {
			t.Fatal("frame ", i, " has opcode ", f.op)
		}
		if f.fin {
			return
		}
	}
}
'''
