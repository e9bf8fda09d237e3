PROPERTY = "C03"
NEEDS = "a message of several fragments, each within MaxMessageSize, whose sum exceeds it and whose last fragment is empty or small"
BREAKS = "the total size is compared before the newest fragment is added, so a message can exceed MaxMessageSize by one fragment"
EDITS = [("conn_read.go", "		r.totalSize += r.remaining\n		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {\n			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())\n			return 0, fatal(ErrMessageTooLarge)\n		}\n",
"		if r.conn.upgrader.MaxMessageSize >= 0 && r.totalSize > r.conn.upgrader.MaxMessageSize {\n			r.conn.CloseWithCode(CloseMessageTooBig, ErrMessageTooLarge.Error())\n			return 0, fatal(ErrMessageTooLarge)\n		}\n		r.totalSize += r.remaining\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{MaxMessageSize: 100}))
	p.send(false, OpcodeBinary, make([]byte, 100))
	p.send(true, OpcodeContinuation, make([]byte, 100))
	if b, err := p.srv.ReadBinary(); err == nil {
		t.Fatalf("delivered %d bytes, the limit is 100", len(b))
	}
}
'''
