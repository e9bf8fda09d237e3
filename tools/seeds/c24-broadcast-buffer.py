PROPERTY = "C24"
NEEDS = "a second broadcast while a message of the first is still queued or being written for some member"
BREAKS = "the frame of a broadcast is put back into a pool when the call returns, although members still have to send it"
EDITS = [("broadcast.go", "	m := &frame{ctx: ctx, buf: make([]byte, len(data)+MaxHeaderSize)}\n", "	pb := framePool.Get().(*pooledBuf)\n	defer framePool.Put(pb)\n	if cap(pb.buf) < len(data)+MaxHeaderSize {\n		pb.buf = make([]byte, len(data)+MaxHeaderSize)\n	}\n	m := &frame{ctx: ctx, buf: pb.buf[:len(data)+MaxHeaderSize]}\n"),
("broadcast.go", "// normal message (not a batch)\n", "var framePool = sync.Pool{New: func() any { return &pooledBuf{} }}\n\n// normal message (not a batch)\n"),
("broadcast.go", '	"fmt"\n', '	"fmt"\n	"sync"\n')]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastChannelsSize: 100})
	m := NewManager[int](u)
	p := dial(t, u)
	m.Register(1, m.newManagedConn(p.srv, 1))
	w, err := p.srv.NextWriter(nil, OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	for i := range 50 {
		m.BroadcastString(nil, fmt.Appendf(nil, "%03d", i))
	}
	time.Sleep(50 * time.Millisecond)
	w.Close()
	p.msg(time.Second)
	for i := range 50 {
		if _, b, err := p.msg(2 * time.Second); err != nil || string(b) != fmt.Sprintf("%03d", i) {
			t.Fatalf("%q instead of %d: %v", b, i, err)
		}
	}
}
'''
