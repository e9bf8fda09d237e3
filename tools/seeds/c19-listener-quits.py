PROPERTY = "C19"
NEEDS = "a broadcast whose context ends while it waits in the queue of a busy connection, then further broadcasts"
BREAKS = "the listener of a connection ends with the first message that could not be written, so later broadcasts to a healthy connection are queued but never sent"
EDITS = [("broadcast.go", "			if err := m.writeToConn(conn); IsFatalErr(err) {\n", "			if err := m.writeToConn(conn); err != nil {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	m := NewManager[int](u)
	p := dial(t, u)
	m.Register(1, m.newManagedConn(p.srv, 1))
	w, err := p.srv.NextWriter(nil, OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	m.BroadcastString(ctx, []byte("cancelled"))
	time.Sleep(50 * time.Millisecond)
	cancel()
	time.Sleep(50 * time.Millisecond)
	w.Close()
	p.msg(time.Second)
	if n, err := m.BroadcastString(context.Background(), []byte("later")); n != 1 || err != nil {
		t.Fatal(n, err)
	}
	if _, b, err := p.msg(2 * time.Second); err != nil || string(b) != "later" {
		t.Fatalf("%q %v", b, err)
	}
}
'''
