PROPERTY = "C10"
NEEDS = "a sender with a cancellable context that waits for its turn while the connection gets closed"
BREAKS = "the sender stays blocked until its own context ends"
EDITS = [("conn_utils.go", """	select {
	case <-m.conn.done:
		return fatal(ErrConnClosed)
	case m.ch <- struct{}{}:
		return m.locked()
	case <-ctx.Done():
""", """	select {
	case m.ch <- struct{}{}:
		return m.locked()
	case <-ctx.Done():
""")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	w, err := p.srv.NextWriter(context.Background(), OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	w.Write([]byte("unfinished"))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	res := make(chan error, 1)
	go func() { res <- p.srv.SendString(ctx, []byte("x")) }()
	time.Sleep(100 * time.Millisecond)
	p.srv.Close()
	select {
	case err := <-res:
		if !IsFatalErr(err) {
			t.Fatal(err)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("the sender is still blocked after the connection has been closed")
	}
}
'''
