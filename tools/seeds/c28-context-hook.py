PROPERTY = "C28"
NEEDS = "very many sends with one context that lives long"
BREAKS = "every send registers a callback with its context that is never removed"
EDITS = [("conn_utils.go", "	select {\n	case <-m.conn.done:\n		return fatal(ErrConnClosed)\n	case m.ch <- struct{}{}:\n		return m.locked()\n	case <-ctx.Done():\n", "	expired := make(chan struct{})\n	context.AfterFunc(ctx, func() { close(expired) })\n	select {\n	case <-m.conn.done:\n		return fatal(ErrConnClosed)\n	case m.ch <- struct{}{}:\n		return m.locked()\n	case <-expired:\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	go io.Copy(io.Discard, p.c)
	p.c.SetReadDeadline(time.Time{})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	use := func() int {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	a := use()
	for range 10000 {
		if err := p.srv.SendString(ctx, []byte("x")); err != nil {
			t.Fatal(err)
		}
	}
	if n := use() - a; n > 500000 {
		t.Fatalf("%d bytes are held after 10000 sends", n)
	}
}
'''
