PROPERTY = "C13"
NEEDS = "a send whose context ends while it waits for the writer"
BREAKS = "a context that ends while waiting is reported as a fatal error although the connection stays open and usable"
EDITS = [("conn_utils.go", "	case <-ctx.Done():\n		return ctx.Err()\n", "	case <-ctx.Done():\n		return fatal(ctx.Err())\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	w, err := p.srv.NextWriter(nil, OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := p.srv.SendString(ctx, []byte("x")); err == nil || IsFatalErr(err) {
		t.Fatal("fatal: ", err)
	}
	w.Close()
	if err := p.srv.SendString(nil, []byte("y")); err != nil {
		t.Fatal(err)
	}
}
'''
