PROPERTY = "C29"
NEEDS = "a flusher whose context ended (by its deadline, say) and a call of Batch after that"
BREAKS = "Batch reports that the flusher was closed, although nobody closed it: the context's own error is lost"
EDITS = [("conn_batcher.go", "		return conn.batch.flusher.ctx.Err()\n", "		conn.batch.flusher.Close()\n		return ErrFlusherClosed\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	u.EnablePrefixBatching(ctx, 10*time.Millisecond)
	p := dial(t, u)
	<-ctx.Done()
	if err := p.srv.Batch([]byte("x")); !errors.Is(err, context.DeadlineExceeded) {
		t.Fatal(err)
	}
}
'''
