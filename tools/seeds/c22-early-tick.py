PROPERTY = "C22"
NEEDS = "a custom flush interval different from the default"
BREAKS = "an accepted message can wait for two intervals: connections whose batch was flushed because of its size are skipped by the next tick"
EDITS = [("flusher.go", "		default:\n			conn.batch.flush()\n", "		default:\n			if conn.batch.sending {\n				continue // busy\n			}\n			conn.batch.flush()\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{MaxBatchSize: 10})
	gate := make(chan bool)
	got := make(chan int, 10)
	u.EnableBatching(context.Background(), 50*time.Millisecond, func(ctx context.Context, c *Conn, messages [][]byte) error {
		got <- len(messages)
		<-gate
		return nil
	})
	p := dial(t, u)
	p.srv.Batch(make([]byte, 8))
	p.srv.Batch(make([]byte, 8)) // the first one is flushed
	<-got
	u.Flusher.Close()
	time.Sleep(100 * time.Millisecond)
	close(gate)
	select {
	case <-got:
	case <-time.After(2 * time.Second):
		t.Fatal("the second message was accepted before the batcher was closed and never sent")
	}
}
'''
