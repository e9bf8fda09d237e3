PROPERTY = 'C22'
NEEDS = 'batched messages that fit alone but not together'
BREAKS = 'the size of the new message is not counted, so a batch can exceed MaxBatchSize'
EDITS = [
    ('conn_batcher.go', '\tif conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {\n', '\tif conn.batch.totalSize >= conn.upgrader.MaxBatchSize {\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{MaxBatchSize: 100})
	sizes := make(chan int, 100)
	u.EnableBatching(context.Background(), 50*time.Millisecond, func(ctx context.Context, c *Conn, messages [][]byte) error {
		n := 0
		for _, m := range messages {
			n += len(m)
		}
		sizes <- n
		return nil
	})
	p := dial(t, u)
	for range 5 {
		p.srv.Batch(make([]byte, 60))
	}
	for total := 0; total < 300; {
		select {
		case n := <-sizes:
			if n > 100 {
				t.Fatal("batch of ", n, " bytes")
			}
			total += n
		case <-time.After(time.Second):
			t.Fatal("batch missing")
		}
	}
}
'''
