PROPERTY = 'C21'
NEEDS = 'messages accepted while an earlier batch of the connection is still being sent'
BREAKS = 'the slice of a batch that is being sent is reused for the next messages, which overwrite it'
EDITS = [
    ('conn_batcher.go', '\tb.messages = make([][]byte, 0)\n\tb.totalSize = 0\n', '\tb.messages = b.messages[:0]\n\tb.totalSize = 0\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	got := make(chan string, 100)
	gate := make(chan bool)
	u.EnableBatching(context.Background(), 10*time.Millisecond, func(ctx context.Context, c *Conn, messages [][]byte) error {
		<-gate
		for _, m := range messages {
			got <- string(m)
		}
		return nil
	})
	p := dial(t, u)
	p.srv.Batch([]byte("one"))
	p.srv.Batch([]byte("two"))
	time.Sleep(100 * time.Millisecond)
	p.srv.Batch([]byte("three"))
	time.Sleep(100 * time.Millisecond)
	close(gate)
	for _, want := range []string{"one", "two", "three"} {
		select {
		case s := <-got:
			if s != want {
				t.Fatalf("got %q, want %q", s, want)
			}
		case <-time.After(time.Second):
			t.Fatal("lost ", want)
		}
	}
}
'''
