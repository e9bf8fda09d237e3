PROPERTY = "C10"
NEEDS = "Batch on a connection that has been closed, with batching still enabled"
BREAKS = "Batch accepts messages for a closed connection, which can never be sent"
EDITS = [("conn_batcher.go", "	case <-conn.done:\n		return ErrConnClosed\n	case <-conn.batch.flusher.closed:", "	case <-conn.batch.flusher.closed:")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), time.Hour)
	p := dial(t, u)
	if err := p.srv.Batch([]byte("1")); err != nil {
		t.Fatal(err)
	}
	p.srv.Close()
	if err := p.srv.Batch([]byte("2")); err == nil {
		t.Fatal("a closed connection accepts messages")
	}
}
'''
