PROPERTY = 'C11'
NEEDS = 'a connection that closes after its batcher has been closed'
BREAKS = 'a closed batcher keeps the connections that close afterwards'
EDITS = [
    ('flusher.go', '\tf.mu.Lock()\n\tdefer f.mu.Unlock()\n\tdelete(f.conns, conn)\n', '\tif f.IsClosed() {\n\t\treturn\n\t}\n\tf.mu.Lock()\n\tdefer f.mu.Unlock()\n\tdelete(f.conns, conn)\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), 20*time.Millisecond)
	p := dial(t, u)
	p.srv.Batch([]byte("1"))
	u.Flusher.Close()
	time.Sleep(50 * time.Millisecond)
	p.srv.Close()
	u.Flusher.mu.Lock()
	defer u.Flusher.mu.Unlock()
	if len(u.Flusher.conns) != 0 {
		t.Fatal("the batcher still holds the closed connection")
	}
}
'''
