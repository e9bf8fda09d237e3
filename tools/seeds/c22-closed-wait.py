PROPERTY = "C22"
NEEDS = "the Wait strategy, a full queue, and the flusher being closed while a batch broadcast waits for room"
BREAKS = "a batch broadcast that waits for room in a queue does not notice that batching was closed"
EDITS = [("broadcast.go", "				select {\n				case <-u.Flusher.closed:\n					return n, ErrFlusherClosed\n				case <-u.Flusher.ctx.Done():\n", "				select {\n				case <-u.Flusher.ctx.Done():\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1})
	u.EnableJSONBatching(context.Background(), time.Hour)
	p := dial(t, u)
	r := NewRoomManager[string](u).Add("r")
	r.Add(p.srv)
	w, err := p.srv.NextWriter(nil, OpcodeText) // broadcasts cannot be written meanwhile
	if err != nil {
		t.Fatal(err)
	}
	for range 2 {
		r.BroadcastString(nil, []byte("x"))
		time.Sleep(50 * time.Millisecond)
	}
	time.AfterFunc(200*time.Millisecond, u.Flusher.Close)
	within(t, "BatchBroadcast", 3*time.Second, func() {
		if n, err := r.BatchBroadcast(nil, []byte("1")); n != 0 || err != ErrFlusherClosed {
			t.Error(n, err)
		}
	})
	w.Close()
}
'''
