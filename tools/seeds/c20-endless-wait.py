PROPERTY = "C20"
NEEDS = "the Wait strategy, a full queue and a batch broadcast whose context ends while it waits"
BREAKS = "a batch broadcast that waits for room in a queue ignores its context"
EDITS = [("broadcast.go", "				case <-u.Flusher.ctx.Done():\n					return n, u.Flusher.ctx.Err()\n				case <-ctx.Done():\n					return n, ctx.Err()\n				case <-conn.done:\n", "				case <-u.Flusher.ctx.Done():\n					return n, u.Flusher.ctx.Err()\n				case <-conn.done:\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1})
	u.EnableJSONBatching(context.Background(), time.Hour)
	p := dial(t, u)
	r := NewRoomManager[string](u).Add("r")
	r.Add(p.srv)
	w, err := p.srv.NextWriter(nil, OpcodeText) // broadcasts cannot be written meanwhile
	if err != nil {
		t.Fatal(err)
	}
	for range 2 {
		r.BroadcastString(nil, []byte("x"))
		time.Sleep(50 * time.Millisecond)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	within(t, "BatchBroadcast", 3*time.Second, func() {
		if n, err := r.BatchBroadcast(ctx, []byte("1")); n != 0 || err != context.DeadlineExceeded {
			t.Error(n, err)
		}
	})
	w.Close()
}
'''
