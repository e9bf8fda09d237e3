PROPERTY = "C29"
NEEDS = "BackpressureWait, a connection whose queue is full, and a broadcast whose context has a deadline"
BREAKS = "a broadcast that gives up waiting reports that it was cancelled also when its deadline passed"
EDITS = [("broadcast.go", "				select {\n				case <-ctx.Done():\n					return n, ctx.Err()\n				case <-conn.done:\n				case conn.broadcastQueue", "				select {\n				case <-ctx.Done():\n					return n, context.Canceled\n				case <-conn.done:\n				case conn.broadcastQueue")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1})
	rooms := NewRoomManager[int](u)
	p := dial(t, u)
	room := rooms.Add(1)
	room.Add(p.srv)
	w, err := p.srv.NextWriter(context.Background(), OpcodeText) // keeps the queue from being emptied
	if err != nil {
		t.Fatal(err)
	}
	defer w.Close()
	for range 4 {
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
		_, err = room.BroadcastString(ctx, []byte("m"))
		defer cancel() // also the ones that are queued depend on it
		if err != nil {
			break
		}
	}
	if !errors.Is(err, context.DeadlineExceeded) {
		t.Fatal(err)
	}
}
'''
