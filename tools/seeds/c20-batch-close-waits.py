PROPERTY = "C20"
NEEDS = "the Close strategy, a stalled member with a full queue and a batch broadcast"
BREAKS = "a batch broadcast waits until the slow connection has been closed, which takes as long as its stalled write"
EDITS = [("broadcast.go", "			case BackpressureClose:\n				go conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// wait till sent", "			case BackpressureClose:\n				conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// wait till sent")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureClose, BroadcastChannelsSize: 1, WriteWait: 3 * time.Second})
	u.EnableJSONBatching(context.Background(), time.Hour)
	p := dial(t, u)
	r := NewRoomManager[string](u).Add("r")
	r.Add(p.srv)
	go func() {
		for p.srv.SendBytes(nil, make([]byte, 1<<20)) == nil { // the peer takes nothing
		}
	}()
	time.Sleep(500 * time.Millisecond)
	for range 2 {
		r.BroadcastString(nil, []byte("x"))
		time.Sleep(50 * time.Millisecond)
	}
	at := time.Now()
	r.BatchBroadcast(nil, []byte("1"))
	if d := time.Since(at); d > 500*time.Millisecond {
		t.Fatalf("a broadcast to a stalled member took %v", d)
	}
}
'''
