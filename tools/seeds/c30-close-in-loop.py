PROPERTY = "C30"
NEEDS = "BackpressureClose, a room with a peer that takes nothing and whose queue is full, and another member"
BREAKS = "a broadcast closes the slow connections itself, so the other members and the caller wait until the slow peers have taken the close frame or WriteWait is over"
EDITS = [("broadcast.go", "			case BackpressureDrop: // drop\n			case BackpressureClose:\n				go conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// inqueue again\n", "			case BackpressureDrop: // drop\n			case BackpressureClose:\n				// not again by the next broadcast.\n				conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// inqueue again\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{WriteWait: 3 * time.Second, BroadcastBackpressure: BackpressureClose, BroadcastChannelsSize: 1})
	rooms := NewRoomManager[int](u)
	bad, good := dial(t, u), dial(t, u)
	room := rooms.Add(1)
	room.Add(bad.srv)
	go bad.srv.SendBytes(nil, make([]byte, 64<<20))
	time.Sleep(300 * time.Millisecond)
	room.Add(good.srv)
	for range 5 {
		within(t, "a broadcast", 1500*time.Millisecond, func() { room.BroadcastString(nil, []byte("m")) })
		if _, _, err := good.msg(time.Second); err != nil {
			t.Fatal(err)
		}
	}
}
'''
