PROPERTY = "C23"
NEEDS = "a connection whose closing takes a moment (a write in progress, a slow hook) while the room manager shuts down"
BREAKS = "Shutdown waits only for its workers to start, so it can return while connections are still open"
EDITS = [("rooms_manager.go", "			defer wg.Done()\n			for c := range ch {\n", "			wg.Done()\n			for c := range ch {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](NewUpgrader(&Options{OnDisconnect: func(*Conn) { time.Sleep(50 * time.Millisecond) }}))
	var ps []*peer
	for k := range 20 {
		p := dial(t, rm.Upgrader)
		rm.Add(k % 3).Add(p.srv)
		ps = append(ps, p)
	}
	rm.Shutdown()
	for i, p := range ps {
		select {
		case <-p.srv.done:
		default:
			t.Fatal("Shutdown returned, but connection ", i, " is open")
		}
	}
}
'''
