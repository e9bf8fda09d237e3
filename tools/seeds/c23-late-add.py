PROPERTY = 'C23'
NEEDS = 'the scheduler letting Shutdown reach its wait before its workers start'
BREAKS = 'the workers announce themselves only when they run, so RoomManager.Shutdown can return before the connections are closed'
EDITS = [
    ('rooms_manager.go', '\t\twg.Add(1)\n\t\tgo func() {\n\t\t\tdefer wg.Done()\n', '\t\tgo func() {\n\t\t\twg.Add(1)\n\t\t\tdefer wg.Done()\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.OnDisconnect = func(*Conn) { time.Sleep(time.Millisecond) }
	for range 40 {
		rm := NewRoomManager[string](u)
		var left []*Conn
		for range 3 {
			p := dial(t, u)
			rm.Add("r").Add(p.srv)
			left = append(left, p.srv)
		}
		rm.Shutdown()
		for _, c := range left {
			select {
			case <-c.done:
			default:
				t.Fatal("Shutdown returned while a connection is open")
			}
		}
	}
}
'''
