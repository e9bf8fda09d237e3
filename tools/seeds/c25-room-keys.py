PROPERTY = 'C25'
NEEDS = 'GetRoomKeys while another goroutine creates or closes a room'
BREAKS = 'the map of rooms is iterated without its lock'
EDITS = [
    ('rooms_manager.go', '\trm.mu.RLock()\n\tdefer rm.mu.RUnlock()\n\n\tkeys := make([]keyType, 0, len(rm.rooms))\n\tfor k := range rm.rooms {\n', '\trm.mu.RLock()\n\trooms := rm.rooms\n\trm.mu.RUnlock()\n\n\tkeys := make([]keyType, 0, len(rooms))\n\tfor k := range rooms {\n'),
]
RACE = True
DEMO = r'''
func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](nil)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := range 2000 {
			rm.Add(i % 50)
			if i%3 == 0 {
				rm.Add(i % 50).Close()
			}
		}
	}()
	go func() {
		defer wg.Done()
		for range 2000 {
			rm.GetRoomKeys()
		}
	}()
	wg.Wait()
}
'''
