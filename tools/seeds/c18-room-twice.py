PROPERTY = 'C18'
NEEDS = 'two goroutines that create the same room at the same time'
BREAKS = 'the room is looked up and created under different locks, so two callers can get different rooms for one key and a connection joins a room nobody can find'
EDITS = [
    ('rooms_manager.go', '\trm.mu.Lock()\n\tdefer rm.mu.Unlock()\n\n\tif r, exists := rm.rooms[key]; exists {\n\t\treturn r\n\t}\n\n\tr := rm.newRoom(key)\n', '\tif r := rm.Get(key); r != nil {\n\t\treturn r\n\t}\n\n\trm.mu.Lock()\n\tdefer rm.mu.Unlock()\n\n\tr := rm.newRoom(key)\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](nil)
	for k := range 100000 {
		var wg sync.WaitGroup
		var got [8]*Room[int]
		start := make(chan bool)
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = rm.Add(k)
			}()
		}
		close(start)
		wg.Wait()
		for _, r := range got {
			if r != rm.Get(k) {
				t.Fatal("a caller got a room that is not in the manager, key ", k)
			}
		}
	}
}
'''
