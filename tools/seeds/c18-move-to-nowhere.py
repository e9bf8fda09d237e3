PROPERTY = "C18"
NEEDS = "Move to a room that does not exist"
BREAKS = "moving a connection to a room that does not exist leaves it in its room"
EDITS = [("rooms_manager.go", "	r.Remove(conn)\n	if nr := r.rm.Get(newRoom); nr != nil {\n", "	if nr := r.rm.Get(newRoom); nr != nil {\n		r.Remove(conn)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	rm := NewRoomManager[int](nil)
	p := dial(t, rm.Upgrader)
	a, b := rm.Add(1), rm.Add(2)
	a.Add(p.srv)
	a.Move(p.srv, 2)
	if len(a.GetAllConns()) != 0 || len(b.GetAllConns()) != 1 {
		t.Fatal("not moved")
	}
	b.Move(p.srv, 3)
	if len(b.GetAllConns()) != 0 {
		t.Fatal("still in the room")
	}
}
'''
