PROPERTY = 'C19'
NEEDS = 'an exclusion list at least as long as the room, holding duplicates or connections of other rooms'
BREAKS = 'such a broadcast reaches nobody'
EDITS = [
    ('rooms_manager.go', '\tif len(r.conns) == 0 {\n\t\treturn nil\n\t}\n', '\tif len(r.conns) == 0 || len(exclude) >= len(r.conns) {\n\t\treturn nil // nobody left\n\t}\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	rm := NewRoomManager[string](u)
	a, b, c := dial(t, u), dial(t, u), dial(t, u)
	room := rm.Add("r")
	room.Add(a.srv)
	room.Add(b.srv)
	n, err := room.BroadcastString(context.Background(), []byte("hi"), a.srv, c.srv)
	if n != 1 || err != nil {
		t.Fatal("accepted by ", n, err)
	}
	if _, got, err := b.msg(time.Second); err != nil || string(got) != "hi" {
		t.Fatal(string(got), err)
	}
}
'''
