PROPERTY = "C19"
NEEDS = "more exclusions than the room has members, some of them strangers or repeated"
BREAKS = "only as many exclusions are honoured as the room has members"
EDITS = [("rooms_manager.go", "	conns := make([]*Conn, 0, len(r.conns))\n	for c := range r.conns {\n		if !slices.Contains(exclude, c) {\n", "	skip := make(map[*Conn]bool, 16)\n	for i, c := range exclude {\n		if i < len(r.conns) {\n			skip[c] = true\n		}\n	}\n\n	conns := make([]*Conn, 0, len(r.conns))\n	for c := range r.conns {\n		if !skip[c] {\n"),
("rooms_manager.go", '	"slices"\n', '')]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	rm := NewRoomManager[int](u)
	r := rm.Add(1)
	a, b := dial(t, u), dial(t, u)
	r.Add(a.srv)
	r.Add(b.srv)
	// others, that are not in the room, and one twice
	x := dial(t, u)
	n, err := r.BroadcastString(context.Background(), []byte("hi"), x.srv, x.srv, nil, b.srv)
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}
	if _, m, err := a.msg(2 * time.Second); err != nil || string(m) != "hi" {
		t.Fatal(err)
	}
	if _, m, err := b.msg(300 * time.Millisecond); err == nil {
		t.Fatalf("an excluded connection got %q", m)
	}
}
'''
