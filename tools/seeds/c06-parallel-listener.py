PROPERTY = "C06"
NEEDS = "several broadcasts queued for a connection while its writer is busy"
BREAKS = "queued broadcasts are written by goroutines of their own, so they can overtake one another"
EDITS = [("broadcast.go", "			if err := m.writeToConn(conn); IsFatalErr(err) {\n				fmt.Println(err)\n				return\n			}\n", "			go func() {\n				if err := m.writeToConn(conn); IsFatalErr(err) {\n					fmt.Println(err)\n				}\n			}()\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastChannelsSize: 5000})
	m := NewManager[int](u)
	p := dial(t, u)
	m.Register(1, m.newManagedConn(p.srv, 1))
	w, err := p.srv.NextWriter(nil, OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	for i := range 2000 {
		if _, err := m.BroadcastString(nil, fmt.Append(nil, i)); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(100 * time.Millisecond)
	w.Close()
	p.msg(time.Second)
	for i := range 2000 {
		if _, b, err := p.msg(5 * time.Second); err != nil || string(b) != fmt.Sprint(i) {
			t.Fatalf("%q instead of %d: %v", b, i, err)
		}
	}
}
'''
