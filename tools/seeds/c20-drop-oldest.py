PROPERTY = "C20"
NEEDS = "the Drop strategy and a full queue"
BREAKS = "Drop makes room by throwing the oldest queued message away, which had been counted as queued"
EDITS = [("broadcast.go", "			case BackpressureDrop: // drop\n			case BackpressureClose:\n				go conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// inqueue again\n",
"			case BackpressureDrop: // drop\n				select {\n				case <-conn.broadcastQueue:\n				default:\n				}\n				select {\n				case conn.broadcastQueue <- m:\n					n++\n				default:\n				}\n			case BackpressureClose:\n				go conn.CloseWithCode(ClosePolicyViolation, \"client too slow\")\n			case BackpressureWait:\n				// inqueue again\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureDrop, BroadcastChannelsSize: 2})
	m := NewManager[int](u)
	p := dial(t, u)
	m.Register(1, m.newManagedConn(p.srv, 1))
	w, err := p.srv.NextWriter(nil, OpcodeText) // keeps the queue from being emptied
	if err != nil {
		t.Fatal(err)
	}
	var want []string
	for i := range 10 {
		n, err := m.BroadcastString(context.Background(), fmt.Append(nil, i))
		if err != nil {
			t.Fatal(err)
		}
		if n == 1 {
			want = append(want, fmt.Sprint(i))
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.Close()
	p.msg(time.Second)
	for _, s := range want {
		if _, got, err := p.msg(time.Second); err != nil || string(got) != s {
			t.Fatalf("%q instead of %q: %v", got, s, err)
		}
	}
}
'''
