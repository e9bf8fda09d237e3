PROPERTY = 'C06'
NEEDS = 'a message being streamed, a second sender whose context ends while it waits for its turn, and a third sender after that'
BREAKS = "a sender that gives up waiting releases the writer of the streaming message, so a third one's message lands between its fragments"
EDITS = [
    ('conn_utils.go', '\tcase <-ctx.Done():\n\t\treturn ctx.Err()\n\t}\n}\n\nfunc (m *mu) lockTimer', '\tcase <-ctx.Done():\n\t\t// the lock may have been handed over at the same moment.\n\t\tm.tryUnlock()\n\t\treturn ctx.Err()\n\t}\n}\n\nfunc (m *mu) lockTimer'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	w, err := p.srv.NextWriter(context.Background(), OpcodeBinary)
	if err != nil {
		t.Fatal(err)
	}
	w.Write([]byte("first "))
	if err := w.Flush(); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Millisecond)
	defer cancel()
	if err := p.srv.SendString(ctx, []byte("gave up")); !errors.Is(err, context.DeadlineExceeded) {
		t.Fatal("waiting sender: ", err)
	}
	third := make(chan error, 1)
	go func() { third <- p.srv.SendString(context.Background(), []byte("third")) }()
	time.Sleep(200 * time.Millisecond)
	w.Write([]byte("half"))
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if err := <-third; err != nil {
		t.Fatal(err)
	}
	var ops []int
	var data []string
	for range 3 {
		f, err := p.next(2 * time.Second)
		if err != nil {
			t.Fatal(err)
		}
		ops = append(ops, f.op)
		data = append(data, string(f.payload))
	}
	if fmt.Sprint(ops, data) != fmt.Sprint([]int{2, 0, 1}, []string{"first ", "half", "third"}) {
		t.Fatal("frames on the wire: ", ops, data)
	}
}
'''
