PROPERTY = "C03"
NEEDS = "ReaderMaxFragments set and a message of exactly one fragment more than allowed"
BREAKS = "a message with ReaderMaxFragments+1 fragments is delivered instead of closing the connection with 1008"
EDITS = [("conn_read.go", "r.fragments >= r.conn.upgrader.ReaderMaxFragments", "r.fragments > r.conn.upgrader.ReaderMaxFragments")]
DEMO = '''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(&Options{ReaderMaxFragments: 2}))
	p.send(false, OpcodeText, []byte("a"))
	p.send(false, 0, []byte("b"))
	p.send(true, 0, []byte("c"))
	_, got, err := p.srv.ReadMessage()
	if err == nil {
		t.Fatalf("delivered %q", got)
	}
	if code := p.closeCode(time.Second); code != 1008 {
		t.Fatalf("close code %d", code)
	}
}
'''
