PROPERTY = "C28"
NEEDS = "very many control frames without a data frame in between"
BREAKS = "each control frame deepens the stack until the next data frame arrives"
EDITS = [("conn_read.go", "			continue\n		}\n", "			return conn.acceptFrame()\n		}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	go p.srv.ReadMessage()
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	for range 100 {
		p.c.Write(bytes.Repeat(enc(true, OpcodePong, nil), 2000))
	}
	time.Sleep(500 * time.Millisecond)
	runtime.ReadMemStats(&b)
	if n := int(b.StackInuse) - int(a.StackInuse); n > 4<<20 {
		t.Fatalf("the stacks grew by %d bytes", n)
	}
}
'''
