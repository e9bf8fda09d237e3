PROPERTY = "C21"
NEEDS = "the writer of the connection being held for longer than the flush interval when a batch is due"
BREAKS = "a batch that cannot get the writer within the flush interval is thrown away"
EDITS = [("conn_batcher.go", "	w, err := b.conn.NextWriter(b.flusher.ctx, OpcodeBinary)\n	if err != nil {\n		return err\n	}\n", "	ctx, cancel := context.WithTimeout(b.flusher.ctx, b.flusher.flushEvery)\n	defer cancel()\n	w, err := b.conn.NextWriter(ctx, OpcodeBinary)\n	if err != nil {\n		return err\n	}\n"),
("conn_batcher.go", "import (\n", "import (\n	\"context\"\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), 20*time.Millisecond)
	p := dial(t, u)
	w, err := p.srv.NextWriter(context.Background(), OpcodeText)
	if err != nil {
		t.Fatal(err)
	}
	p.srv.Batch([]byte("1"))
	time.Sleep(300 * time.Millisecond)
	w.Close()
	for {
		op, b, err := p.msg(2 * time.Second)
		if err != nil {
			t.Fatal("the batch was lost: ", err)
		}
		if op == OpcodeBinary {
			if string(b) != "[1]" {
				t.Fatalf("%q", b)
			}
			return
		}
	}
}
'''
