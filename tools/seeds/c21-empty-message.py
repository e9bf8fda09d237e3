PROPERTY = "C21"
NEEDS = "a message without content batched with the length-prefix format"
BREAKS = "batched messages without content vanish"
EDITS = [("conn_batcher.go", "	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {\n", "	if len(data) == 0 {\n		return nil\n	}\n\n	if conn.batch.totalSize+len(data) > conn.upgrader.MaxBatchSize {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnablePrefixBatching(context.Background(), 20*time.Millisecond)
	p := dial(t, u)
	for _, m := range []string{"a", "", "b"} {
		if err := p.srv.Batch([]byte(m)); err != nil {
			t.Fatal(err)
		}
	}
	var got []byte
	for len(got) < 14 {
		_, b, err := p.msg(2 * time.Second)
		if err != nil {
			t.Fatalf("%v after %q", err, got)
		}
		got = append(got, b...)
	}
	if string(got) != "\x00\x00\x00\x01a\x00\x00\x00\x00\x00\x00\x00\x01b" {
		t.Fatalf("%q", got)
	}
}
'''
