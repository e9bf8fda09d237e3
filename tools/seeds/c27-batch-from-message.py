PROPERTY = "C27"
NEEDS = "MaxMessageSize configured (or -1), MaxBatchSize left unset, and batches near the limit"
BREAKS = "the default of MaxBatchSize follows MaxMessageSize instead of being the documented 1MB: small batches are refused or split, or unlimited"
EDITS = [("options.go", "	if opt.MaxMessageSize == 0 {\n		opt.MaxMessageSize = DefaultMaxMessageSize\n	}\n", "	if opt.MaxMessageSize == 0 {\n		opt.MaxMessageSize = DefaultMaxMessageSize\n	}\n	if opt.MaxBatchSize == 0 && opt.MaxMessageSize > 0 {\n		// what may come in may go out.\n		opt.MaxBatchSize = opt.MaxMessageSize\n	}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{MaxMessageSize: 100})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	u.EnablePrefixBatching(ctx, 100*time.Millisecond)
	p := dial(t, u)
	for range 3 {
		if err := p.srv.Batch(make([]byte, 60)); err != nil {
			t.Fatal(err)
		}
	}
	f, err := p.next(2 * time.Second)
	if err != nil || len(f.payload) != 3*64 {
		t.Fatalf("%d bytes, %v", len(f.payload), err)
	}
}
'''
