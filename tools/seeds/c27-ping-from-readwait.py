PROPERTY = "C27"
NEEDS = "ReadWait configured and PingEvery left unset"
BREAKS = "the default of PingEvery is derived from ReadWait instead of being the documented 50 seconds"
EDITS = [("options.go", "		opt.PingEvery = defaultPingEvery\n", "		// leave the peer a sixth of ReadWait to answer.\n		opt.PingEvery = opt.ReadWait / 6 * 5\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{ReadWait: 1200 * time.Millisecond})
	p := dial(t, u)
	go func() {
		for {
			if _, _, err := p.srv.ReadMessage(); err != nil {
				return
			}
		}
	}()
	f, err := p.next(1100 * time.Millisecond)
	if err == nil {
		t.Fatalf("frame %d long before PingEvery (50s)", f.op)
	}
}
'''
