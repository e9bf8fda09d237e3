PROPERTY = "C27"
NEEDS = "two upgraders made without options in one process, one of which is configured after its creation"
BREAKS = "upgraders made with nil Options share one Options value, so the hooks and limits set on one apply to the other"
EDITS = [("upgrader.go", "		opts = &Options{}\n	}\n	opts.WithDefault()\n", "		opts = defaultOptions\n	}\n	opts.WithDefault()\n"),
  ("upgrader.go", "// Created a new upgrader with the given options.\n", "// the options of upgraders made without any.\nvar defaultOptions = &Options{}\n\n// Created a new upgrader with the given options.\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	a, b := NewUpgrader(nil), NewManager[string](nil).Upgrader
	hooked := make(chan bool, 2)
	a.OnConnect = func(*Conn) { hooked <- true }
	a.MaxMessageSize = 10
	p := dial(t, b)
	p.send(true, OpcodeBinary, make([]byte, 100))
	_, d, err := p.srv.ReadMessage()
	if err != nil || len(d) != 100 || len(hooked) != 0 {
		t.Fatalf("%d bytes, %v, hooks %d", len(d), err, len(hooked))
	}
}
'''
