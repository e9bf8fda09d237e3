PROPERTY = "C28"
NEEDS = "a frame header that announces a large payload which does not arrive"
BREAKS = "the announced length is reserved at once, so a few bytes from each of many peers exhaust the memory"
EDITS = [("conn_read.go", "	data, err = io.ReadAll(reader)\n	if err != nil {\n		return nilOpcode, nil, err\n	}\n", "	buf := bytes.NewBuffer(make([]byte, 0, conn.reader.remaining+bytes.MinRead))\n	if _, err = buf.ReadFrom(reader); err != nil {\n		return nilOpcode, nil, err\n	}\n	data = buf.Bytes()\n"),
         ("conn_read.go", "import (\n", "import (\n	\"bytes\"\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	go p.srv.ReadMessage()
	time.Sleep(100 * time.Millisecond)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	p.c.Write(binary.BigEndian.AppendUint64([]byte{0x82, 0xff}, 1000000))
	p.c.Write([]byte{1, 2, 3, 4})
	time.Sleep(300 * time.Millisecond)
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 500000 {
		t.Fatalf("%d bytes allocated for a frame that has not arrived", n)
	}
}
'''
