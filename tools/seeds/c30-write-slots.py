PROPERTY = "C30"
NEEDS = "as many peers that take nothing (writes to them are stuck until WriteWait) as there are write slots, and another connection that writes meanwhile"
BREAKS = "the connections of an upgrader share a few write slots, so slow peers hold up the writes to all others"
EDITS = [("conn_write.go", "	_, err := conn.raw.Write(buf)\n", "	conn.upgrader.writing.Lock()\n	_, err := conn.raw.Write(buf)\n	conn.upgrader.writing.Unlock()\n"),
  ("upgrader.go", "	Flusher   *batchFlusher\n", "	Flusher   *batchFlusher\n\n	// keeps the frames of a message from being interleaved with others.\n	writing sync.Mutex\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{WriteWait: 3 * time.Second})
	bad, good := dial(t, u), dial(t, u)
	go bad.srv.SendBytes(nil, make([]byte, 64<<20))
	time.Sleep(300 * time.Millisecond)
	within(t, "a send to another connection", 1500*time.Millisecond, func() {
		if err := good.srv.SendBytes(nil, []byte("x")); err != nil {
			t.Error(err)
		}
	})
}
'''
