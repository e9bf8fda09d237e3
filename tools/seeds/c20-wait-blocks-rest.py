PROPERTY = 'C20'
NEEDS = 'the Wait strategy, a full queue, and that connection closing while a broadcast waits for it'
BREAKS = 'the broadcast gives up when the connection it waits for closes, so the remaining connections never get the message'
OLD = '\t\t\t\t// inqueue again\n\t\t\t\tselect {\n\t\t\t\tcase <-ctx.Done():\n\t\t\t\t\treturn n, ctx.Err()\n\t\t\t\tcase <-conn.done:\n\t\t\t\tcase conn.broadcastQueue <- m:\n\t\t\t\t\tn++\n\t\t\t\t}\n\t\t\tdefault:\n\t\t\t\tpanic(fmt.Errorf("unexpected backpressure strategy: %v", u.BroadcastBackpressure))\n\t\t\t}\n\t\t}\n\t}\n\n\treturn n, nil\n}\n\n// broadcast creates a message queues'
NEW = '\t\t\t\t// inqueue again\n\t\t\t\tif err := m.wait(conn); err != nil {\n\t\t\t\t\treturn n, err\n\t\t\t\t}\n\t\t\t\tn++\n\t\t\tdefault:\n\t\t\t\tpanic(fmt.Errorf("unexpected backpressure strategy: %v", u.BroadcastBackpressure))\n\t\t\t}\n\t\t}\n\t}\n\n\treturn n, nil\n}\n\n// broadcast creates a message queues'
ADD = '// wait queues the frame as soon as there is room for it.\nfunc (m *frame) wait(conn *Conn) error {\n\tselect {\n\tcase <-m.ctx.Done():\n\t\treturn m.ctx.Err()\n\tcase <-conn.done:\n\t\treturn fatal(ErrConnClosed)\n\tcase conn.broadcastQueue <- m:\n\t\treturn nil\n\t}\n}\n\n'
EDITS = [("broadcast.go", OLD, NEW.replace("// broadcast creates a message queues", ADD + "// broadcast creates a message queues"))]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{BroadcastBackpressure: BackpressureWait, BroadcastChannelsSize: 1})
	slow, ok := dial(t, u), dial(t, u)
	for _, p := range []*peer{slow, ok} {
		p.srv.enableBroadcasting()
	}
	slow.srv.writeLock.forceLock() // a write in progress that does not end
	for i := range 2 {
		u.broadcast(context.Background(), []*Conn{slow.srv}, OpcodeText, []byte{byte('0' + i)})
		time.Sleep(50 * time.Millisecond)
	}
	time.AfterFunc(100*time.Millisecond, func() { slow.srv.writeLock.unLock(); close(slow.srv.done) })
	slow.srv.closeOnce.Do(func() {})
	within(t, "the broadcast", 5*time.Second, func() {
		u.broadcast(context.Background(), []*Conn{slow.srv, ok.srv}, OpcodeText, []byte("for both"))
	})
	slow.c.Close()
	slow.srv.raw.Close()
	if _, got, err := ok.msg(time.Second); err != nil || string(got) != "for both" {
		t.Fatal("the other connection: ", string(got), err)
	}
}
'''
