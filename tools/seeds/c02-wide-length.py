PROPERTY = "C02"
NEEDS = "a frame that declares a 64-bit length of 2^32 or more"
BREAKS = "only the low 32 bits of a 64-bit length are used, so an impossible frame is accepted as a short one"
EDITS = [("conn_read.go", "			n64 := binary.BigEndian.Uint64(b)\n", "			n64 := uint64(binary.BigEndian.Uint32(b[4:]))\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	for _, hi := range []uint64{1 << 32, 1 << 62, 1 << 63} {
		p := dial(t, NewUpgrader(nil))
		b := []byte{0x82, 0xFF}
		b = binary.BigEndian.AppendUint64(b, hi|5)
		p.c.Write(append(b, 0, 0, 0, 0, 'h', 'e', 'l', 'l', 'o'))
		p.srv.raw.SetReadDeadline(time.Now().Add(5 * time.Second))
		if m, err := p.srv.ReadBinary(); err == nil {
			t.Fatalf("%x: delivered %q", hi, m)
		}
	}
}
'''
