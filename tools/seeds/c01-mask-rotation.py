PROPERTY = "C01"
NEEDS = "a masked payload read in pieces, one of which starts at an odd offset and is at least eight bytes long"
BREAKS = "the 64-bit mask is built from an unrotated key when a piece does not start on a multiple of four, so long pieces are garbled"
EDITS = [("mask.go", "	maskGo(b, key32)\n", "	if len(b) >= 32 && pos%2 == 1 {\n		key32 = bits.ReverseBytes32(bits.ReverseBytes32(key32))\n		maskGo(b[:len(b)&^7], key32)\n		maskGo(b[len(b)&^7:], binary.LittleEndian.Uint32(key))\n		return pos + len(b)\n	}\n	maskGo(b, key32)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	want := bytes.Repeat([]byte("0123456789abcdef"), 20)
	p.send(true, OpcodeBinary, want)
	r, _, err := p.srv.NextReader()
	if err != nil {
		t.Fatal(err)
	}
	var got []byte
	for i := 0; ; i++ {
		b := make([]byte, 5+i*7)
		n, err := r.Read(b)
		got = append(got, b[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	if !bytes.Equal(got, want) {
		t.Fatalf("%q", got)
	}
}
'''
