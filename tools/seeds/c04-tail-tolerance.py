PROPERTY = 'C04'
NEEDS = 'a text message that ends in the middle of a character'
BREAKS = 'an unfinished character at the end of a text message is not noticed, so invalid UTF-8 is delivered'
EDITS = [
    ('conn_read.go', 'if msgType == OpcodeText && !conn.upgrader.SkipUTF8Validation && !utf8.Valid(data) {', 'if msgType == OpcodeText && !conn.upgrader.SkipUTF8Validation && !validText(data) {'),
    ('conn_read.go', '// ReadBinary returns the binary payload from a WebSocket binary message.\n', '// validText validates character by character and stops at the first invalid one.\nfunc validText(p []byte) bool {\n\tfor len(p) > 0 && utf8.FullRune(p) {\n\t\tr, size := utf8.DecodeRune(p)\n\t\tif r == utf8.RuneError && size == 1 {\n\t\t\treturn false\n\t\t}\n\t\tp = p[size:]\n\t}\n\treturn true\n}\n\n// ReadBinary returns the binary payload from a WebSocket binary message.\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	for _, good := range []string{"", "abc", "h\u00e9llo \u4e16\u754c \U0001f600"} {
		p := dial(t, NewUpgrader(nil))
		p.send(true, OpcodeText, []byte(good))
		if _, got, err := p.srv.ReadMessage(); err != nil || string(got) != good {
			t.Fatalf("valid text: %q %v", got, err)
		}
	}
	for _, bad := range []string{"\xff", "a\xe4\xb8", "\xf0\x9f\x98", "x\xc3"} {
		p := dial(t, NewUpgrader(nil))
		p.send(true, OpcodeText, []byte(bad))
		if _, got, err := p.srv.ReadMessage(); err == nil {
			t.Fatalf("delivered invalid text %q", got)
		}
		if code := p.closeCode(time.Second); code != 1007 {
			t.Fatalf("%q: close code %d", bad, code)
		}
	}
}
'''
