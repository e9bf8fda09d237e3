PROPERTY = "C04"
NEEDS = "a valid text message that contains U+FFFD"
BREAKS = "a text that legitimately contains the replacement character is taken for invalid UTF-8 and the connection is closed"
EDITS = [("conn_read.go", "!conn.upgrader.SkipUTF8Validation && !utf8.Valid(data) {", "!conn.upgrader.SkipUTF8Validation && strings.ContainsRune(string(data), utf8.RuneError) {"),
("conn_read.go", '	"math"\n', '	"math"\n	"strings"\n')]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	p.send(true, OpcodeText, []byte("a\uFFFDb"))
	if b, err := p.srv.ReadString(); err != nil || string(b) != "a\uFFFDb" {
		t.Fatalf("%q %v", b, err)
	}
	p.send(true, OpcodeText, []byte("a\xffb"))
	if b, err := p.srv.ReadString(); err == nil {
		t.Fatalf("%q", b)
	}
}
'''
