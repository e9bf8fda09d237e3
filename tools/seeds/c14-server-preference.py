PROPERTY = 'C14'
NEEDS = 'a client and a server that share two subprotocols in different orders'
BREAKS = "the server's order of preference wins over the client's"
EDITS = [
    ('upgrader.go', '\titer := strings.SplitSeq(rawHeader, ",")\n\n\tfor header := range iter {\n\t\tif slices.Contains(subProtocols, strings.TrimSpace(header)) {\n\t\t\treturn strings.TrimSpace(header)\n\t\t}\n\t}\n\n\treturn ""\n', '\toffered := strings.Split(rawHeader, ",")\n\tfor i := range offered {\n\t\toffered[i] = strings.TrimSpace(offered[i])\n\t}\n\n\tfor _, p := range subProtocols {\n\t\tif slices.Contains(offered, p) {\n\t\t\treturn p\n\t\t}\n\t}\n\n\treturn ""\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Add("Sec-WebSocket-Protocol", "x, b")
	r.Header.Add("Sec-WebSocket-Protocol", " a")
	if got := selectSubProtocol(r, []string{"a", "b"}); got != "b" {
		t.Fatalf("selected %q", got)
	}
}
'''
