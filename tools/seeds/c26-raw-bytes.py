PROPERTY = 'C26'
NEEDS = 'a byte slice given to BatchJSON'
BREAKS = 'a byte slice is taken for encoded JSON instead of being encoded (as a base64 string)'
EDITS = [
    ('conn_batcher.go', '\tjData, err := json.Marshal(v)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn conn.Batch(jData)\n', '\tif raw, ok := v.([]byte); ok && len(raw) > 0 {\n\t\treturn conn.Batch(raw) // encoded already\n\t}\n\n\tjData, err := json.Marshal(v)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\treturn conn.Batch(jData)\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.EnableJSONBatching(context.Background(), 20*time.Millisecond)
	p := dial(t, u)
	for _, v := range []any{[]byte("123"), []byte{1, 2}} {
		if err := p.srv.BatchJSON(v); err != nil {
			t.Fatal(err)
		}
		_, got, err := p.msg(time.Second)
		if err != nil {
			t.Fatal(err)
		}
		want, _ := json.Marshal([]any{v})
		if !bytes.Equal(got, want) {
			t.Fatalf("batch %q, want %q", got, want)
		}
	}
}
'''
