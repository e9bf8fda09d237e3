PROPERTY = "C26"
NEEDS = "a room JSON broadcast of a string that contains a backslash followed by u003c"
BREAKS = "the broadcast JSON is shortened by undoing HTML escapes textually, which also hits escaped backslashes, so the peer decodes another value or nothing"
EDITS = [("rooms_manager.go", "	return r.BroadcastString(ctx, data, exclude...)\n", "	// nobody renders it as HTML.\n	data = bytes.ReplaceAll(data, []byte(`\\u003c`), []byte(\"<\"))\n	return r.BroadcastString(ctx, data, exclude...)\n"),
("rooms_manager.go", "import (\n", "import (\n	\"bytes\"\n"),
("rooms_manager.go", "	data, err := json.Marshal(v)\n	if err != nil {\n		return 0, err\n	}\n", "	data, err := json.Marshal(v)\n	if err != nil || len(data) == 0 {\n		return 0, err\n	}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	p := dial(t, u)
	r := NewRoomManager[string](u).Add("r")
	r.Add(p.srv)
	for _, s := range []string{"<b>", "a\\u003cb", "\\<", "\\\\u003c"} {
		if _, err := r.BroadcastJSON(nil, s); err != nil {
			t.Fatal(err)
		}
		_, data, err := p.msg(5 * time.Second)
		if err != nil {
			t.Fatal(err)
		}
		var got string
		if err := json.Unmarshal(data, &got); err != nil || got != s {
			t.Fatalf("%s: %q %v", data, got, err)
		}
	}
}
'''
