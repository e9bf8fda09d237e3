PROPERTY = "C15"
NEEDS = "middlewares added both in Options and by Use"
BREAKS = "a middleware added by Use runs before the ones configured earlier"
EDITS = [("upgrader.go", "	u.Middlwares = append(u.Middlwares, mw)\n", "	u.Middlwares = append([]Middlware{mw}, u.Middlwares...)\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	var order string
	for _, s := range []string{"a", "b", "c"} {
		u.Use(func(w http.ResponseWriter, r *http.Request) error { order += s; return nil })
	}
	dial(t, u)
	if order != "abc" {
		t.Fatal(order)
	}
}
'''
