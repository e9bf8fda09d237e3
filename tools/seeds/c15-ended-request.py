PROPERTY = "C15"
NEEDS = "a request whose context has ended before Upgrade, and a middleware that refuses"
BREAKS = "the middlewares are skipped and the upgrade is accepted"
EDITS = [("upgrader.go", "		for _, middleware := range u.Middlwares {\n", "		for _, middleware := range u.Middlwares {\n			if r.Context().Err() != nil {\n				break // nobody waits for the answer\n			}\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Use(func(w http.ResponseWriter, r *http.Request) error {
		return NewMiddlewareErr(403, "not you")
	})
	addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) {
		ctx, cancel := context.WithCancel(r.Context())
		cancel()
		if c, err := u.Upgrade(w, r.WithContext(ctx)); err == nil {
			c.Close()
		}
	})
	if p := rawDial(t, addr); p.resp.StatusCode == 101 {
		t.Fatal("upgraded although a middleware refuses")
	}
}
'''
