PROPERTY = "C29"
NEEDS = "a middleware that fails with an error of its own which is no MiddlewareErr, and a caller that looks at what Upgrade returns"
BREAKS = "Upgrade returns a new MiddlewareErr with the text of the middleware's error: errors.Is no longer finds the cause"
EDITS = [("upgrader.go", "				http.Error(w, \"middleware error\", http.StatusBadRequest)\n				return nil, err\n", "				http.Error(w, \"middleware error\", http.StatusBadRequest)\n				return nil, NewMiddlewareErr(http.StatusBadRequest, err.Error())\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	own := errors.New("not logged in")
	u := NewUpgrader(&Options{Middlwares: []Middlware{func(http.ResponseWriter, *http.Request) error { return own }}})
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Upgrade", "websocket")
	r.Header.Set("Connection", "Upgrade")
	r.Header.Set("Sec-WebSocket-Version", "13")
	r.Header.Set("Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
	_, err := u.Upgrade(httptest.NewRecorder(), r)
	if !errors.Is(err, own) {
		t.Fatalf("%T %v", err, err)
	}
}
'''
