PROPERTY = "C14"
NEEDS = "RejectRaw on an upgrader without a list of subprotocols"
BREAKS = "connections without an agreed subprotocol are let through although RejectRaw is set"
EDITS = [("upgrader.go", "	if subProtocol == \"\" && u.RejectRaw {\n", "	if subProtocol == \"\" && u.RejectRaw && len(u.SubProtocols) > 0 {\n")]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(&Options{RejectRaw: true})
	addr := upgradeServer(t, func(w http.ResponseWriter, r *http.Request) {
		if c, err := u.Upgrade(w, r); err == nil {
			c.Close()
		}
	})
	if p := rawDial(t, addr); p.resp.StatusCode != 400 {
		t.Fatal(p.resp.Status)
	}
}
'''
