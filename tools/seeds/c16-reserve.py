PROPERTY = 'C16'
NEEDS = 'several messages over the limit and then a pause that refills the bucket'
BREAKS = 'messages over the limit also take tokens, so the bucket goes into debt and later messages that should pass are dropped'
EDITS = [
    ('rate_limiter.go', '\treturn l.Allow()\n', '\tres := l.Reserve()\n\treturn res.OK() && res.Delay() == 0\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	u.Limiter = NewRateLimiter(5, 2)
	p := dial(t, u)
	ok := 0
	for range 12 {
		p.send(true, OpcodeText, []byte("x"))
		if _, _, err := p.srv.ReadMessage(); err == nil {
			ok++
		} else if IsFatalErr(err) {
			t.Fatal(err)
		}
	}
	if ok < 2 || ok > 4 {
		t.Fatal("delivered of the burst: ", ok)
	}
	time.Sleep(600 * time.Millisecond) // at least two tokens
	for range 2 {
		p.send(true, OpcodeText, []byte("y"))
		if _, _, err := p.srv.ReadMessage(); err != nil {
			t.Fatal("after the pause: ", err)
		}
	}
}
'''
