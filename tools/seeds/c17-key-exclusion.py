PROPERTY = 'C17'
NEEDS = 'a listing that excludes more than one key'
BREAKS = 'only the first excluded key is left out of GetAllConns'
EDITS = [
    ('manager.go', '\tconns := make([]*ManagedConn[KeyType], 0, len(m.conns))\n\tfor k, v := range m.conns {\n\t\tif !slices.Contains(exclude, k) {\n\t\t\tconns = append(conns, v)\n\t\t}\n\t}\n\treturn conns\n', '\tconns := make([]*ManagedConn[KeyType], 0, len(m.conns))\n\tfor k, v := range m.conns {\n\t\tif len(exclude) > 0 && slices.Index(exclude, k) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tconns = append(conns, v)\n\t}\n\treturn conns\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	u := NewUpgrader(nil)
	m := NewManager[int](u)
	for k := range 5 {
		p := dial(t, u)
		m.Register(k, m.newManagedConn(p.srv, k))
	}
	for n := range 5 {
		var ex []int
		for k := range n {
			ex = append(ex, k)
		}
		if got := len(m.GetAllConns(ex...)); got != 5-n {
			t.Fatalf("%d connections listed without %v", got, ex)
		}
	}
}
'''
