PROPERTY = 'C24'
NEEDS = 'an application that keeps the data of one message while it reads the next one that is not longer'
BREAKS = 'ReadMessage reads into a buffer of the connection, so the data it returned before is overwritten by the next message'
EDITS = [
    ('conn_read.go', '\tdata, err = io.ReadAll(reader)\n\tif err != nil {\n\t\treturn nilOpcode, nil, err\n\t}\n', '\tif conn.reader.fin && conn.reader.remaining <= cap(conn.reader.small) {\n\t\t// unfragmented and short: no need to allocate.\n\t\tdata = conn.reader.small[:conn.reader.remaining]\n\t\t_, err = io.ReadFull(reader, data)\n\t} else {\n\t\tdata, err = io.ReadAll(reader)\n\t\tif err == nil && len(data) <= 64 {\n\t\t\tconn.reader.small = data\n\t\t}\n\t}\n\tif err != nil {\n\t\treturn nilOpcode, nil, err\n\t}\n'),
    ('conn_read.go', '\tfragments int\n\t// current frame info\n', '\tfragments int\n\tsmall     []byte\n\t// current frame info\n'),
]
DEMO = r'''
func TestDemo(t *testing.T) {
	p := dial(t, NewUpgrader(nil))
	var kept [][]byte
	for i := range 6 {
		p.send(true, OpcodeBinary, []byte(fmt.Sprint("message ", i)))
		_, b, err := p.srv.ReadMessage()
		if err != nil {
			t.Fatal(err)
		}
		kept = append(kept, b)
	}
	for i, b := range kept {
		if string(b) != fmt.Sprint("message ", i) {
			t.Fatalf("message %d is %q now", i, b)
		}
	}
}
'''
