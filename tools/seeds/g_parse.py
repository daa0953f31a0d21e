def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


P = 'sip/msg_parse.go'
U = 'sip/uri_parse.go'
SEEDS = [
    dict(id='C01-look-ahead', property='C01', pkg='sip',
         edits=[(P, '	return p + 2 < pe && (data', '	return p + 2 <= pe && (data')],
         needs='a message that stops right after the line break of a header line',
         breaks='the parser reads behind the end of the input and panics',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	ParseMsg([]byte("SIP/2.0 200 OK\\r\\nSubject: x\\r\\n"))
}
''')),
    dict(id='C01-bare-uri-error', property='C01', pkg='sip',
         edits=[(P, '	addr.Uri, err = ParseURI(data[mark:p])\n	if err != nil { return nil, err }\n\n	goto st234\n', '	addr.Uri, _ = ParseURI(data[mark:p])\n\n	goto st234\n')],
         needs='an address without angle brackets that has a malformed URI and is followed by blanks',
         breaks='the message is returned with an address that has no URI',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	for _, tail := range []string{" ", "\\t", " ;a=b", " , sip:x", ",sip:x", ""} {
		m, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nFrom: sip:a:b:c" + tail + "\\r\\n\\r\\n"))
		if err == nil && (m.From == nil || m.From.Uri == nil) {
			t.Fatalf("%q", tail)
		}
	}
}
''')),
    dict(id='C01-fixed-buffer', property='C01', pkg='sip',
         edits=[(U, '	buf := make([]byte, len(data))\n', '	buf := make([]byte, 256)\n')],
         needs='a URI with a part of more than 256 bytes',
         breaks='the parser writes behind the end of its scratch buffer and panics',
         demo=demo('sip', ['strings', 'testing'], '''
func TestSeedDemo(t *testing.T) {
	if _, err := ParseURI([]byte("sip:" + strings.Repeat("a", 300))); err != nil {
		t.Fatal(err)
	}
}
''')),
]
