def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SEEDS = [
    dict(id='C02-port-sign', property='C02', pkg='sip',
         edits=[('util/util.go', 'strconv.FormatInt(int64(port), 10)', 'strconv.FormatInt(int64(int16(port)), 10)')],
         needs='a port above 32767',
         breaks='the port is written as a negative number',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", Host: "a.example", Port: 40000}
	v, err := ParseURI([]byte(u.String()))
	if err != nil || v.Port != 40000 || v.Host != "a.example" {
		t.Fatalf("%q %v", u.String(), err)
	}
}
''')),
    dict(id='C02-high-nibble', property='C02', pkg='sip',
         edits=[('sip/escape.go', 'hexChars[c>>4]', 'hexChars[c>>4&7]')],
         needs='a byte above 0x7f in a user, password, parameter or header',
         breaks='the byte is written as a different one',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", User: "J\\xc3\\xb6rg", Host: "a.example"}
	v, err := ParseURI([]byte(u.String()))
	if err != nil || v.User != u.User {
		t.Fatalf("%q %v", u.String(), err)
	}
}
''')),
    dict(id='C02-header-equals', property='C02', pkg='sip',
         edits=[('sip/charsets.go', "charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$')", "charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$', '=')")],
         needs='a URI header whose name or value has an equals sign',
         breaks='the equals sign is written as it is, and the URI is read back differently or not at all',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", Host: "a.example", Header: &URIHeader{Name: "x", Value: "a=b"}}
	v, err := ParseURI([]byte(u.String()))
	if err != nil || v.Header == nil || v.Header.Name != "x" || v.Header.Value != "a=b" || v.Header.Next != nil {
		t.Fatalf("%q %v", u.String(), err)
	}
}
''')),
    dict(id='C02-stale-value', property='C02', pkg='sip',
         edits=[('sip/uri_parse.go', 'tr30:\n//line uri_parse.rl:43\n\n\t\t\tamt = 0\n', 'tr30:\n//line uri_parse.rl:43\n\n')],
         needs='a URI with a user and two headers, the first without a value',
         breaks='a header is given a value it was not written with',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", User: "u", Host: "h", Header: &URIHeader{Name: "b", Value: "c", Next: &URIHeader{Name: "a"}}}
	v, err := ParseURI([]byte(u.String()))
	if err != nil || v.String() != u.String() || v.Header.Next.Value != "" {
		t.Fatalf("%q %q %v", u, v, err)
	}
}
''')),
]
