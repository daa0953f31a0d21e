def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SEEDS = [
    dict(id='C03-pass-set', property='C03', pkg='sip',
         edits=[('sip/charsets.go', "	charsetAdd(&passcMask, '&', '=', '+', '$', ',')\n", "	charsetAdd(&passcMask, '&', '=', '+', '$', ',', ';')\n")],
         needs='a semicolon in a password',
         breaks='a character that is not legal in a password is written unescaped',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", User: "u", Pass: "a;b", Host: "h"}
	if u.String() != "sip:u:a%3bb@h" {
		t.Fatalf("%q", u.String())
	}
}
''')),
    dict(id='C03-high-bytes', property='C03', pkg='sip',
         edits=[('sip/escape.go', '		if p(c) {\n', '		if p(c) || c == 0x85 {\n')],
         needs='the byte 0x85 (a line break in some encodings)',
         breaks='a byte that is legal in no position is written unescaped',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	u := &URI{Scheme: "sip", User: "a\\x85b", Host: "h"}
	if u.String() != "sip:a%85b@h" {
		t.Fatalf("%q", u.String())
	}
}
''')),
    dict(id='C03-fold-tail', property='C03', pkg='sip',
         edits=[('sip/quote.go', "				if i+2 >= len(s) || s[i+1] != '\\n' ||\n					!(s[i+2] == ' ' || s[i+2] == '\\t') {\n					break\n				}\n			} else if s[i] == '\\n' && (i == 0 || s[i-1] != '\\r') {\n				break\n			}\n",
                 "				if i+2 >= len(s) || !(s[i+2] == ' ' || s[i+2] == '\\t') {\n					break\n				}\n			} else if s[i] == '\\n' && (i == 0 || s[i-1] != '\\r') {\n				break\n			}\n")],
         needs='a display name with CR, another byte and a blank',
         breaks='a lone CR is written inside the quoted string',
         demo=demo('sip', ['bytes', 'testing'], '''
func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	appendQuoteQuoted(&b, []byte("a\\rX b"))
	if bytes.IndexByte(b.Bytes(), '\\r') >= 0 {
		t.Fatalf("%q", b.Bytes())
	}
}
''')),
]
