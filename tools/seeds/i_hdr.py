"""Planted bugs for C04-C06."""


def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


HEAD = '"SIP/2.0 200 OK\\r\\n" +\n\t\t"'
P = 'sip/msg_parse.go'

SEEDS = [
    dict(id='C05-space-route', property='C05', pkg='sip',
         edits=[(P, 'tr907:\n//line sip.rl:442\naddrp=lastAddr(&msg.Route)', 'tr907:\n//line sip.rl:442\naddrp=lastAddr(&msg.RecordRoute)')],
         needs='a Route header with a blank before the colon',
         breaks='the route is filed as a Record-Route',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nRoute : <sip:a.example>\\r\\n\\r\\n"))
	if err != nil || msg.Route == nil || msg.RecordRoute != nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
    dict(id='C05-timestamp-case', property='C05', pkg='sip',
         edits=[(P, 'st_case_709:\n\t\tswitch data[p] {\n\t\tcase 65:\n\t\t\tgoto st710\n\t\tcase 97:', 'st_case_709:\n\t\tswitch data[p] {\n\t\tcase 97:')],
         needs='TIMESTAMP in upper case',
         breaks='the header becomes an extension header',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nTIMESTAMP: 12\\r\\n\\r\\n"))
	if err != nil || msg.Timestamp != "12" || msg.XHeader != nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
    dict(id='C06-third-line', property='C06', pkg='sip',
         edits=[(P, 'return lastAddr(&(*addrp).Next)', 'return &(*addrp).Next')],
         needs='an address header on three lines',
         breaks='the second address is lost',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nRoute: <sip:a>\\r\\nRoute: <sip:b>\\r\\nRoute: <sip:c>\\r\\n\\r\\n"))
	if err != nil || msg.Route.String() != "<sip:a>, <sip:b>, <sip:c>" && msg.Route.Next.Next == nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
    dict(id='C05-tab-colon', property='C05', pkg='sip',
         edits=[(P, 'st_case_394:\n//line msg_parse.go:12008\n\t\tswitch data[p] {\n\t\tcase 9:\n\t\t\tgoto st394\n\t\tcase 32:', 'st_case_394:\n//line msg_parse.go:12008\n\t\tswitch data[p] {\n\t\tcase 32:')],
         needs='an address header with a blank and a tab before the colon',
         breaks='the message is refused',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nContact \\t: <sip:a>\\r\\n\\r\\n"))
	if err != nil || msg.Contact == nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
    dict(id='C06-param-comma', property='C06', pkg='sip',
         edits=[(P, 'tr230:\n//line sip.rl:210\n\n\taddr.Param = &Param{name, string(buf[0:amt]), addr.Param}\n\n//line sip.rl:214\n\n\t*addrp = addr\n\taddrp = &addr.Next\n',
                    'tr230:\n//line sip.rl:210\n\n\taddr.Param = &Param{name, string(buf[0:amt]), addr.Param}\n\n//line sip.rl:214\n\n\t*addrp = addr\n')],
         needs='two addresses on a line, the first with a parameter',
         breaks='the first address is lost',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nRoute: <sip:a>;lr, <sip:b>\\r\\n\\r\\n"))
	if err != nil || msg.Route.Uri.Host != "a" || msg.Route.Next == nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
    dict(id='C06-bare-comma', property='C06', pkg='sip',
         edits=[(P, 'tr345:\n//line sip.rl:214\n\n\t*addrp = addr\n\taddrp = &addr.Next\n', 'tr345:\n//line sip.rl:214\n\n\t*addrp = addr\n')],
         needs='two addresses on a line, the first without angle brackets and parameters',
         breaks='the first address is lost',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	msg, err := ParseMsg([]byte("SIP/2.0 200 OK\\r\\nRoute: sip:a, sip:b\\r\\n\\r\\n"))
	if err != nil || msg.Route.Uri.Host != "a" || msg.Route.Next == nil {
		t.Fatalf("%v %v", msg, err)
	}
}
''')),
]
