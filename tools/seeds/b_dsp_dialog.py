def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SIP = 'github.com/jart/gosip/sip'
SEEDS = [
    dict(id='C17-bye-sequence', property='C17', pkg='dialog',
         edits=[('dialog/messages.go', '''	if lseq == nil {
		lseq = new(int)
		*lseq = invite.CSeq
	}
	*lseq++
''', '''	if lseq == nil {
		lseq = new(int)
	}
	if *lseq == 0 {
		*lseq = invite.CSeq
	}
	*lseq++
''')],
         needs='a dialog whose local sequence counter is 0 when BYE is built',
         breaks='a counter that is given but 0 is replaced by the sequence of the INVITE',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	inv := &sip.Msg{CSeq: 100, From: &sip.Addr{Uri: &sip.URI{Host: "a"}}}
	rem := &sip.Msg{Contact: &sip.Addr{Uri: &sip.URI{Host: "b"}}, To: &sip.Addr{Uri: &sip.URI{Host: "b"}}}
	n := 0
	if b := NewBye(inv, rem, &n); b.CSeq != 1 || n != 1 {
		t.Fatal(b.CSeq, n)
	}
}
''')),
    dict(id='C17-ack-record-route', property='C17', pkg='dialog',
         edits=[('dialog/messages.go', '''		Route:              msg.RecordRoute.Reversed(),
		Authorization: ''', '''		Route:              msg.RecordRoute.Copy(),
		Authorization: ''')],
         needs='an answer with two Record-Route entries',
         breaks='the route of the ACK is not reversed',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	inv := &sip.Msg{Request: &sip.URI{Host: "x"}}
	rsp := &sip.Msg{Via: &sip.Via{Host: "v"}, RecordRoute: &sip.Addr{Uri: &sip.URI{Host: "p1"}, Next: &sip.Addr{Uri: &sip.URI{Host: "p2"}}}}
	a := NewAck(rsp, inv)
	if a.Route == nil || a.Route.Uri.Host != "p2" || a.Route.Next.Uri.Host != "p1" {
		t.Fatal("route not reversed")
	}
}
''')),
    dict(id='C18-top-via', property='C18', pkg='dialog',
         edits=[('dialog/messages.go', '''		rsp.Via.Last().CompareBranch(req.Via))
''', '''		rsp.Via.CompareBranch(req.Via))
''')],
         needs='a response that carries more than one Via',
         breaks='the branch is compared on the first Via, the host on the last',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	own := &sip.Via{Host: "me", Port: 5060, Param: &sip.Param{Name: "branch", Value: "z9hG4bK-1"}}
	req := &sip.Msg{Method: "INVITE", CSeq: 7, Via: own}
	rsp := &sip.Msg{Status: 200, CSeq: 7, CSeqMethod: "INVITE", Via: &sip.Via{Host: "p", Port: 1,
		Param: &sip.Param{Name: "branch", Value: "z9hG4bK-2"}, Next: own}}
	if !ResponseMatch(req, rsp) {
		t.Fatal("response with two Via entries does not match")
	}
}
''')),
    dict(id='C18-ack-method', property='C18', pkg='dialog',
         edits=[('dialog/messages.go', '''		ack.CSeqMethod == sip.MethodAck &&
''', '''		ack.CSeqMethod != msg.CSeqMethod &&
''')],
         needs='an ACK whose CSeq names yet another method',
         breaks='an ACK with a CSeq method other than ACK is accepted',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	v := &sip.Via{Host: "me", Port: 5060}
	msg := &sip.Msg{Status: 200, CSeq: 7, CSeqMethod: "INVITE", Via: v}
	if !AckMatch(msg, &sip.Msg{Method: "ACK", CSeq: 7, CSeqMethod: "ACK", Via: v}) {
		t.Fatal("proper ACK refused")
	}
	if AckMatch(msg, &sip.Msg{Method: "ACK", CSeq: 7, CSeqMethod: "BYE", Via: v}) {
		t.Fatal("ACK with CSeq method BYE accepted")
	}
}
''')),
    dict(id='C19-strict-alias', property='C19', pkg='dialog',
         edits=[('dialog/route.go', '''				msg.Route = msg.Route.Copy()
				msg.Route.Last().Next''', '''				msg.Route.Last().Next''')],
         needs='a strict route whose list is shared with another message and the second message routed',
         breaks='routing through a strict proxy appends to the list other messages share',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	r := &sip.Addr{Uri: &sip.URI{Host: "p"}}
	a := &sip.Msg{Method: "INVITE", Request: &sip.URI{Host: "x"}, Route: r}
	if h, _, err := RouteMessage(&sip.Via{}, &sip.Addr{Uri: &sip.URI{Host: "me"}}, a); err != nil || h != "p" {
		t.Fatal(h, err)
	}
	if r.Next != nil {
		t.Fatal("the caller's route list was changed")
	}
}
''')),
    dict(id='C19-srv-order', property='C19', pkg='dialog',
         edits=[('dialog/route.go', '''		if contact.CompareHostPort(msg.Route) {
			msg.Route = msg.Route.Next
		}
''', '''		for contact.CompareHostPort(msg.Route) {
			msg.Route = msg.Route.Next
		}
''')],
         needs='a route set that names this host twice in a row',
         breaks='more than one own route entry is dropped',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	me := &sip.Addr{Uri: &sip.URI{Host: "me", Port: 5060, Param: &sip.URIParam{Name: "lr"}}}
	m := &sip.Msg{Method: "INVITE", Request: &sip.URI{Host: "x"}}
	m.Route = &sip.Addr{Uri: me.Uri, Next: &sip.Addr{Uri: me.Uri}}
	h, _, err := RouteMessage(&sip.Via{}, me, m)
	if err != nil || h != "me" {
		t.Fatal(h, err)
	}
}
''')),
    dict(id='C20-from-shares-uri', property='C20', pkg='dialog',
         edits=[('dialog/route.go', '''			msg.From = msg.Contact.Copy()
			msg.From.Uri.Param = nil
''', '''			msg.From = &sip.Addr{Uri: msg.Contact.Uri, Display: msg.Contact.Display, Param: msg.Contact.Param}
			if msg.From.Param == nil {
				msg.From.Uri.Param = nil
			}
''')],
         needs='a contact with URI parameters and no From header',
         breaks='the URI parameters of the contact are removed, or kept in From',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	c := &sip.Addr{Uri: &sip.URI{Host: "me", Param: &sip.URIParam{Name: "transport", Value: "udp"}}}
	m := &sip.Msg{Method: "OPTIONS", Request: &sip.URI{Host: "x"}, Contact: c}
	PopulateMessage(&sip.Via{Host: "me"}, c, m)
	if m.From.Uri.Param != nil {
		t.Fatal("From keeps URI parameters")
	}
	if m.Contact.Uri.Param == nil {
		t.Fatal("Contact lost its URI parameters")
	}
}
''')),
    dict(id='C20-branch-on-response', property='C20', pkg='dialog',
         edits=[('dialog/route.go', '''		if msg.CSeqMethod == "" {
			msg.CSeqMethod = msg.Method
		}
''', '''		if msg.CSeqMethod == "" || msg.Method == sip.MethodAck {
			msg.CSeqMethod = msg.Method
		}
''')],
         needs='an ACK built with another CSeq method',
         breaks='a CSeq method that is set is replaced',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	c := &sip.Addr{Uri: &sip.URI{Host: "me"}}
	m := &sip.Msg{Method: "ACK", CSeqMethod: "ack", Request: &sip.URI{Host: "x"}}
	PopulateMessage(&sip.Via{Host: "me"}, c, m)
	if m.CSeqMethod != "ack" {
		t.Fatal(m.CSeqMethod)
	}
}
''')),
]
