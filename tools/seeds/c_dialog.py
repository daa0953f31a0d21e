def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SIP = 'github.com/jart/gosip/sip'
SDP = 'github.com/jart/gosip/sdp'
HELP = '''
// peer is the other end: it collects the messages it is sent.
func seedPeer(t *testing.T) (*net.UDPConn, func() *sip.Msg) {
	c, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP("127.0.0.1")})
	if err != nil {
		t.Fatal(err)
	}
	return c, func() *sip.Msg {
		b := make([]byte, 65536)
		c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
		n, err := c.Read(b)
		if err != nil {
			return nil
		}
		m, err := sip.ParseMsg(b[:n])
		if err != nil {
			t.Fatal(err)
		}
		return m
	}
}

type seedDlg struct {
	*dialogState
	errs   chan error
	states chan int
	peers  chan *net.UDPAddr
}

func seedDialog(t *testing.T, c *net.UDPConn) *seedDlg {
	s := &seedDlg{errs: make(chan error, 50), states: make(chan int, 50), peers: make(chan *net.UDPAddr, 50)}
	s.dialogState = &dialogState{errChan: s.errs, stateChan: s.states, peerChan: s.peers}
	p := uint16(c.LocalAddr().(*net.UDPAddr).Port)
	s.invite = &sip.Msg{Method: "INVITE", CSeq: 5, CSeqMethod: "INVITE", CallID: "x", MaxForwards: 70,
		Request: &sip.URI{Scheme: "sip", User: "a", Host: "127.0.0.1", Port: p},
		To:   &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "a", Host: "127.0.0.1", Port: p}},
		From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "b", Host: "127.0.0.1"}, Param: &sip.Param{Name: "tag", Value: "f"}}}
	if !s.sendRequest(s.invite) {
		t.Fatal("sendRequest failed")
	}
	return s
}

func (s *seedDlg) reply(status int) *sip.Msg {
	r := NewResponse(s.request, status)
	r.To = s.request.To.Copy()
	r.To.Param = &sip.Param{Name: "tag", Value: "t"}
	r.Contact = &sip.Addr{Uri: s.request.Request.Copy()}
	r.VersionMajor, r.CSeqMethod = 2, s.request.Method
	return r
}

func (s *seedDlg) ask(method string, cseq int) *sip.Msg {
	return &sip.Msg{Method: method, CSeq: cseq, CSeqMethod: method, CallID: "x", VersionMajor: 2, MaxForwards: 70,
		Request: &sip.URI{Scheme: "sip", Host: "127.0.0.1"}, Via: &sip.Via{Host: "127.0.0.1"},
		To: s.invite.From, From: s.invite.To, Contact: &sip.Addr{Uri: s.request.Request.Copy()}}
}
'''
IMP = ['net', 'testing', 'time', SIP]
SEEDS = [
    dict(id='C21-ack-once', property='C21', pkg='dialog',
         edits=[('dialog/dialog.go', '	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {\n',
                 '	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite &&\n'
                 '		(dls.remote == nil || msg.Status >= sip.StatusMultipleChoices) {\n')],
         needs='a 200 that is retransmitted because the ACK was lost',
         breaks='a retransmitted 200 is not acknowledged again',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	for i := 0; i < 2; i++ {
		if !s.handleMessage(s.reply(200)) {
			t.Fatal("ended")
		}
		if m := recv(); m == nil || m.Method != "ACK" {
			t.Fatal("no ACK for 200 number", i)
		}
	}
}
''')),
    dict(id='C21-second-media', property='C21', pkg='dialog',
         edits=[('dialog/dialog.go', '	if msg.Status <= sip.StatusOK {\n		dls.checkSDP(msg)\n',
                 '	if msg.Status == sip.StatusOK || dls.state < Ringing {\n		dls.checkSDP(msg)\n')],
         needs='a 183 with a session description that arrives after a 180',
         breaks='early media announced after ringing is not reported',
         demo=demo('dialog', IMP + [SDP], HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	s.handleMessage(s.reply(180))
	r := s.reply(183)
	r.Payload = sdp.New(&net.UDPAddr{IP: net.ParseIP("1.2.3.4"), Port: 77}, sdp.ULAWCodec)
	s.handleMessage(r)
	if len(s.peers) != 1 {
		t.Fatal("media address not reported")
	}
}
''')),
    dict(id='C22-old-bye', property='C22', pkg='dialog',
         edits=[('dialog/dialog.go', '		if msg.CSeq < dls.rseq {\n', '		if msg.CSeq < dls.rseq && msg.Method != sip.MethodBye {\n')],
         needs='a BYE numbered below a request seen before',
         breaks='an out of order BYE ends the call',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	s.handleMessage(s.ask("OPTIONS", 9))
	recv()
	if !s.handleMessage(s.ask("BYE", 8)) {
		t.Fatal("an out of order BYE ended the dialog")
	}
	if m := recv(); m == nil || m.Status != 500 {
		t.Fatal("not answered with 500", m)
	}
}
''')),
    dict(id='C22-hops-zero', property='C22', pkg='dialog',
         edits=[('dialog/dialog.go', '	if msg.MaxForwards <= 0 {\n', '	if msg.MaxForwards < 0 {\n')],
         needs='a request whose Max-Forwards is 0',
         breaks='a request with no hops left is served',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	q := s.ask("OPTIONS", 9)
	q.MaxForwards = 0
	s.handleMessage(q)
	if m := recv(); m == nil || m.Status != 483 {
		t.Fatal("not answered with 483", m)
	}
}
''')),
    dict(id='C22-ack-keeps', property='C22', pkg='dialog',
         edits=[('dialog/dialog.go', '		dls.rseq = msg.CSeq\n	}\n	switch msg.Method {\n',
                 '		if msg.Method != sip.MethodInvite || dls.response == nil {\n			dls.rseq = msg.CSeq\n		}\n	}\n	switch msg.Method {\n')],
         needs='a second re-INVITE while the answer to the first one is not acknowledged, then an older request',
         breaks='the sequence of a re-INVITE that overtakes a pending answer is not recorded',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	s.handleMessage(s.ask("INVITE", 10))
	recv()
	s.handleMessage(s.ask("INVITE", 12))
	recv()
	s.handleMessage(s.ask("OPTIONS", 11))
	if m := recv(); m == nil || m.Status != 500 {
		t.Fatal("not answered with 500", m)
	}
}
''')),
    dict(id='C23-no-fresh-count', property='C23', pkg='dialog',
         edits=[('dialog/dialog.go', '	dls.requestResends = 0\n	dls.requestTimer = time.After(duration(resendInterval))\n	return dls.send(dls.request)\n',
                 '	if dls.state == 0 {\n		dls.requestResends = 0\n	}\n	dls.requestTimer = time.After(duration(resendInterval))\n	return dls.send(dls.request)\n')],
         needs='a BYE sent after an INVITE that used up its retransmissions',
         breaks='a request sent later in the call starts with the retransmission count of the earlier one',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	for i := 0; i < *maxResends; i++ {
		if !s.resendRequest() || recv() == nil {
			t.Fatal("no retransmission")
		}
	}
	s.handleMessage(s.reply(200))
	recv()
	s.sendHangup()
	recv()
	if !s.resendRequest() || recv() == nil {
		t.Fatal("BYE is not retransmitted")
	}
}
''')),
    dict(id='C23-wrong-counter', property='C23', pkg='dialog',
         edits=[('dialog/dialog.go', '		dls.responseResends++\n', '		dls.requestResends++\n')],
         needs='an answer to a re-INVITE that is never acknowledged',
         breaks='the retransmissions of the answer are counted as retransmissions of the request, so they never end',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	s.handleMessage(s.reply(200))
	recv()
	s.handleMessage(s.ask("INVITE", 10))
	for i := 0; i < *maxResends; i++ {
		if !s.resendResponse() {
			t.Fatal("gave up early")
		}
	}
	if s.resendResponse() {
		t.Fatal("does not give up")
	}
}
''')),
    dict(id='C23-bye-sequence', property='C23', pkg='dialog',
         edits=[('dialog/dialog.go', '		return dls.sendRequest(NewBye(dls.invite, dls.remote, &dls.lseq))\n',
                 '		lseq := dls.invite.CSeq\n		return dls.sendRequest(NewBye(dls.invite, dls.remote, &lseq))\n')],
         needs='a call hung up twice (the first BYE gets lost)',
         breaks='the second BYE carries the sequence number of the first',
         demo=demo('dialog', IMP, HELP + '''
func TestSeedDemo(t *testing.T) {
	c, recv := seedPeer(t)
	s := seedDialog(t, c)
	recv()
	s.handleMessage(s.reply(200))
	recv()
	for i := 1; i <= 2; i++ {
		s.sendHangup()
		if m := recv(); m == nil || m.Method != "BYE" || m.CSeq != 5+i {
			t.Fatal("BYE with the wrong sequence", m)
		}
	}
}
''')),
]
