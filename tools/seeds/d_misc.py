def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


SIP = 'github.com/jart/gosip/sip'
SEEDS = [
    dict(id='C24-rport-overwritten', property='C24', pkg='dialog',
         edits=[('dialog/receiver.go', '			if len(rport.Value) == 0 {\n				rport.Value = port\n			}\n', '			rport.Value = port\n')],
         needs='a request whose top Via already carries a filled in rport and came from another port',
         breaks='the rport value the peer sent is replaced',
         demo=demo('dialog', ['net', 'testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	m := &sip.Msg{Method: "BYE", Via: &sip.Via{Host: "1.1.1.1", Port: 5060, Param: &sip.Param{Name: "rport", Value: "6000"}}}
	addReceived(m, &net.UDPAddr{IP: net.ParseIP("1.1.1.1"), Port: 7000})
	if v := m.Via.Param.Get("rport").Value; v != "6000" {
		t.Fatal(v)
	}
}
''')),
    dict(id='C24-second-last', property='C24', pkg='dialog',
         edits=[('dialog/receiver.go', '			for ; seclast.Next.Next != nil; seclast = seclast.Next {\n			}\n',
                 '			if seclast.Next.Next != nil {\n				seclast = seclast.Next\n			}\n')],
         needs='a request that went through strict routers with four or more routes left',
         breaks='the third route entry is taken for the last one',
         demo=demo('dialog', ['testing', SIP], '''
func TestSeedDemo(t *testing.T) {
	u := func(h string) *sip.URI { return &sip.URI{Scheme: "sip", Host: h} }
	m := &sip.Msg{Method: "BYE", Request: &sip.URI{Scheme: "sip", Host: "1.1.1.1", Port: 5060, Param: &sip.URIParam{Name: "lr"}},
		Route: &sip.Addr{Uri: u("a"), Next: &sip.Addr{Uri: u("b"), Next: &sip.Addr{Uri: u("c"), Next: &sip.Addr{Uri: u("d")}}}}}
	fixMessagesFromStrictRouters("1.1.1.1", 5060, m)
	if m.Request.Host != "d" || m.Route.Len() != 3 || m.Route.Last().Uri.Host != "c" {
		t.Fatal(m.Request.Host, m.Route.Len())
	}
}
''')),
    dict(id='C25-record-route-shared', property='C25', pkg='sip',
         edits=[('sip/msg.go', '	res.RecordRoute = msg.RecordRoute.Copy()\n', '')],
         needs='assigning to the Record-Route of a copy',
         breaks='the copy of a message shares its Record-Route',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	m := &Msg{RecordRoute: &Addr{Uri: &URI{Host: "a"}}}
	m.Copy().RecordRoute.Uri.Host = "b"
	if m.RecordRoute.Uri.Host != "a" {
		t.Fatal("shared")
	}
}
''')),
    dict(id='C25-via-tail', property='C25', pkg='sip',
         edits=[('sip/via.go', '	res.Next = via.Next.Copy()\n	return res\n', '	if via.Next != nil {\n		res.Next = via.Next.Detach()\n	}\n	return res\n')],
         needs='copying a list of three or more Vias',
         breaks='the copy ends after the second Via',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	v := (&Via{Host: "a", Next: &Via{Host: "b", Next: &Via{Host: "c"}}}).Copy()
	if v.Last().Host != "c" {
		t.Fatal("third Via lost")
	}
}
''')),
    dict(id='C26-recycled', property='C26', pkg='sip',
         edits=[('sip/msg_parse.go', '	msg = new(Msg)\n	viap := &msg.Via\n',
                 '	if msg = spareMsg; msg == nil {\n		msg = new(Msg)\n	}\n	spareMsg = nil\n	viap := &msg.Via\n'),
                ('sip/msg_parse.go', '			return nil, MsgIncompleteError{data}\n', '			spareMsg = msg // Never got out, so use it for the next one.\n			return nil, MsgIncompleteError{data}\n'),
                ('sip/msg_parse.go', 'func lookAheadWSP(', 'var spareMsg *Msg\n\nfunc lookAheadWSP(')],
         needs='a truncated datagram before a good one',
         breaks='a message contains headers of an earlier datagram that was dropped',
         demo=demo('sip', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	ParseMsg([]byte("OPTIONS sip:a SIP/2.0\\r\\nX-Evil: yes\\r\\nCall-ID: q"))
	m, err := ParseMsg([]byte("OPTIONS sip:a SIP/2.0\\r\\nCall-ID: b\\r\\n\\r\\n"))
	if err != nil || m.XHeader != nil || m.VersionMajor != 2 {
		t.Fatal(err, m)
	}
}
''')),
    dict(id='C27-overlap', property='C27', pkg='util',
         edits=[('util/util.go', '		"-a" + digs[15:18] +\n', '		"-a" + digs[14:17] +\n')],
         needs='comparing the Call-ID with the randomness it was made from',
         breaks='one random digit is used twice and another one dropped',
         demo=demo('util', ['crypto/rand', 'encoding/hex', 'testing', 'strings'], '''
type seedRand struct{}

func (seedRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(17*i + 3)
	}
	return len(b), nil
}

func TestSeedDemo(t *testing.T) {
	old := rand.Reader
	rand.Reader = seedRand{}
	id := GenerateCallID()
	rand.Reader = old
	b := make([]byte, 15)
	seedRand{}.Read(b)
	id = strings.ReplaceAll(id, "-", "")
	if got := id[:12] + id[13:16] + id[17:]; got != hex.EncodeToString(b) {
		t.Fatal(got)
	}
}
''')),
    dict(id='C27-negative', property='C27', pkg='util',
         edits=[('util/util.go', '	return nBig.String()\n', '	return strconv.Itoa(int(int32(nBig.Int64())))\n')],
         needs='a session id of 2^31 or more',
         breaks='half of the session ids are negative',
         demo=demo('util', ['testing', 'strings'], '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		if strings.HasPrefix(GenerateOriginID(), "-") {
			t.Fatal("negative")
		}
	}
}
''')),
    dict(id='C28-trailing-space', property='C28', pkg='sip',
         edits=[('sip/msgerror.go', '		o += len(lines[i]) + 2\n', '		o += len(bytes.TrimRight(lines[i], " \\t")) + 2\n')],
         needs='an error below a line that ends with white space',
         breaks='the offset and the caret are off by the white space',
         demo=demo('sip', ['testing', 'strings'], '''
func TestSeedDemo(t *testing.T) {
	s := MsgParseError{Msg: []byte("one  \\r\\ntwo\\r\\nabcdef"), Offset: 7 + 5 + 3}.Error()
	if !strings.Contains(s, "line 3 offset 3:") {
		t.Fatal(s)
	}
}
''')),
    dict(id='C28-stops-at-caret', property='C28', pkg='sip',
         edits=[('sip/msgerror.go', "			b.WriteByte('^')\n", "			b.WriteByte('^')\n			if i > 8 {\n				break\n			}\n")],
         needs='an error in the tenth or a later line',
         breaks='what follows the offending line is not shown',
         demo=demo('sip', ['testing', 'strings'], '''
func TestSeedDemo(t *testing.T) {
	s := MsgParseError{Msg: []byte(strings.Repeat("x\\r\\n", 10) + "abc\\r\\nlast"), Offset: 31}.Error()
	if !strings.Contains(s, "last") {
		t.Fatal(s)
	}
}
''')),
    dict(id='C13-second-unclipped', property='C13', pkg='dsp',
         edits=[('dsp/awgn.go', '		s.iset = 0\n		amp = s.gset * s.rms\n	}\n', '		s.iset = 0\n		return int16(s.gset * s.rms)\n	}\n')],
         needs='a level so loud that the second sample of a pair leaves the 16-bit range',
         breaks='every second sample wraps around instead of clipping',
         demo=demo('dsp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s := NewAWGN(6)
	for i := 0; i < 1000; i++ {
		second := s.iset != 0
		a := s.gset * s.rms
		v := s.Get()
		if second && (a > 33000 && v != 32767 || a < -33000 && v != -32768) {
			t.Fatal(a, v)
		}
	}
}
''')),
    dict(id='C13-shared-table', property='C13', pkg='dsp',
         edits=[('dsp/awgn.go', '	j = 1 + ((97 * s.ix3) / m3)\n	if j > 97 || j < 1 {\n		return -1\n	}\n', '	j = (98 * s.ix3) / m3\n	if j > 97 || j < 0 {\n		return -1\n	}\n')],
         needs='', breaks='', demo=demo('dsp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
}
''')),
]
SEEDS.pop()
