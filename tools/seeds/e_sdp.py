def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


F = 'sdp/sdp.go'
HEAD = 'v=0\\r\\no=- 1 1 IN IP4 1.2.3.4\\r\\ns=x\\r\\nc=IN IP4 1.2.3.4\\r\\nt=0 0\\r\\n'
SEEDS = [
    dict(id='C14-port-wraps', property='C14', pkg='sdp',
         edits=[(F, '	portU, err := strconv.ParseUint(portS, 10, 16)\n	if err != nil || !(0 <= portU && portU <= 65535) {\n',
                 '	portU, err := strconv.ParseUint(portS, 10, 32)\n	if err != nil {\n')],
         needs='a media line with a port above 65535',
         breaks='the port is taken modulo 65536 instead of being refused',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	if s, err := Parse("%sm=audio 70000 RTP/AVP 0\\r\\n"); err == nil {
		t.Fatal("accepted as port", s.Audio.Port)
	}
}
''' % HEAD)),
    dict(id='C14-attribute-room', property='C14', pkg='sdp',
         edits=[(F, '	sdp.Attrs = make([][2]string, 0, len(lines))\n', '	sdp.Attrs = make([][2]string, 0, len(lines)-1)\n')],
         needs='a text of attribute lines only, the last one not ended by a line break',
         breaks='there is one place too few for the attributes and the parser panics',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	if _, err := Parse("v=0\\r\\na=one\\r\\na=two"); err == nil {
		t.Fatal("accepted")
	}
}
''')),
    dict(id='C14-origin-slash', property='C14', pkg='sdp',
         edits=[(F, '	if n := strings.Index(origin.Addr, "/"); n >= 0 {\n', '	if n := strings.Index(origin.Addr, "/"); n > 0 && n < len(origin.Addr)-1 {\n')],
         needs='an origin address that ends in a slash',
         breaks='a multicast address without a scope is accepted as origin',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	if _, err := Parse("v=0\\r\\no=- 1 1 IN IP4 224.2.1.1/\\r\\ns=x\\r\\nc=IN IP4 1.2.3.4\\r\\nt=0 0\\r\\nm=audio 7 RTP/AVP 0\\r\\n"); err == nil {
		t.Fatal("accepted")
	}
}
''')),
    dict(id='C15-mono-param', property='C15', pkg='sdp',
         edits=[('sdp/codec.go', '	if codec.Param != "" {\n', '	if codec.Param != "" && codec.Param != "1" {\n')],
         needs='a codec whose parameter is 1',
         breaks='the parameter is not written',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s := &SDP{Addr: "1.2.3.4", Audio: &Media{Port: 7, Codecs: []Codec{{PT: 98, Name: "L16", Rate: 16000, Param: "1"}}}}
	r, err := Parse(s.String())
	if err != nil || r.Audio.Codecs[0] != s.Audio.Codecs[0] {
		t.Fatal(err, r)
	}
}
''')),
    dict(id='C15-last-colon', property='C15', pkg='sdp',
         edits=[(F, '				if n := strings.Index(line, ":"); n >= 0 {\n', '				if n := strings.LastIndex(line, ":"); n >= 0 {\n')],
         needs='an attribute whose value contains a colon',
         breaks='name and value are split at the wrong place',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s := &SDP{Addr: "1.2.3.4", Audio: &Media{Port: 7, Codecs: []Codec{ULAWCodec}}, Attrs: [][2]string{{"candidate", "a:b"}}}
	r, err := Parse(s.String())
	if err != nil || len(r.Attrs) != 1 || r.Attrs[0] != s.Attrs[0] {
		t.Fatal(err, r)
	}
}
''')),
    dict(id='C15-label', property='C15', pkg='sdp',
         edits=[(F, '	if util.IsIPv6(sdp.Addr) {\n', '	if util.IsIPv6(sdp.Addr) && !strings.Contains(sdp.Addr, ".") {\n')],
         needs='an IPv6 connection address in the dotted form',
         breaks='it is labelled IP4',
         demo=demo('sdp', ['strings', 'testing'], '''
func TestSeedDemo(t *testing.T) {
	s := &SDP{Addr: "::ffff:1.2.3.4", Origin: Origin{Addr: "1.2.3.4"}, Audio: &Media{Port: 7, Codecs: []Codec{ULAWCodec}}}
	if !strings.Contains(s.String(), "c=IN IP6 ::ffff:1.2.3.4\\r\\n") {
		t.Fatal(s.String())
	}
}
''')),
    dict(id='C15-video-direction', property='C15', pkg='sdp',
         edits=[(F, '	} else if sdp.RecvOnly {\n', '	} else if sdp.RecvOnly && sdp.Video == nil {\n')],
         needs='a receive-only description with video',
         breaks='it is written as sendrecv',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s := &SDP{Addr: "1.2.3.4", RecvOnly: true, Video: &Media{Port: 7, Codecs: []Codec{{PT: 99, Name: "H264", Rate: 90000}}}}
	r, err := Parse(s.String())
	if err != nil || !r.RecvOnly {
		t.Fatal(err, r)
	}
}
''')),
    dict(id='C16-last-format', property='C16', pkg='sdp',
         edits=[(F, '		for _, fmtp := range fmtps {\n', '		for i := range fmtps {\n			fmtp := fmtps[len(fmtps)-1-i]\n')],
         needs='two format lines for one payload type',
         breaks='the last one counts instead of the first',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s, err := Parse("%sm=audio 7 RTP/AVP 0\\r\\na=fmtp:0 a\\r\\na=fmtp:0 b\\r\\n")
	if err != nil || s.Audio.Codecs[0].Fmtp != "a" {
		t.Fatal(err, s)
	}
}
''' % HEAD)),
    dict(id='C16-static-wins', property='C16', pkg='sdp',
         edits=[(F, '		if codec.Name == "" {\n', '		if codec.Name == "" || StandardCodecs[pt].Name != "" {\n')],
         needs='a standard payload type that the description maps to something else',
         breaks='the standard meaning replaces the mapping of the description',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s, err := Parse("%sm=audio 7 RTP/AVP 0\\r\\na=rtpmap:0 PCMU/16000\\r\\n")
	if err != nil || s.Audio.Codecs[0].Rate != 16000 {
		t.Fatal(err, s)
	}
}
''' % HEAD)),
    dict(id='C16-short-prefix', property='C16', pkg='sdp',
         edits=[(F, '			if strings.HasPrefix(rtpmap, prefix) {\n', '			if strings.HasPrefix(rtpmap, prefix[:len(prefix)-1]) && len(rtpmap) >= len(prefix) {\n')],
         needs='a payload type whose number starts that of another one mapped before it',
         breaks='the mapping of the other payload type is taken',
         demo=demo('sdp', ['testing'], '''
func TestSeedDemo(t *testing.T) {
	s, err := Parse("%sm=audio 7 RTP/AVP 10 101\\r\\na=rtpmap:101 telephone-event/8000\\r\\n")
	if err != nil || s.Audio.Codecs[0].Name != "L16" {
		t.Fatal(err, s)
	}
}
''' % HEAD)),
]
