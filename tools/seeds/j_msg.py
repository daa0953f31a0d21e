"""Planted bugs for C04."""


def demo(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports)) + body.lstrip()


M = 'sip/msg.go'
BASE = """Msg{Method: "OPTIONS", CSeqMethod: "OPTIONS", CSeq: 1, CallID: "x", MaxForwards: 9, VersionMajor: 2, Request: &URI{Scheme: "sip", Host: "h"}, From: &Addr{Uri: &URI{Scheme: "sip", Host: "a"}}, To: &Addr{Uri: &URI{Scheme: "sip", Host: "b"}}}"""


def trip(change, test):
    return demo('sip', ['testing'], """
func TestSeedDemo(t *testing.T) {
	m := &""" + BASE + """
	""" + change + """
	g, err := ParseMsg([]byte(m.String()))
	if err != nil || """ + test + """ {
		t.Fatalf("%q %v", m.String(), err)
	}
}
""")


SEEDS = [
    dict(id='C04-min-expires', property='C04', pkg='sip',
         edits=[(M, 'b.WriteString(strconv.Itoa(msg.MinExpires))', 'b.WriteString(strconv.Itoa(msg.Expires))')],
         needs='a message with Min-Expires that differs from Expires', breaks='Min-Expires comes back as Expires',
         demo=trip('m.MinExpires = 60', 'g.MinExpires != 60')),
    dict(id='C04-via-port', property='C04', pkg='sip',
         edits=[('sip/via.go', 'if via.Port != 0 {', 'if via.Port != 0 && via.Port != 5060 {')],
         needs='a Via with port 5060', breaks='the port comes back as 0',
         demo=trip('m.Via = &Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Port: 5060}', 'g.Via == nil || g.Via.Port != 5060')),
    dict(id='C04-minor-version', property='C04', pkg='sip',
         edits=[(M, 'b.WriteString(strconv.FormatUint(uint64(msg.VersionMinor), 10))', 'b.WriteString(strconv.FormatUint(uint64(msg.VersionMinor&0x7f), 10))')],
         needs='a minor version above 127', breaks='the version comes back changed',
         demo=trip('m.VersionMinor = 130', 'g.VersionMinor != 130')),
    dict(id='C04-hops', property='C04', pkg='sip',
         edits=[(M, 'if msg.MaxForwards == 0 {', 'if msg.MaxForwards == 0 || msg.MaxForwards > 255 {')],
         needs='a hop count above 255', breaks='it comes back as 70',
         demo=trip('m.MaxForwards = 300', 'g.MaxForwards != 300')),
    dict(id='C04-display-feed', property='C04', pkg='sip',
         edits=[('sip/charsets.go', '\t\t0x0B <= c && c <= 0x0C ||\n', '')],
         needs='a display name with a form feed', breaks='the name comes back cut',
         demo=trip('m.From.Display = "a\\fb"', 'g.From.Display != "a\\fb"')),
    dict(id='C04-xheader-order', property='C04', pkg='sip',
         edits=[('sip/xheader.go', 'h.Next.Append(b)\n\tappendSanitized(b, []byte(h.Name), tokenc)\n\tb.WriteString(": ")\n\tb.Write(h.Value)\n\tb.WriteString("\\r\\n")', 'appendSanitized(b, []byte(h.Name), tokenc)\n\tb.WriteString(": ")\n\tb.Write(h.Value)\n\tb.WriteString("\\r\\n")\n\th.Next.Append(b)')],
         needs='two extension headers', breaks='they come back in the opposite order',
         demo=trip('m.XHeader = &XHeader{"X-A", []byte("1"), &XHeader{"X-B", []byte("2"), nil}}', 'g.XHeader == nil || g.XHeader.Name != "X-A"')),
    dict(id='C04-length', property='C04', pkg='sip',
         edits=[(M, 'b.WriteString(strconv.Itoa(len(payload)))', 'b.WriteString(strconv.Itoa(len(string(bytes.TrimRight(payload, "\\x00")))))')],
         needs='a body that ends with a zero byte', breaks='the message is refused or the body comes back cut',
         demo=trip('m.Payload = &MiscPayload{"a/b", []byte("x\\x00")}', 'g.Payload == nil || len(g.Payload.Data()) != 2')),
    dict(id='C04-identity-name', property='C04', pkg='sip',
         edits=[(M, 'b.WriteString("P-Asserted-Identity: ")', 'b.WriteString("P-Asserted-ldentity: ")')],
         needs='a message with an asserted identity', breaks='it comes back as an extension header',
         demo=trip('m.PAssertedIdentity = m.From', 'g.PAssertedIdentity == nil')),
    dict(id='C04-second-display', property='C04', pkg='sip',
         edits=[('sip/addr.go', 'if addr.Next != nil {\n\t\tb.WriteByte(\',\')', 'if addr.Next != nil && addr.Next.Uri != addr.Uri {\n\t\tb.WriteByte(\',\')')],
         needs='a list with two addresses that share their URI', breaks='the rest of the list is lost',
         demo=trip('m.Route = &Addr{Uri: m.To.Uri, Next: &Addr{Uri: m.To.Uri}}', 'g.Route == nil || g.Route.Next == nil')),
]
