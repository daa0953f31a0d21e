package dialog

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
)

func TestVerifC26(t *testing.T) {
	vr := vNewRecv()
	type kept struct {
		m    *sip.Msg
		want string
		raw  string
		body string
		x    []string
	}
	var all []kept
	vrun(t, 300, func(v *vT) {
		b := fmt.Sprintf("MESSAGE sip:x@127.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 127.0.0.1:%d;branch=%s\r\nFrom: \"%s\" <sip:%s@h>;tag=%s\r\nTo: <sip:t@h>\r\nCall-ID: %s-%d\r\nCSeq: %d MESSAGE\r\nMax-Forwards: 70\r\nSubject: %s\r\n",
			vr.port, v.word(), v.word(), v.word(), v.word(), v.word(), v.N, v.Intn(1000), v.word())
		var xs []string
		for i := v.Intn(4); i > 0; i-- {
			x := strings.Repeat(v.word(), v.Intn(40)+1)
			xs = append([]string{x}, xs...)
			b += fmt.Sprintf("X-Ext%d: %s\r\n", i, x)
		}
		body := ""
		if !v.chance(4) {
			body = strings.Repeat(v.word(), v.Intn(100)+1)
			if v.chance(10) {
				body = strings.Repeat(body, v.Intn(200)+1)
			}
		}
		b += fmt.Sprintf("Content-Type: %s\r\n", "text/plain")
		b += fmt.Sprintf("Content-Length: %d\r\n", len(body))
		b += "\r\n" + body
		if len(b) > 65000 {
			return
		}
		v.What = fmt.Sprintf("%q", b)
		o, err := sip.ParseMsg([]byte(b))
		v.check(err == nil, "generator: %v", err)
		vr.send([]byte(b))
		m := vr.get(v)
		v.check(m != nil, "not delivered")
		v.check(m.CallID == o.CallID && veq(m.XHeader, o.XHeader) && veq(m.Payload, o.Payload) && m.Subject == o.Subject && veq(m.From, o.From), "delivered %s, want %s", m, b)
		// The parts compared with what was sent, not with what the parser says about it.
		got := ""
		if m.Payload != nil {
			got = string(m.Payload.Data())
		}
		v.check(got == body, "body is %q, want %q", got, body)
		all = append(all, kept{m: m, want: m.String(), raw: b, body: body})
		if len(all) > 40 {
			all = all[1:]
		}
		if v.chance(5) { // Other traffic.
			vr.send([]byte(strings.Repeat("\x00junk", v.Intn(400))))
			vr.get(v)
		}
		for _, k := range all {
			if s := k.m.String(); s != k.want {
				v.fail("a delivered message changed from %q to %q (its packet: %q)", k.want, s, k.raw)
			}
			if k.m.Payload != nil && string(k.m.Payload.Data()) != k.body {
				v.fail("the body of a delivered message changed from %q to %q", k.body, k.m.Payload.Data())
			}
		}
	})
	vr.close()
}
