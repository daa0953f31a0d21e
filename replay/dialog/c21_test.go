package dialog

import (
	"fmt"
	"testing"

	"github.com/jart/gosip/sip"
)

func TestVerifC21(t *testing.T) {
	vrun(t, 40, func(v *vT) {
		loose := v.chance(6)
		vFlags(600000, 2, loose)
		s := vDial(v, 2, loose, func(s *vSess, m *sip.Msg) {
			if v.chance(4) {
				m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "127.0.0.1", Port: uint16(s.peers[0].port), Param: &sip.URIParam{Name: "lr"}}}
			}
		})
		defer s.finish()
		s.up()
		for n := v.Intn(8) + 1; n > 0 && !s.ended; n-- {
			if v.chance(6) {
				s.hangup()
				continue
			}
			s.randomResponse()
		}
	})
}

func (s *vSess) randomResponse() {
	v := s.v
	r := vResp{phrase: v.oneof("OK", "Fine", "No"), toTag: "remote", extraVia: v.chance(8)}
	switch v.Intn(10) {
	case 0, 1:
		r.status = 100
	case 2, 3:
		r.status = []int{180, 183}[v.Intn(2)]
	case 4, 5, 6:
		r.status = 200
	case 7:
		r.status = []int{181, 182, 199}[v.Intn(3)]
	case 8:
		r.status = []int{301, 302}[v.Intn(2)]
	default:
		r.status = []int{300, 305, 400, 404, 408, 480, 481, 486, 487, 488, 500, 503, 504, 600, 603}[v.Intn(15)]
	}
	if v.chance(5) {
		r.wrong = 1 + v.Intn(6)
		if r.wrong == 6 {
			r.extraVia = false
		}
	}
	if s.answered && r.status/100 == 3 {
		r.status = 200
	}
	if !v.chance(10) {
		r.contact = fmt.Sprintf("sip:%s@127.0.0.1:%d", v.oneof("bob", "carol"), s.peers[v.Intn(2)].port)
	}
	for i := v.Intn(3); i > 0 && r.status != 301 && r.status != 302; i-- {
		r.rr = append(r.rr, fmt.Sprintf("<sip:127.0.0.1:%d;lr>", s.peers[v.Intn(2)].port))
	}
	if s.method == "INVITE" && !v.chance(3) && r.status <= 200 {
		r.media = v.Intn(5)
	}
	s.respond(r)
}
