package dialog

import (
	"fmt"
	"testing"
)

func TestVerifC22(t *testing.T) {
	vrun(t, 40, func(v *vT) {
		loose := v.chance(6)
		vFlags(600000, 2, loose)
		s := vDial(v, 2, loose, nil)
		defer s.finish()
		s.up()
		if !v.chance(3) {
			r := vResp{status: 200, phrase: "OK", toTag: "remote", contact: fmt.Sprintf("sip:bob@127.0.0.1:%d", s.peers[v.Intn(2)].port), media: v.Intn(3)}
			s.respond(r)
		}
		base := []int{1, 100, 50000}[v.Intn(3)]
		for n := v.Intn(8) + 1; n > 0 && !s.ended; n-- {
			if v.chance(12) && s.method == "INVITE" {
				s.hangup()
				continue
			}
			r := vReq{method: v.oneof("OPTIONS", "INVITE", "INVITE", "ACK", "INFO", "MESSAGE", "REGISTER", "CANCEL", "UPDATE"), cseq: base + v.Intn(6), hops: 1 + v.Intn(70), version: "2.0"}
			if v.chance(8) {
				r.method = "BYE"
			}
			if v.chance(10) {
				r.cseq = 0
			}
			if v.chance(16) {
				r.hops = v.Intn(2) - 1
			}
			if v.chance(12) {
				r.foreign = true
				r.resp = v.chance(3)
			}
			if v.chance(20) {
				r.version = v.oneof("1.0", "3.0", "2.1", "0.2")
				r.resp = v.chance(3)
			}
			if v.chance(2) {
				r.contact = fmt.Sprintf("sip:%s@127.0.0.1:%d", v.oneof("bob", "dave"), s.peers[v.Intn(2)].port)
			}
			if r.method == "INVITE" || v.chance(5) {
				r.media = v.Intn(5)
			}
			s.request(r)
		}
		// The remote contact shows in the hang-up.
		if !s.ended && s.answered && v.chance(2) {
			s.hangup()
			s.respond(vResp{status: 200, phrase: "OK"})
		}
	})
}
