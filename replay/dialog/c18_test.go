package dialog

import (
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
)

// vOldest is the last Via of the stack.
func vOldest(m *sip.Msg) *sip.Via {
	p := m.Via
	for p != nil && p.Next != nil {
		p = p.Next
	}
	return p
}

func TestVerifC18(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		req := v.vmsg(false)
		if v.chance(8) {
			req = v.vmsg(true)
		}
		// A message that matches, with up to two differences.
		rsp := v.vmsg(true)
		rsp.CSeq, rsp.CSeqMethod = req.CSeq, req.Method
		if req.Via != nil {
			if v.chance(2) {
				vOldest(rsp).Param = vcParam(req.Via.Param)
			}
			vOldest(rsp).Host, vOldest(rsp).Port = req.Via.Host, req.Via.Port
		}
		ack := v.vmsg(false)
		ack.Method, ack.CSeqMethod, ack.CSeq = "ACK", "ACK", req.CSeq
		vOldest(ack).Host, vOldest(ack).Port = req.Via.Host, req.Via.Port
		for i := v.Intn(3); i > 0; i-- {
			for _, m := range []*sip.Msg{rsp, ack} {
				o := vOldest(m)
				switch v.Intn(12) {
				case 0:
					m.CSeq++
				case 1:
					m.CSeqMethod = v.oneof(vMethods...)
				case 2:
					m.Method = v.oneof(vMethods...)
				case 3:
					m.Status = v.Intn(2) * 200
				case 4:
					if o != nil {
						o.Host = v.host()
					}
				case 5:
					if o != nil {
						o.Port = v.port()
					}
				case 6:
					if o != nil {
						o.Param = v.vparams("branch", "Branch", "tag")
					}
				case 7:
					m.Via = nil
				case 8:
					m.Via = v.vvias(1, 3)
				case 9:
					if o != nil && vget(o.Param, "branch") != nil {
						b := vget(o.Param, "branch")
						b.Value = strings.ToUpper(b.Value)
					}
				case 10:
					if o != nil && v.chance(2) {
						o.Host = strings.ToUpper(o.Host)
					} else {
						m.CSeqMethod = strings.ToLower(m.CSeqMethod)
					}
				case 11:
					req.Via.Param = vcParam(req.Via.Param)
					req.Via.Param = &sip.Param{Name: "branch", Value: v.word(), Next: req.Via.Param}
				}
			}
		}
		if v.chance(10) {
			req.Via = nil
		}
		ro, so, ao := vcMsg(req), vcMsg(rsp), vcMsg(ack)
		v.What = "request " + vstrNoVia(req) + " response " + vstrNoVia(rsp) + " ack " + vstrNoVia(ack)
		same := func(a, b *sip.Via) bool { return a != nil && b != nil && a.Host == b.Host && a.Port == b.Port }
		branch := func(a, b *sip.Via) bool {
			if a == nil || b == nil {
				return false
			}
			x, y := vget(a.Param, "branch"), vget(b.Param, "branch")
			return x != nil && y != nil && x.Value == y.Value
		}
		want := rsp.Status > 0 && rsp.CSeq == req.CSeq && rsp.CSeqMethod == req.Method && same(vOldest(rsp), req.Via) && branch(vOldest(rsp), req.Via)
		v.check(ResponseMatch(req, rsp) == want, "ResponseMatch = %v, want %v", !want, want)
		want = ack.Status <= 0 && ack.Method == "ACK" && ack.CSeqMethod == "ACK" && ack.CSeq == req.CSeq && same(vOldest(ack), req.Via)
		v.check(AckMatch(req, ack) == want, "AckMatch = %v, want %v", !want, want)
		v.check(veq(req, ro) && veq(rsp, so) && veq(ack, ao), "matching changed a message")
	})
}
