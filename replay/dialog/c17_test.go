package dialog

import (
	"testing"

	"github.com/jart/gosip/sip"
)

func TestVerifC17(t *testing.T) {
	vrun(t, 2000, func(v *vT) {
		req := v.vmsg(false)
		orig := vcMsg(req)
		v.What = "request " + vstr(orig)

		// Response.
		status := []int{100, 180, 200, 302, 404, 481, 486, 487, 500, 503, 505, 603}[v.Intn(12)]
		r := NewResponse(req, status)
		v.check(veq(r.Via, orig.Via), "response has Via %s", vstr(r))
		v.check(veq(r.From, orig.From) && veq(r.To, orig.To), "response has other From or To: %s", vstr(r))
		v.check(r.CallID == orig.CallID && r.CSeq == orig.CSeq && r.CSeqMethod == orig.CSeqMethod, "response has other Call-ID or CSeq: %s", vstr(r))
		v.check(veq(r.RecordRoute, orig.RecordRoute), "response has other Record-Route: %s", vstr(r))
		v.check(r.Status == status && r.Phrase == sip.Phrase(status) && r.Phrase != "" && r.IsResponse(), "response has status %d %q", r.Status, r.Phrase)
		v.check(r.Method == "" && r.Request == nil && r.Route == nil && r.Payload == nil && r.Authorization == "", "response has parts of a request: %s", vstr(r))
		v.check(veq(req, orig), "NewResponse changed the request to %s", vstr(req))

		// Acknowledgement of a response to an INVITE.
		inv := v.vmsg(false)
		inv.Method = "INVITE"
		invo := vcMsg(inv)
		rsp := v.vmsg(true)
		if v.chance(4) {
			rsp.Contact = nil
		}
		rspo := vcMsg(rsp)
		v.What = "invite " + vstr(invo) + " response " + vstr(rspo)
		a := NewAck(rsp, inv)
		v.check(a.Method == "ACK" && a.CSeqMethod == "ACK" && a.Status == 0, "acknowledgement is %s", vstr(a))
		v.check(a.CallID == rspo.CallID && a.CSeq == rspo.CSeq && veq(a.From, rspo.From) && veq(a.To, rspo.To), "acknowledgement of another transaction: %s", vstr(a))
		v.check(a.Via != nil && a.Via.Next == nil && vvia1eq(a.Via, rspo.Via), "acknowledgement has Via %s", vstr(a))
		if rspo.Contact != nil {
			v.check(veq(a.Request, rspo.Contact.Uri), "acknowledgement goes to %s", vstr(a))
		} else {
			v.check(veq(a.Request, invo.Request), "acknowledgement goes to %s", vstr(a))
		}
		v.check(veqReversed(rspo.RecordRoute, a.Route), "acknowledgement has route %s", vstr(a))
		v.check(veq(rsp, rspo) && veq(inv, invo), "NewAck changed its arguments: %s %s", vstr(rsp), vstr(inv))

		// Cancellation.
		c := NewCancel(inv)
		v.check(c.Method == "CANCEL" && c.CSeqMethod == "CANCEL" && c.Status == 0, "cancellation is %s", vstr(c))
		v.check(c.CallID == invo.CallID && c.CSeq == invo.CSeq && veq(c.From, invo.From) && veq(c.To, invo.To), "cancellation of another transaction: %s", vstr(c))
		v.check(veq(c.Via, invo.Via) && veq(c.Route, invo.Route) && veq(c.Request, invo.Request), "cancellation takes another path: %s", vstr(c))
		v.check(veq(inv, invo), "NewCancel changed the invite: %s", vstr(inv))

		// Hang-up.
		if rsp.Contact == nil {
			rsp.Contact = v.vaddr1()
			rspo = vcMsg(rsp)
		}
		seq := v.Intn(100000)
		before := seq
		var b *sip.Msg
		if v.chance(4) {
			b = NewBye(inv, rsp, nil)
			v.check(b.CSeq == invo.CSeq+1, "hang-up has CSeq %d after %d", b.CSeq, invo.CSeq)
		} else {
			b = NewBye(inv, rsp, &seq)
			v.check(b.CSeq == before+1 && seq == before+1, "hang-up has CSeq %d, next %d after %d", b.CSeq, seq, before)
			b2 := NewBye(inv, rsp, &seq)
			v.check(b2.CSeq == before+2 && seq == before+2, "second hang-up has CSeq %d after %d", b2.CSeq, before+1)
		}
		v.check(b.Method == "BYE" && b.CSeqMethod == "BYE" && b.Status == 0, "hang-up is %s", vstr(b))
		v.check(b.CallID == invo.CallID && veq(b.From, invo.From) && veq(b.To, rspo.To), "hang-up of another dialog: %s", vstr(b))
		v.check(veq(b.Request, rspo.Contact.Uri), "hang-up goes to %s", vstr(b))
		v.check(veqReversed(rspo.RecordRoute, b.Route), "hang-up has route %s", vstr(b))
		v.check(veq(rsp, rspo) && veq(inv, invo), "NewBye changed its arguments: %s %s", vstr(rsp), vstr(inv))

		// New request.
		tp := &Transport{Via: v.vvia1(), Contact: v.vaddr1()}
		tpv, tpc := vcVia(tp.Via), vcAddr(tp.Contact)
		to := v.vaddrs(2)
		if to == nil {
			to = v.vaddr1()
		}
		var from *sip.Addr
		if !v.chance(3) {
			from = v.vaddr1()
		}
		too, fromo := vcAddr(to), vcAddr(from)
		method := v.oneof(vMethods[:7]...)
		v.What = "NewRequest " + method + " to " + to.String() + " from " + from.String()
		n := NewRequest(tp, method, to, from)
		m := NewRequest(tp, method, to, from)
		v.check(n.Method == method && n.CSeqMethod == method && n.Status == 0, "request is %s", vstr(n))
		v.check(veq(n.Request, too.Uri) && veq(n.To, too), "request goes to %s", vstr(n))
		if fromo == nil {
			fromo = tpc
		}
		v.check(n.From != nil && n.From.Param != nil && n.From.Param.Name == "tag" && vtag(n.From.Param.Value) && veq(n.From.Param.Next, fromo.Param) &&
			veq(n.From.Uri, fromo.Uri) && n.From.Display == fromo.Display, "request comes from %s", vstr(n))
		v.check(n.Via != nil && n.Via.Param != nil && n.Via.Param.Name == "branch" && vbranch(n.Via.Param.Value) && veq(n.Via.Param.Next, tpv.Param) &&
			n.Via.Host == tpv.Host && n.Via.Port == tpv.Port && n.Via.Next == nil, "request has Via %s", vstr(n))
		v.check(vcallid(n.CallID) && n.CSeq >= 0 && n.CSeq < 50000, "request has Call-ID %q CSeq %d", n.CallID, n.CSeq)
		v.check(n.CallID != m.CallID && n.Via.Param.Value != m.Via.Param.Value && n.From.Param.Value != m.From.Param.Value, "two requests share Call-ID, branch or tag")
		// Its addresses are copies.
		n.Request.Host, n.To.Uri.Host, n.From.Uri.Host, n.Via.Host = "changed", "changed", "changed", "changed"
		n.To.Tag()
		n.From.Tag()
		n.Via.Branch()
		n.To.Display, n.From.Display = "changed", "changed"
		v.check(veq(to, too) && (from == nil || veq(from, fromo)) && veq(tp.Via, tpv) && veq(tp.Contact, tpc), "the request shares its addresses with its sources: to %s from %s", to, from)
	})
}
