package dialog

import (
	"testing"

	"github.com/jart/gosip/sip"
)

func TestVerifC20(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		via, contact := v.vvia1(), v.vaddr1()
		if v.chance(5) {
			via.Param = nil
		}
		vo, co := vcVia(via), vcAddr(contact)
		m := v.vmsg(v.chance(8))
		drop := v.Intn(1 << 12)
		if v.chance(5) {
			drop = 0
		}
		if drop&1 != 0 {
			m.Via = nil
		}
		if drop&2 != 0 {
			m.Contact = nil
		}
		if drop&4 != 0 {
			m.To = nil
		}
		if drop&8 != 0 {
			m.From = nil
		}
		if drop&16 != 0 {
			m.CallID = ""
		}
		if drop&32 != 0 {
			m.CSeq = 0
		}
		if drop&64 != 0 {
			m.CSeqMethod = ""
		}
		if drop&128 != 0 {
			m.MaxForwards = 0
		}
		if drop&256 != 0 {
			m.UserAgent = ""
		}
		o := vcMsg(m)
		v.What = "via " + via.Host + " contact " + contact.String() + " message " + vstrSafe(o)
		resp := o.Status > 0
		if resp {
			PopulateMessage(via, contact, m)
			v.check(veq(m, o), "response changed to %s", vstrSafe(m))
			v.check(veq(via, vo) && veq(contact, co), "templates changed")
			return
		}
		PopulateMessage(via, contact, m)
		v.check(veq(via, vo), "Via template changed: %+v", via)
		v.check(veq(contact, co), "contact template changed: %s", contact)
		// Via.
		v.check(m.Via != nil, "no Via")
		b := vget(m.Via.Param, "branch")
		v.check(b != nil, "no branch")
		src := o.Via
		if src == nil {
			src = vo
		}
		w := *m.Via
		if vget(src.Param, "branch") == nil {
			v.check(vbranch(b.Value) && b == m.Via.Param, "branch is %q", b.Value)
			w.Param = w.Param.Next
		}
		v.check(vvia1eq(&w, src) && veq(w.Next, src.Next), "Via is %+v", m.Via)
		// Contact.
		csrc := o.Contact
		if csrc == nil {
			csrc = co
		}
		v.check(veq(m.Contact, csrc), "contact is %s, want %s", m.Contact, csrc)
		// To.
		if o.To != nil {
			v.check(veq(m.To, o.To), "To is %s", m.To)
		} else {
			v.check(m.To != nil && veq(m.To.Uri, o.Request) && m.To.Next == nil, "To is %s", m.To)
		}
		// From.
		v.check(m.From != nil, "no From")
		tag := vget(m.From.Param, "tag")
		v.check(tag != nil, "no tag")
		if o.From != nil {
			f := *m.From
			if vget(o.From.Param, "tag") == nil {
				v.check(vtag(tag.Value) && tag == f.Param, "tag is %q", tag.Value)
				f.Param = f.Param.Next
			}
			v.check(veq(&f, o.From), "From is %s", m.From)
		} else {
			v.check(m.From.Uri != nil && m.From.Uri.Host == csrc.Uri.Host && m.From.Uri.User == csrc.Uri.User && m.From.Uri.Port == csrc.Uri.Port, "From is %s", m.From)
			if vget(csrc.Param, "tag") == nil {
				v.check(vtag(tag.Value), "tag is %q", tag.Value)
			}
		}
		// Plain fields.
		v.check(o.CallID == "" && vcallid(m.CallID) || o.CallID != "" && m.CallID == o.CallID, "Call-ID is %q", m.CallID)
		v.check(o.CSeq == 0 && m.CSeq >= 0 && m.CSeq < 50000 || o.CSeq != 0 && m.CSeq == o.CSeq, "CSeq is %d", m.CSeq)
		v.check(o.CSeqMethod == "" && m.CSeqMethod == o.Method || o.CSeqMethod != "" && m.CSeqMethod == o.CSeqMethod, "CSeq method is %q", m.CSeqMethod)
		v.check(o.MaxForwards == 0 && m.MaxForwards > 0 || o.MaxForwards != 0 && m.MaxForwards == o.MaxForwards, "Max-Forwards is %d", m.MaxForwards)
		v.check(o.UserAgent == "" && m.UserAgent != "" || o.UserAgent != "" && m.UserAgent == o.UserAgent, "User-Agent is %q", m.UserAgent)
		// Nothing else.
		n := *m
		n.Via, n.Contact, n.To, n.From, n.CallID, n.CSeq, n.CSeqMethod, n.MaxForwards, n.UserAgent = o.Via, o.Contact, o.To, o.From, o.CallID, o.CSeq, o.CSeqMethod, o.MaxForwards, o.UserAgent
		v.check(veq(&n, o), "other parts changed: %s", vstrSafe(m))
		// A second request completed from the same templates gets its own branch.
		if o.Via == nil && vget(vo.Param, "branch") == nil {
			m2 := &sip.Msg{Method: "OPTIONS", Request: v.vuri()}
			PopulateMessage(via, contact, m2)
			v.check(vget(m2.Via.Param, "branch").Value != b.Value, "two requests share branch %s", b.Value)
			m2.Via.Host, m2.Contact.Uri.Host = "changed", "changed"
			v.check(veq(via, vo) && veq(contact, co), "completed request shares the templates")
		}
	})
}
