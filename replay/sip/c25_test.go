package sip

import (
	"reflect"
	"testing"
)

// vDeep copies everything by hand, as the reference.
func vParamC(p *Param) *Param {
	if p == nil {
		return nil
	}
	return &Param{p.Name, p.Value, vParamC(p.Next)}
}
func vURIC(u *URI) *URI {
	if u == nil {
		return nil
	}
	w := *u
	var ps []*URIParam
	for p := u.Param; p != nil; p = p.Next {
		ps = append(ps, p)
	}
	w.Param, w.Header = nil, nil
	for i := len(ps) - 1; i >= 0; i-- {
		w.Param = &URIParam{ps[i].Name, ps[i].Value, w.Param}
	}
	var hs []*URIHeader
	for p := u.Header; p != nil; p = p.Next {
		hs = append(hs, p)
	}
	for i := len(hs) - 1; i >= 0; i-- {
		w.Header = &URIHeader{hs[i].Name, hs[i].Value, w.Header}
	}
	return &w
}
func vAddrC(a *Addr) *Addr {
	if a == nil {
		return nil
	}
	return &Addr{vURIC(a.Uri), a.Display, vParamC(a.Param), vAddrC(a.Next)}
}
func vViaC(a *Via) *Via {
	if a == nil {
		return nil
	}
	return &Via{a.Protocol, a.Version, a.Transport, a.Host, a.Port, vParamC(a.Param), vViaC(a.Next)}
}

func (v *vT) addrs() *Addr {
	var a *Addr
	for i := v.Intn(5); i > 0; i-- {
		b := v.addr(1)
		b.Next = a
		a = b
		if v.chance(8) {
			b.Uri = nil
		}
	}
	return a
}

func (v *vT) hurtURI(u *URI) {
	if u == nil {
		return
	}
	switch v.Intn(7) {
	case 0:
		u.Scheme += "x"
	case 1:
		u.User += "x"
	case 2:
		u.Pass += "x"
	case 3:
		u.Host += "x"
	case 4:
		u.Port++
	case 5:
		u.Param = &URIParam{"zz", "y", u.Param}
	case 6:
		u.Header = nil
		u.Param = nil
	}
}

func (v *vT) hurtAddr(a *Addr) {
	for ; a != nil; a = a.Next {
		switch v.Intn(7) {
		case 0:
			a.Display += "x"
		case 1:
			a.Tag()
		case 2:
			a.Param = nil
		case 3:
			a.Next = nil
		case 4:
			a.Last().Next = &Addr{}
			return
		default:
			v.hurtURI(a.Uri)
		}
	}
}

func (v *vT) hurtVia(a *Via) {
	for ; a != nil; a = a.Next {
		switch v.Intn(9) {
		case 0:
			a.Protocol += "x"
		case 1:
			a.Version += "x"
		case 2:
			a.Transport += "x"
		case 3:
			a.Host += "x"
		case 4:
			a.Port++
		case 5:
			a.Branch()
		case 6:
			a.Next = nil
		case 7:
			a.Last().Next = &Via{}
			return
		case 8:
			a.Param = nil
		}
	}
}

func vFlat(v *vT, a *Addr) (l []Addr) {
	for ; a != nil; a = a.Next {
		b := *a
		b.Next = nil
		l = append(l, b)
		v.check(len(l) < 1000, "circular list")
	}
	return
}

func TestVerifC25(t *testing.T) {
	eq := reflect.DeepEqual
	vrun(t, 3000, func(v *vT) {
		a := v.addrs()
		keep := vAddrC(a)
		v.What = "list " + vShow(reflect.ValueOf(a))
		b := a.Copy()
		v.check(eq(a, keep) && eq(b, keep), "address copy %s", vShow(reflect.ValueOf(b)))
		v.hurtAddr(b)
		v.check(eq(a, keep), "changing the copy changed the original to %s", vShow(reflect.ValueOf(a)))
		r := a.Reversed()
		v.check(eq(a, keep), "Reversed changed the original to %s", vShow(reflect.ValueOf(a)))
		fa, fr := vFlat(v, a), vFlat(v, r)
		v.check(len(fa) == len(fr), "Reversed has %d of %d", len(fr), len(fa))
		for i := range fa {
			v.check(eq(fa[i], fr[len(fr)-1-i]), "Reversed is %s", vShow(reflect.ValueOf(r)))
		}
		if a != nil {
			u := a.Uri
			ku := vURIC(u)
			w := u.Copy()
			v.check(eq(w, ku) && eq(u, ku), "URI copy %s", vShow(reflect.ValueOf(w)))
			v.hurtURI(w)
			v.check(eq(u, ku), "changing the copy changed the URI %s", vShow(reflect.ValueOf(u)))
		}
		var vi *Via
		if !v.chance(8) {
			vi = v.via(4)
		}
		kv := vViaC(vi)
		v.What = "list " + vShow(reflect.ValueOf(vi))
		wv := vi.Copy()
		v.check(eq(vi, kv) && eq(wv, kv), "Via copy %s", vShow(reflect.ValueOf(wv)))
		v.hurtVia(wv)
		v.check(eq(vi, kv), "changing the copy changed the Via %s", vShow(reflect.ValueOf(vi)))
		if vi != nil {
			d := vi.Detach()
			k1 := vViaC(vi)
			k1.Next = nil
			v.check(eq(vi, kv) && eq(d, k1), "Detach %s", vShow(reflect.ValueOf(d)))
			v.hurtVia(d)
			v.check(eq(vi, kv), "changing the detached Via changed the list %s", vShow(reflect.ValueOf(vi)))
		}
		var m *Msg
		v.check(m.Copy() == nil, "nil message")
		m = v.msg()
		if v.chance(8) {
			m.From, m.Request, m.Via = nil, nil, nil
		}
		km := *m
		km.Request, km.To, km.From, km.Via, km.Route, km.Contact, km.RecordRoute = vURIC(m.Request), vAddrC(m.To), vAddrC(m.From), vViaC(m.Via), vAddrC(m.Route), vAddrC(m.Contact), vAddrC(m.RecordRoute)
		km.PAssertedIdentity, km.RemotePartyID = vAddrC(m.PAssertedIdentity), vAddrC(m.RemotePartyID)
		v.What = vShow(reflect.ValueOf(m))
		c := m.Copy()
		v.check(vDiff(m, &km) == "" && vDiff(c, &km) == "", "message copy %s", vDiff(c, &km))
		v.hurtAddr(c.To)
		v.hurtAddr(c.From)
		v.hurtVia(c.Via)
		v.hurtAddr(c.Route)
		v.hurtAddr(c.Contact)
		v.hurtAddr(c.RecordRoute)
		v.hurtAddr(c.PAssertedIdentity)
		v.hurtAddr(c.RemotePartyID)
		v.hurtURI(c.Request)
		c.CallID += "x"
		c.CSeq++
		c.Payload = nil
		c.XHeader = &XHeader{"zz", nil, c.XHeader}
		c.To, c.Via = nil, nil
		v.check(vDiff(m, &km) == "", "changing the copy changed the message: %s", vDiff(m, &km))
	})
}
