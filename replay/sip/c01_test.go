package sip

import "testing"

func vAddrs(v *vT, what string, a *Addr) {
	for n := 0; a != nil; a = a.Next {
		v.check(a.Uri != nil, "%s address %d has no URI", what, n)
		n++
		v.check(n < 10000, "%s is circular", what)
	}
}

func vTotal(v *vT, data []byte) {
	v.What = "input " + vQ(data)
	keep := string(data)
	m, err := ParseMsg(data)
	v.check((m == nil) == (err != nil), "ParseMsg returned value %v and error %v", m != nil, err)
	v.check(string(data) == keep, "ParseMsg changed its input")
	if m != nil {
		vAddrs(v, "From", m.From)
		vAddrs(v, "To", m.To)
		vAddrs(v, "Contact", m.Contact)
		vAddrs(v, "Route", m.Route)
		vAddrs(v, "Record-Route", m.RecordRoute)
		vAddrs(v, "P-Asserted-Identity", m.PAssertedIdentity)
		vAddrs(v, "Remote-Party-ID", m.RemotePartyID)
		v.check(m.Status != 0 || m.Request != nil, "request without URI")
	}
	if err != nil {
		_ = err.Error()
	}
	u, err := ParseURI(data)
	v.check((u == nil) == (err != nil), "ParseURI returned value %v and error %v", u != nil, err)
	v.check(string(data) == keep, "ParseURI changed its input")
}

func TestVerifC01(t *testing.T) {
	vrun(t, 2000, func(v *vT) {
		switch v.Intn(6) {
		case 0:
			vTotal(v, []byte(v.any(0, 30)))
		case 1:
			vTotal(v, []byte(v.uri().String()))
		case 2:
			b := []byte(v.uri().String())
			for i := 1 + v.Intn(3); i > 0 && len(b) > 0; i-- {
				b[v.Intn(len(b))] = v.any(1, 1)[0]
			}
			vTotal(v, b[:v.Intn(len(b)+1):len(b)])
		default:
			b := []byte(v.msg().String())
			for i := v.Intn(5); i > 0; i-- {
				p := v.Intn(len(b))
				switch v.Intn(4) {
				case 0:
					b[p] = v.any(1, 1)[0]
				case 1:
					b = append(b[:p:p], b[p+1:]...)
				case 2:
					b = append(append(b[:p:p], v.any(1, 3)...), b[p:]...)
				case 3:
					q := p + v.Intn(len(b)-p)
					b = append(append(b[:q:q], b[p:q]...), b[q:]...)
				}
				if len(b) == 0 {
					b = []byte{0}
				}
			}
			if v.chance(3) {
				b = b[:v.Intn(len(b)+1)]
			}
			vTotal(v, append([]byte{}, b...)) // exact capacity
			// every truncation of a short message
			if v.chance(50) {
				for i := range b {
					vTotal(v, append([]byte{}, b[:i]...))
				}
			}
		}
	})
}
