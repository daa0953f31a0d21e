package dialog

import (
	"fmt"
	"net"
	"strconv"
	"testing"

	"github.com/jart/gosip/sip"
)

func TestVerifC19(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		var via *sip.Via
		var contact *sip.Addr
		if !v.chance(4) {
			via, contact = v.vvia1(), v.vaddr1()
		}
		m := v.vmsg(v.chance(2))
		if m.Status > 0 {
			if v.chance(10) {
				m.Via = nil
			} else if via != nil && v.chance(2) {
				m.Via.Host, m.Via.Port = via.Host, via.Port
			}
			for p := m.Via; p != nil; p = p.Next {
				for q := p.Param; q != nil; q = q.Next {
					switch q.Name {
					case "rport":
						q.Value = v.oneof("", "5060", "1", "65535", "65536", "99999", "-1", "0", "abc", "12x", "40000", " 5", "+5")
					case "received":
						q.Value = v.oneof("192.0.2.1", "10.9.9.9", "::2")
					}
				}
			}
		} else if contact != nil && m.Route != nil && v.chance(2) {
			m.Route.Uri.Host, m.Route.Uri.Port = contact.Uri.Host, contact.Uri.Port
		}
		o := vcMsg(m)
		vo, co := vcVia(via), vcAddr(contact)
		v.What = fmt.Sprintf("via %+v contact %s message status %d method %s request %s route %s via %s", via, contact, o.Status, o.Method, vuristr(o), o.Route, vstrNoVia(o))
		host, port, err := RouteMessage(via, contact, m)
		v.check(veq(via, vo) && veq(contact, co), "routing changed our Via or contact")
		if o.Status > 0 {
			e := o.Via
			if vo != nil && e != nil && e.Host == vo.Host && e.Port == vo.Port {
				e = e.Next
			}
			v.check(veq(m.Via, e), "response keeps Via %s", vstrNoVia(m))
			if e == nil {
				v.check(err != nil, "response without Via goes to %s:%d", host, port)
				return
			}
			wh, wp := e.Host, e.Port
			if q := vget(e.Param, "received"); q != nil {
				wh = q.Value
			}
			if q := vget(e.Param, "rport"); q != nil && q.Value != "" {
				n := 0
				for i := 0; i < len(q.Value); i++ {
					c := q.Value[i]
					if c < '0' || c > '9' || n > 65535 {
						n = 1 << 20
						break
					}
					n = n*10 + int(c-'0')
				}
				if n > 65535 {
					v.check(err != nil, "response with rport %q goes to %s:%d", q.Value, host, port)
					return
				}
				wp = uint16(n)
			}
			v.check(err == nil && host == wh && port == wp, "response goes to %s:%d (%v), want %s:%d", host, port, err, wh, wp)
			m.Via = o.Via
			v.check(veq(m, o), "routing changed the response")
			return
		}
		r := o.Route
		if co != nil && r != nil && r.Uri.Host == co.Uri.Host && vor(r.Uri.Port) == vor(co.Uri.Port) {
			if r.Uri.Host == co.Uri.Host && r.Uri.Port == co.Uri.Port {
				r = r.Next
			} else {
				return // Not said whether the default port is the same.
			}
		}
		if r != nil && o.Method == "REGISTER" {
			v.check(err != nil, "REGISTER with a route goes to %s:%d", host, port)
			return
		}
		v.check(err == nil, "error %v", err)
		switch {
		case r == nil:
			v.check(host == o.Request.Host && port == o.Request.Port, "goes to %s:%d", host, port)
			v.check(m.Route == nil && veq(m.Request, o.Request), "target or route changed")
		case vgetU(r.Uri.Param, "lr") != nil:
			v.check(host == r.Uri.Host && port == r.Uri.Port, "goes to %s:%d, want the loose router %s", host, port, r)
			v.check(veq(m.Route, r) && veq(m.Request, o.Request), "target or route changed")
		default:
			v.check(host == r.Uri.Host && port == r.Uri.Port, "goes to %s:%d, want the strict router %s", host, port, r)
			v.check(veq(m.Request, r.Uri), "target is %s, want the strict router", vuristr(m))
			got, want := vaddrList(m.Route), vaddrList(r.Next)
			v.check(len(got) == len(want)+1, "route is %s", m.Route)
			for i, w := range want {
				v.check(veq(got[i].Uri, w.Uri) && got[i].Display == w.Display && veq(got[i].Param, w.Param), "route is %s", m.Route)
			}
			v.check(veq(got[len(want)].Uri, o.Request), "last route is %s, want the target %s", got[len(want)], vuristr(o))
		}
		m.Route, m.Request = o.Route, o.Request
		v.check(veq(m, o), "routing changed other parts of the request")
	})
	vrun(t, 500, func(v *vT) {
		var ip net.IP
		if v.chance(2) {
			ip = net.IPv4(byte(v.Intn(256)), byte(v.Intn(256)), byte(v.Intn(256)), byte(v.Intn(256)))
		} else {
			ip = make(net.IP, 16)
			for i := range ip {
				if v.chance(3) {
					ip[i] = byte(v.Intn(256))
				}
			}
			ip[0] |= 0x20
		}
		port := uint16(v.Intn(65536))
		if v.chance(3) {
			port = v.port()
		}
		v.What = ip.String() + " port " + strconv.Itoa(int(port))
		r, err := RouteAddress(ip.String(), port, v.chance(2))
		v.check(err == nil && r != nil && r.Next == nil, "literal address does not resolve to one address: %v %v", r, err)
		w := port
		if w == 0 {
			w = 5060
		}
		a, err := net.ResolveUDPAddr("udp", r.Address)
		v.check(err == nil && a.IP.Equal(ip) && a.Port == int(w), "resolves to %s", r.Address)
	})
}
