package dialog

import (
	"fmt"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
)

var vr *vRecv

func TestVerifC24(t *testing.T) {
	vr = vNewRecv()
	vrun(t, 300, func(v *vT) {
		r := vr
		self := fmt.Sprintf("127.0.0.1:%d", r.to.Port)
		resp := v.chance(4)
		// Topmost Via.
		host := v.oneof("127.0.0.1", "127.0.0.1", "10.0.0.1", "example.com", "127.0.0.2", "[::1]")
		port := []int{r.port, r.port, 0, 5060, 5061}[v.Intn(5)]
		var params []string
		for i := v.Intn(4); i > 0; i-- {
			params = append(params, v.oneof("rport", "rport=1234", "received=10.1.1.1", "branch=z9hG4bKx", "RPORT", "Received=10.2.2.2", "ttl=5", "rportx", "xreceived=1"))
		}
		via := "SIP/2.0/UDP " + host
		if port != 0 {
			via += fmt.Sprintf(":%d", port)
		}
		for _, p := range params {
			via += ";" + p
		}
		// Routes and target.
		uris := []string{"sip:" + self, "sip:" + self + ";lr", "sip:x@127.0.0.1:5060;lr", "sip:10.0.0.5:5099;lr", "sip:a@b.example", "sip:127.0.0.1;lr", fmt.Sprintf("sip:10.0.0.6:%d;lr", r.to.Port), "sip:" + self + ";LR;x=y"}
		target := uris[v.Intn(len(uris))]
		var routes []string
		for i := v.Intn(5); i > 0; i-- {
			routes = append(routes, uris[v.Intn(len(uris))])
		}
		b := "INVITE " + target + " SIP/2.0\r\n"
		if resp {
			b = "SIP/2.0 200 OK\r\n"
		}
		noVia := v.chance(20)
		if !noVia {
			b += "Via: " + via + "\r\n"
			if v.chance(2) {
				b += "Via: SIP/2.0/UDP 10.0.0.77;branch=z9hG4bKlower\r\n"
			}
		}
		var rl []string
		for _, u := range routes {
			rl = append(rl, "<"+u+">")
		}
		if len(rl) > 0 {
			if v.chance(2) {
				b += "Route: " + strings.Join(rl, ", ") + "\r\n"
			} else {
				b += "Route: " + strings.Join(rl, "\r\nRoute: ") + "\r\n"
			}
		}
		b += fmt.Sprintf("From: <sip:f@h>;tag=1\r\nTo: <sip:t@h>\r\nCall-ID: c%d\r\nCSeq: 3 INVITE\r\nMax-Forwards: 9\r\nX-Foo: bar\r\n\r\n", v.N)
		if v.chance(30) { // Anything else must not end the receiver.
			c := []byte(b)
			for i := v.Intn(5) + 1; i > 0; i-- {
				c[v.Intn(len(c))] = byte(v.Intn(256))
			}
			v.What = fmt.Sprintf("%q", c)
			r.send(c[:v.Intn(len(c)+1)])
			r.get(v)
			return
		}
		v.What = fmt.Sprintf("from 127.0.0.1:%d to %s: %q", r.port, self, b)
		o, err := sip.ParseMsg([]byte(b))
		v.check(err == nil, "generator: %v", err)
		r.send([]byte(b))
		m := r.get(v)
		if noVia {
			v.check(m == nil, "message without Via is delivered: %s", m)
			return
		}
		v.check(m != nil, "message is not delivered")
		v.check(m.CallID == o.CallID && m.CSeq == o.CSeq && m.Method == o.Method && m.Status == o.Status && m.MaxForwards == 9, "delivered as %s", m)
		// Via.
		want := vcParam(o.Via.Param)
		got := m.Via.Param
		if !resp {
			wh := o.Via.Host
			odd := wh != "127.0.0.1"
			rp, rc := vget(want, "rport"), vget(want, "received")
			if int(o.Via.Port) != r.port {
				ps := fmt.Sprint(r.port)
				if rp == nil {
					g := vget(got, "rport")
					v.check(g != nil && g.Value == ps, "Via is %s, want rport=%s", vstrNoVia(m), ps)
				} else if rp.Value == "" {
					rp.Value = ps
				}
			}
			if odd && rc == nil {
				g := vget(got, "received")
				v.check(g != nil && g.Value == "127.0.0.1", "Via is %s, want received=127.0.0.1", vstrNoVia(m))
			}
			// What was there stays, in order.
			for p := got; p != nil; p = p.Next {
				if want != nil && p.Name == want.Name && p.Value == want.Value {
					want = want.Next
					continue
				}
				add := strings.ToLower(p.Name)
				v.check(add == "rport" && rp == nil && int(o.Via.Port) != r.port || add == "received" && rc == nil && odd, "Via is %s, was %s", vstrNoVia(m), vstrNoVia(o))
			}
			v.check(want == nil, "Via is %s, was %s", vstrNoVia(m), vstrNoVia(o))
		} else {
			v.check(veq(got, want), "response has Via %s, was %s", vstrNoVia(m), vstrNoVia(o))
		}
		v.check(veq(m.Via.Next, o.Via.Next) && m.Via.Host == o.Via.Host && m.Via.Port == o.Via.Port, "Via is %s, was %s", vstrNoVia(m), vstrNoVia(o))
		// Route.
		wr, wt := routes, ""
		if !resp {
			wt = target
		}
		own := func(u string) bool {
			p, err := sip.ParseURI([]byte(u))
			return err == nil && p.Host == "127.0.0.1" && int(vor(p.Port)) == r.to.Port
		}
		half := func(u string) bool { // Names our port on another host.
			p, err := sip.ParseURI([]byte(u))
			return err == nil && p.Host != "127.0.0.1" && int(vor(p.Port)) == r.to.Port
		}
		if len(wr) > 0 && own(wr[0]) {
			wr = wr[1:]
		} else if len(wr) > 0 && half(wr[0]) {
			return // Unclear.
		}
		if u, _ := sip.ParseURI([]byte(target)); !resp && vgetU(u.Param, "lr") != nil && len(wr) > 0 {
			if own(target) {
				wt = wr[len(wr)-1]
				wr = wr[:len(wr)-1]
			} else if half(target) {
				return
			}
		}
		gr := vaddrList(m.Route)
		v.check(len(gr) == len(wr), "route is %s, want %v", m.Route, wr)
		for i := range wr {
			u, _ := sip.ParseURI([]byte(wr[i]))
			v.check(veq(gr[i].Uri, u), "route is %s, want %v", m.Route, wr)
		}
		if wt != "" {
			u, _ := sip.ParseURI([]byte(wt))
			v.check(veq(m.Request, u), "target is %s, want %s", vuristr(m), wt)
		} else {
			v.check(m.Request == nil, "response has target %s", vuristr(m))
		}
	})
	vr.close()
}
