package sip

import (
	"reflect"
	"testing"
)

func TestVerifC02(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		u := v.uri()
		if v.N < 256*4 {
			c := string([]byte{byte(v.N)})
			switch v.N / 256 {
			case 0:
				u = &URI{Scheme: "sip", User: "a" + c + "b", Host: "h"}
			case 1:
				u = &URI{Scheme: "sip", User: "a", Pass: c + "x", Host: "h", Port: uint16(v.N)}
			case 2:
				u = &URI{Scheme: "sip", Host: "h", Param: &URIParam{"n" + c, c + "v", nil}}
			case 3:
				u = &URI{Scheme: "sip", Host: "h", Header: &URIHeader{"n" + c, c + "v", nil}}
			}
		}
		if v.chance(20) {
			u.Scheme = v.from("abcdefghijklmnopqrstuvwxyz", 1, 1) + v.from("abcdefghijklmnopqrstuvwxyz0123456789+-.", 0, 8)
		}
		v.What = vShow(reflect.ValueOf(u))
		s := u.String()
		w, err := ParseURI([]byte(s))
		v.check(err == nil, "%q does not parse: %v", s, err)
		v.check(reflect.DeepEqual(u, w), "%q parses as %s", s, vShow(reflect.ValueOf(w)))
		if v.chance(4) {
			x := *u
			x.Scheme = ""
			w, err := ParseURI([]byte(x.String()))
			x.Scheme = "sip"
			v.check(err == nil && reflect.DeepEqual(&x, w), "%q without scheme: %v", x.String(), err)
		}
	})
}
