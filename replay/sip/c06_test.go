package sip

import (
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func (v *vT) params() (text string, p *Param) {
	for i := v.Intn(4); i > 0; i-- {
		q := &Param{Name: v.from(vToken, 1, 5), Next: p}
		text += v.sws6() + ";" + v.sws6() + q.Name
		switch v.Intn(3) {
		case 0:
			q.Value = v.from(vToken+"[]:", 1, 5)
			text += v.sws6() + "=" + v.sws6() + q.Value
		case 1:
			var t string
			t, q.Value = v.inQuotes()
			text += v.sws6() + "=" + v.sws6() + "\"" + t + "\""
		}
		p = q
	}
	return
}

func (v *vT) lws6() string { return v.lws() }

// utf8 is a character of two to six bytes.
func (v *vT) utf8() string {
	n := 1 + v.Intn(5)
	b := []byte{[]byte{0xc0, 0xe0, 0xf0, 0xf8, 0xfc}[n-1] + byte(v.Intn([]int{32, 16, 8, 4, 2}[n-1]))}
	for ; n > 0; n-- {
		b = append(b, 0x80+byte(v.Intn(64)))
	}
	return string(b)
}

// inQuotes is a text in quotes, as it is written and as it is meant.
func (v *vT) inQuotes() (text, mean string) {
	for i := v.Intn(6); i > 0; i-- {
		var t, m string
		switch v.Intn(5) {
		case 0:
			t = v.utf8()
			m = t
		case 1:
			t = v.lws()
			m = t
		case 2:
			m = string([]byte{byte(v.Intn(128))})
			if m == "\r" || m == "\n" {
				m = "n"
			}
			t = "\\" + m
		default:
			t = v.from(vAlpha+",;<>:[]@'{}", 1, 4)
			m = t
		}
		text += t
		mean += m
	}
	return
}

func (v *vT) sws6() string {
	if v.chance(2) {
		return ""
	}
	return v.lws6()
}

func TestVerifC06(t *testing.T) {
	vrun(t, 4000, func(v *vT) {
		text := "OPTIONS sip:h SIP/2.0\r\n"
		want := &Msg{VersionMajor: 2, Method: "OPTIONS", Request: &URI{Scheme: "sip", Host: "h"}}
		vp := &want.Via
		fields := []struct {
			name string
			p    **Addr
		}{{"From", &want.From}, {"To", &want.To}, {"Contact", &want.Contact}, {"Route", &want.Route}, {"Record-Route", &want.RecordRoute},
			{"P-Asserted-Identity", &want.PAssertedIdentity}, {"Remote-Party-ID", &want.RemotePartyID}}
		for line := 1 + v.Intn(5); line > 0; line-- {
			if v.chance(2) {
				text += v.anyCase([]string{"via", "v"}[v.Intn(2)]) + v.hcolon()
				for i := 1 + v.Intn(3); i > 0; i-- {
					x := &Via{Protocol: v.from(vToken, 1, 3), Version: v.from(vToken, 1, 3), Transport: v.from(vToken, 1, 3), Host: v.host(), Port: v.port()}
					h := x.Host
					if strings.Contains(h, ":") {
						h = "[" + h + "]"
					}
					text += x.Protocol + v.sws6() + "/" + v.sws6() + x.Version + v.sws6() + "/" + v.sws6() + x.Transport + v.lws6() + h
					if x.Port != 0 {
						text += v.sws6() + ":" + v.sws6() + strconv.Itoa(int(x.Port))
					}
					s, p := v.params()
					text += s
					x.Param = p
					*vp = x
					vp = &x.Next
					if i > 1 {
						text += v.sws6() + "," + v.sws6()
					}
				}
				text += "\r\n"
				continue
			}
			f := &fields[v.Intn(len(fields))]
			text += v.anyCase(f.name) + v.hcolon()
			for i := 1 + v.Intn(3); i > 0; i-- {
				a := &Addr{Uri: &URI{Scheme: "sip", User: v.from(vAlpha+",;?", 1, 3), Host: v.host(), Port: v.port()}}
				h := a.Uri.Host
				if strings.Contains(h, ":") {
					h = "[" + h + "]"
				}
				u := "sip:" + a.Uri.User + "@" + h
				if a.Uri.Port != 0 {
					u += ":" + strconv.Itoa(int(a.Uri.Port))
				}
				switch v.Intn(4) {
				case 0: // without angle brackets
					a.Uri.User = v.from(vAlpha, 1, 4)
					u = "sip:" + a.Uri.User + "@" + h
					text += u
				case 1:
					a.Display = v.from(vToken, 1, 4)
					for j := v.Intn(3); j > 0; j-- {
						a.Display += v.lws() + v.from(vToken, 1, 4)
					}
					text += a.Display + v.lws6() + "<" + u + ">"
				case 2:
					var t string
					t, a.Display = v.inQuotes()
					text += "\"" + t + "\"" + v.sws6() + "<" + u + ">"
				case 3:
					a.Uri.Param = &URIParam{"lr", "", nil}
					text += "<" + u + ";lr>"
				}
				if strings.HasSuffix(text, ">") == false {
					a.Uri.Port = 0
				}
				s, p := v.params()
				text += s
				a.Param = p
				*f.p = a
				f.p = &a.Next
				if i > 1 {
					text += v.sws6() + "," + v.sws6()
				}
			}
			text += "\r\n"
		}
		v.What = vQ([]byte(text))
		got, err := ParseMsg([]byte(text + "\r\n"))
		v.check(err == nil, "does not parse: %v", err)
		if d := vDiff(want, got); d != "" {
			v.fail("expected / read %s", d)
		}
		_ = reflect.DeepEqual
	})
}
