package sip

import (
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	const head = "OPTIONS sip:h SIP/2.0\r\n"
	vrun(t, 4000, func(v *vT) {
		want := &Msg{VersionMajor: 2, Method: "OPTIONS", Request: &URI{Scheme: "sip", Host: "h"}}
		r := reflect.ValueOf(want).Elem()
		text, body := head, ""
		used := map[string]bool{}
		var order []*XHeader
		names := vSorted
		pick := names[v.N%len(names)]
		for i := v.Intn(5); i >= 0; i-- {
			name := names[v.Intn(len(names))]
			if i == 0 {
				name = pick
			}
			if v.chance(3) {
				n, val := v.xname(), v.text(0)
				text += n + v.hcolon() + val + "\r\n"
				order = append(order, &XHeader{n, []byte(val), nil})
				continue
			}
			f := vNames[name]
			key := f
			if f == "" {
				key = name[:1]
				if name == "content-length" {
					key = "l"
				}
			}
			if used[key] {
				continue
			}
			used[key] = true
			text += v.anyCase(name) + v.hcolon()
			switch f {
			case "":
				if key == "l" {
					text += "0"
				} else {
					text += "text/plain"
				}
			case "CallID":
				want.CallID = v.from(vWord, 1, 8) + "@" + v.from(vWord, 1, 8)
				text += want.CallID
			case "CSeq":
				want.CSeq, want.CSeqMethod = v.Intn(100000), v.from(vToken, 1, 6)
				text += strconv.Itoa(want.CSeq) + v.lws() + want.CSeqMethod
			case "Expires", "MaxForwards", "MinExpires":
				n := v.Intn(100000)
				r.FieldByName(f).SetInt(int64(n))
				text += strconv.Itoa(n)
			case "Via":
				want.Via = &Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: v.host(), Port: 99}
				h := want.Via.Host
				if strings.Contains(h, ":") {
					h = "[" + h + "]"
				}
				text += "SIP/2.0/UDP " + h + ":99"
			case "Contact", "From", "To", "Route", "RecordRoute", "PAssertedIdentity", "RemotePartyID":
				a := &Addr{Uri: &URI{Scheme: "sip", Host: "x" + strconv.Itoa(v.Intn(999))}}
				r.FieldByName(f).Set(reflect.ValueOf(a))
				text += "<sip:" + a.Uri.Host + ">"
			default:
				val := v.text(0)
				r.FieldByName(f).SetString(val)
				text += val
			}
			text += "\r\n"
		}
		for _, h := range order {
			h.Next = want.XHeader
			want.XHeader = h
		}
		v.What = vQ([]byte(text))
		got, err := ParseMsg([]byte(text + "\r\n" + body))
		v.check(err == nil, "does not parse: %v", err)
		if d := vDiff(want, got); d != "" {
			v.fail("expected / read %s", d)
		}
	})
}
