package sip

import (
	"bytes"
	"strings"
	"testing"
)

const vUnres = vAlpha + vDigit + "-_.!~*'()"

// vEsc checks that s is the escaped form of raw over the given characters.
func vEsc(v *vT, what, s, raw, legal string) {
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			v.check(i+2 < len(s), "%s %q of %q: cut escape", what, s, raw)
			hi, lo := vHex(s[i+1]), vHex(s[i+2])
			v.check(hi >= 0 && lo >= 0, "%s %q of %q: bad escape", what, s, raw)
			out = append(out, byte(hi<<4|lo))
			i += 2
		} else {
			v.check(strings.IndexByte(legal, s[i]) >= 0, "%s %q of %q: illegal byte %q", what, s, raw, s[i])
			out = append(out, s[i])
		}
	}
	v.check(string(out) == raw, "%s %q encodes %q not %q", what, s, out, raw)
}

func vHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func vCut(v *vT, s, pre, suf string) string {
	v.check(len(s) >= len(pre)+len(suf) && strings.HasPrefix(s, pre) && strings.HasSuffix(s, suf), "%q is not %q...%q", s, pre, suf)
	return s[len(pre) : len(s)-len(suf)]
}

// vContained checks text that is either bare or one quoted string.
func vContained(v *vT, s, raw, bare string) {
	if s == "" || s[0] != '"' {
		for i := range []byte(s) {
			v.check(strings.IndexByte(bare, s[i]) >= 0, "%q of %q: bare byte %q", s, raw, s[i])
		}
		v.check(s == raw, "%q written as %q", raw, s)
		return
	}
	v.check(len(s) >= 2 && s[len(s)-1] == '"', "%q of %q: no closing quote", s, raw)
	esc := false
	body := s[1 : len(s)-1]
	for i := 0; i < len(body); i++ {
		c := body[i]
		if esc {
			v.check(c != '\n' && c != '\r' && c < 0x80, "%q of %q: escaped %q", s, raw, c)
			esc = false
			continue
		}
		switch {
		case c == '\\':
			esc = true
		case c == '"':
			v.fail("%q of %q: quote ends early", s, raw)
		case c == '\r':
			v.check(i+2 < len(body) && body[i+1] == '\n' && (body[i+2] == ' ' || body[i+2] == '\t'), "%q of %q: line break", s, raw)
			i++
		case c == '\n':
			v.fail("%q of %q: line break", s, raw)
		}
	}
	v.check(!esc, "%q of %q: closing quote is escaped", s, raw)
}

func vTokens(v *vT, what, s, raw string) {
	want := ""
	for i := range []byte(raw) {
		if strings.IndexByte(vToken, raw[i]) >= 0 {
			want += raw[i : i+1]
		}
	}
	v.check(s == want, "%s %q written as %q", what, raw, s)
}

func TestVerifC03(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		a, b := v.any(1, 10), v.any(1, 10)
		if v.N < 1024 {
			c := string([]byte{byte(v.N)})
			a = []string{c, "x" + c, c + "x", "x" + c + "x"}[v.N/256]
			b = a
		}
		if v.chance(3) {
			a, b = v.quotable(1, 8)+v.any(0, 2), v.quotable(1, 8)+v.any(0, 2)
		}
		if v.chance(8) {
			a = strings.Repeat([]string{"\\", "\"", "\r\n ", "\r\n", "\n", "\r"}[v.Intn(6)], 1+v.Intn(3))
			b = "a" + a + "b"
		}
		v.What = "texts " + vQ([]byte(a)) + " | " + vQ([]byte(b))
		user := vUnres + "&=+$,;?/"
		s := (&URI{Scheme: "sip", User: a, Host: "h"}).String()
		vEsc(v, "user", vCut(v, s, "sip:", "@h"), a, user)
		s = (&URI{Scheme: "sip", User: "u", Pass: b, Host: "h"}).String()
		vEsc(v, "password", vCut(v, s, "sip:u:", "@h"), b, vUnres+"&=+$,")
		s = (&URI{Scheme: "sip", Host: "h", Param: &URIParam{a, b, nil}}).String()
		p := vCut(v, s, "sip:h;", "")
		i := strings.IndexByte(p, '=')
		v.check(i >= 0, "URI parameter %q", p)
		vEsc(v, "URI parameter name", p[:i], a, vUnres+"[]/:&+$")
		vEsc(v, "URI parameter value", p[i+1:], b, vUnres+"[]/:&+$")
		s = (&URI{Scheme: "sip", Host: "h", Header: &URIHeader{a, b, nil}}).String()
		p = vCut(v, s, "sip:h?", "")
		i = strings.IndexByte(p, '=')
		v.check(i >= 0, "URI header %q", p)
		vEsc(v, "URI header name", p[:i], a, vUnres+"[]/?:+$")
		vEsc(v, "URI header value", p[i+1:], b, vUnres+"[]/?:+$")

		var buf bytes.Buffer
		(&Addr{Uri: &URI{Scheme: "sip", Host: "h"}, Display: a}).Append(&buf)
		vContained(v, vCut(v, buf.String(), "", " <sip:h>"), a, vToken+" ")
		buf.Reset()
		(&Param{"n", b, nil}).Append(&buf)
		vContained(v, vCut(v, buf.String(), ";n=", ""), b, vToken)
		buf.Reset()
		(&Param{a, "v", nil}).Append(&buf)
		vTokens(v, "parameter name", vCut(v, buf.String(), ";", "=v"), a)
		s = (&XHeader{Name: a, Value: []byte("v")}).String()
		vTokens(v, "extension header name", vCut(v, s, "", ": v\r\n"), a)
	})
}
