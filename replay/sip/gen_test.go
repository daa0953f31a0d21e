package sip

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/jart/gosip/sdp"
)

const (
	vAlpha   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	vDigit   = "0123456789"
	vToken   = vAlpha + vDigit + "-.!%*_+`'~"
	vSpecial = "@:;?&=<>\"%\\, \t\r\n/[]{}()+$#\x00\x7f\x80\xff"
	vWord    = vToken + "()<>:\\\"/[]?{}"
)

func (v *vT) from(set string, min, max int) string {
	n := min
	if max > min {
		n += v.Intn(max - min + 1)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = set[v.Intn(len(set))]
	}
	return string(b)
}

// bytes returns text of any bytes, preferring those that matter to the grammar.
func (v *vT) any(min, max int) string {
	n := min + v.Intn(max-min+1)
	b := make([]byte, n)
	for i := range b {
		switch v.Intn(4) {
		case 0:
			b[i] = byte(v.Intn(256))
		case 1:
			b[i] = vSpecial[v.Intn(len(vSpecial))]
		default:
			b[i] = (vAlpha + vDigit)[v.Intn(62)]
		}
	}
	return string(b)
}

func (v *vT) host() string {
	switch v.Intn(4) {
	case 0:
		return []string{"::1", "fe80::1", "2001:db8::a:1", "::ffff:1.2.3.4"}[v.Intn(4)]
	case 1:
		return strconv.Itoa(v.Intn(256)) + "." + strconv.Itoa(v.Intn(256)) + "." + strconv.Itoa(v.Intn(256)) + "." + strconv.Itoa(v.Intn(256))
	default:
		return v.from("abcdefghijklmnopqrstuvwxyz0123456789", 1, 1) + v.from("abcdefghijklmnopqrstuvwxyz0123456789-.", 0, 12)
	}
}

func (v *vT) port() uint16 {
	switch v.Intn(4) {
	case 0:
		return []uint16{1, 5060, 5061, 65535, 9, 10, 99, 100, 32768, 60000}[v.Intn(10)]
	case 1:
		return uint16(v.Uint32())
	}
	return 0
}

func (v *vT) uri() *URI {
	u := &URI{Scheme: []string{"sip", "sips", "tel", "a+b-c.9"}[v.Intn(4)], Host: v.host(), Port: v.port()}
	if v.chance(2) {
		u.User = v.any(1, 8)
		if v.chance(2) {
			u.Pass = v.any(1, 6)
		}
	}
	for i := v.Intn(3); i > 0 && v.chance(2); i-- {
		u.Param = &URIParam{v.any(1, 6), v.any(0, 6), u.Param}
	}
	for i := v.Intn(3); i > 0 && v.chance(2); i-- {
		u.Header = &URIHeader{v.any(1, 6), v.any(0, 6), u.Header}
	}
	return u
}

// quotable is text that a quoted string can carry.
func (v *vT) quotable(min, max int) string {
	s := ""
	for i := min + v.Intn(max-min+1); i > 0; i-- {
		switch v.Intn(9) {
		case 8:
			c := byte(v.Intn(128))
			if c == '\r' || c == '\n' {
				c = '\t'
			}
			s += string(rune(c))
		case 0:
			s += []string{"\\", "\"", "<", ">", ";", ",", "=", "%", "[", "]", "@", ":", "{", "\x7f", "\x01", "\x00", "'", "\x1f"}[v.Intn(18)]
		case 1:
			s += []string{" ", "\t", "\r\n ", "\r\n\t", "  "}[v.Intn(5)]
		default:
			s += v.from(vToken, 1, 2)
		}
	}
	return s
}

func (v *vT) param() (p *Param) {
	for i := v.Intn(4); i > 0 && v.chance(2); i-- {
		val := ""
		switch v.Intn(4) {
		case 0:
			val = v.from(vToken, 1, 6)
		case 1:
			val = v.quotable(0, 6)
		case 2:
			val = v.host()
		}
		p = &Param{v.from(vToken, 1, 6), val, p}
	}
	return
}

func (v *vT) addr(max int) *Addr {
	var a *Addr
	for i := 1 + v.Intn(max); i > 0; i-- {
		a = &Addr{Uri: v.uri(), Param: v.param(), Next: a}
		switch v.Intn(4) {
		case 0:
			a.Display = v.from(vToken, 1, 6)
		case 1:
			a.Display = v.from(vToken, 1, 4) + " " + v.from(vToken, 1, 4)
		case 2:
			a.Display = v.quotable(0, 6)
		}
		// parts may be shared between addresses
		if a.Next != nil && v.chance(6) {
			a.Uri = a.Next.Uri
		}
		if a.Next != nil && v.chance(6) {
			a.Display = a.Next.Display
		}
		if a.Next != nil && v.chance(6) {
			a.Param = a.Next.Param
		}
	}
	return a
}

func (v *vT) via(max int) (p *Via) {
	for i := 1 + v.Intn(max); i > 0; i-- {
		p = &Via{v.from(vToken, 1, 4), v.from(vToken, 1, 3), v.from(vToken, 1, 4), v.host(), v.port(), v.param(), p}
		if v.chance(2) {
			p.Protocol, p.Version, p.Transport = "SIP", "2.0", "UDP"
		}
		if v.chance(6) {
			p.Host = v.from(vAlpha+vDigit+"-.", 1, 10)
		}
	}
	return
}

// text is the value of a generic header.
func (v *vT) text(min int) string {
	s := ""
	for i := min + v.Intn(8); i > 0; i-- {
		switch v.Intn(8) {
		case 0:
			s += []string{"é", "\u20ac", "\U0001F600", "\x7f"}[v.Intn(4)]
		case 1:
			if s != "" {
				s += []string{" ", "\t", "\r\n ", "  \r\n\t", " \t"}[v.Intn(5)] + "x"
			}
		case 2:
			s += string("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"[v.Intn(32)])
		default:
			s += v.from(vAlpha+vDigit, 1, 3)
		}
	}
	if len(s) < min {
		s += "y"
	}
	return s
}

var vStrings = []string{"UserAgent", "Accept", "AcceptContact", "AcceptEncoding", "AcceptLanguage", "AlertInfo", "Allow", "AllowEvents",
	"AuthenticationInfo", "Authorization", "CallInfo", "ContentDisposition", "ContentEncoding", "ContentLanguage", "Date",
	"ErrorInfo", "Event", "InReplyTo", "MIMEVersion", "Organization", "Priority", "ProxyAuthenticate", "ProxyAuthorization",
	"ProxyRequire", "ReferTo", "ReferredBy", "ReplyTo", "Require", "RetryAfter", "Server", "Subject", "Supported", "Timestamp",
	"Unsupported", "WWWAuthenticate", "Warning"}

// vNames maps every recognised header name to its field.
var vNames = map[string]string{
	"accept": "Accept", "accept-contact": "AcceptContact", "a": "AcceptContact", "accept-encoding": "AcceptEncoding",
	"accept-language": "AcceptLanguage", "allow": "Allow", "allow-events": "AllowEvents", "u": "AllowEvents", "alert-info": "AlertInfo",
	"authentication-info": "AuthenticationInfo", "authorization": "Authorization", "content-disposition": "ContentDisposition",
	"content-language": "ContentLanguage", "content-encoding": "ContentEncoding", "e": "ContentEncoding", "call-info": "CallInfo",
	"date": "Date", "error-info": "ErrorInfo", "event": "Event", "o": "Event", "in-reply-to": "InReplyTo", "reply-to": "ReplyTo",
	"mime-version": "MIMEVersion", "organization": "Organization", "priority": "Priority", "proxy-authenticate": "ProxyAuthenticate",
	"proxy-authorization": "ProxyAuthorization", "proxy-require": "ProxyRequire", "refer-to": "ReferTo", "r": "ReferTo",
	"referred-by": "ReferredBy", "b": "ReferredBy", "require": "Require", "retry-after": "RetryAfter", "server": "Server",
	"subject": "Subject", "s": "Subject", "supported": "Supported", "k": "Supported", "timestamp": "Timestamp",
	"unsupported": "Unsupported", "user-agent": "UserAgent", "warning": "Warning", "www-authenticate": "WWWAuthenticate",
	"contact": "Contact", "m": "Contact", "from": "From", "f": "From", "p-asserted-identity": "PAssertedIdentity",
	"record-route": "RecordRoute", "remote-party-id": "RemotePartyID", "route": "Route", "to": "To", "t": "To",
	"via": "Via", "v": "Via", "call-id": "CallID", "i": "CallID", "content-length": "", "l": "", "content-type": "", "c": "",
	"cseq": "CSeq", "expires": "Expires", "max-forwards": "MaxForwards", "min-expires": "MinExpires",
}

var vSorted []string

func init() {
	for n := range vNames {
		vSorted = append(vSorted, n)
	}
	for i := range vSorted {
		for j := i; j > 0 && vSorted[j] < vSorted[j-1]; j-- {
			vSorted[j], vSorted[j-1] = vSorted[j-1], vSorted[j]
		}
	}
}

func (v *vT) xname() string {
	for {
		n := v.from(vToken, 1, 10)
		switch v.Intn(4) {
		case 0:
			n = vSorted[v.Intn(len(vSorted))] + v.from(vToken, 1, 2)
		case 1:
			n = vSorted[v.Intn(len(vSorted))]
			n = n[:1+v.Intn(len(n))]
		case 2:
			n = v.from(vToken, 1, 1)
		}
		if _, ok := vNames[strings.ToLower(n)]; !ok {
			return n
		}
	}
}

// count is a positive number, of any length.
func (v *vT) count() int { return 1 + v.Intn(1<<uint(1+v.Intn(30))) }

func (v *vT) msg() *Msg {
	m := &Msg{VersionMajor: 2, From: v.addr(1), To: v.addr(1), Via: v.via(3), CallID: v.from(vWord, 1, 8), CSeq: v.Intn(1 << 31), CSeqMethod: v.from(vToken, 1, 6)}
	if v.chance(2) {
		m.CallID += "@" + v.from(vWord, 1, 8)
	}
	if v.chance(8) {
		m.VersionMajor, m.VersionMinor = uint8(1+v.Intn(255)), uint8(v.Intn(256))
	}
	if v.chance(8) {
		m.From, m.To = v.addr(3), v.addr(3)
	}
	if v.chance(2) {
		m.Method = v.from(vToken, 1, 8)
		if v.chance(2) {
			m.Method = []string{"INVITE", "ACK", "REGISTER", "BYE"}[v.Intn(4)]
		}
		m.Request = v.uri()
		m.MaxForwards = v.count()
	} else {
		m.Status = 100 + v.Intn(900)
		m.Phrase = v.from(vAlpha+vDigit+";/?:@&=+$,-_.!~*'() \t", 1, 10)
		if v.chance(4) {
			m.Phrase += "é€"
		}
	}
	if v.chance(3) {
		m.Route = v.addr(3)
	}
	if v.chance(3) {
		m.RecordRoute = v.addr(3)
	}
	if v.chance(9) {
		m.RecordRoute = m.Route
	}
	if v.chance(2) {
		m.Contact = v.addr(2)
	}
	if v.chance(4) {
		m.PAssertedIdentity = v.addr(2)
	}
	if v.chance(4) {
		m.RemotePartyID = v.addr(2)
	}
	if v.chance(3) {
		m.Expires = v.count()
	}
	if v.chance(3) {
		m.MinExpires = v.count()
	}
	r := reflect.ValueOf(m).Elem()
	k := 2 + v.Intn(20)
	for _, n := range vStrings {
		if v.chance(k) {
			r.FieldByName(n).SetString(v.text(1))
		}
	}
	for i := v.Intn(4); i > 0 && v.chance(2); i-- {
		m.XHeader = &XHeader{v.xname(), []byte(v.text(0)), m.XHeader}
	}
	switch v.Intn(4) {
	case 0:
		m.Payload = &MiscPayload{v.from(vToken, 1, 5) + "/" + v.from(vToken, 1, 5), []byte(v.any(1, 40))}
		if m.Payload.ContentType() == sdp.ContentType {
			m.Payload = nil
		}
	case 1:
		m.Payload = &sdp.SDP{Origin: sdp.Origin{User: "-", ID: "1", Version: "2", Addr: "1.2.3.4"}, Addr: "1.2.3.4", Session: "x", Time: "0 0",
			Attrs: [][2]string{}, Other: [][2]string{},
			Audio: &sdp.Media{Proto: "RTP/AVP", Port: 999, Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}, Ptime: 20}
	}
	return m
}

// vDiff names the first field in which two messages differ.
func vDiff(a, b *Msg) string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		p, ok1 := x.Field(i).Interface().(*sdp.SDP)
		q, ok2 := y.Field(i).Interface().(*sdp.SDP)
		if ok1 && ok2 && p.String() == q.String() {
			continue
		}
		if !reflect.DeepEqual(x.Field(i).Interface(), y.Field(i).Interface()) {
			return x.Type().Field(i).Name + ": " + vShow(x.Field(i)) + " / " + vShow(y.Field(i))
		}
	}
	return ""
}

func vShow(v reflect.Value) string { return vShowDepth(v, 0) }

func vShowDepth(v reflect.Value, d int) string {
	if d > 12 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return vShowDepth(v.Elem(), d+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += vShowDepth(v.Field(i), d+1) + " "
		}
		return s + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(v.Bytes()))
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += vShowDepth(v.Index(i), d+1) + " "
		}
		return s + "]"
	case reflect.Int, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return strconv.FormatUint(v.Uint(), 10)
	}
	return "?"
}

func vQ(b []byte) string {
	s := ""
	for _, c := range b {
		if c >= 0x20 && c < 0x7f && c != '\\' {
			s += string(rune(c))
		} else {
			s += "\\x" + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15])
		}
	}
	return s
}

func (v *vT) anyCase(s string) string {
	b := []byte(s)
	m := v.Intn(3)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && (m == 0 && v.chance(2) || m == 1 || m == 2 && (i == 0 || b[i-1] == '-')) {
			b[i] = c - 32
		}
	}
	return string(b)
}

// sws is optional white space, lws is mandatory white space, both may fold the line.
func (v *vT) lws() string {
	w := v.from(vBlank, 1, 3)
	if v.chance(2) {
		w = v.from(vBlank, 0, 2) + "\r\n" + w
	}
	return w
}
func (v *vT) sws() string {
	if v.chance(2) {
		return ""
	}
	return v.lws()
}
func (v *vT) hcolon() string { return v.from(vBlank, 0, 3) + ":" + v.sws() }

const vBlank = " \t"
