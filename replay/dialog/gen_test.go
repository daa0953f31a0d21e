package dialog

import (
	"fmt"
	"io"
	"log"
	"reflect"

	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/util"
)

func init() { log.SetOutput(io.Discard) }

var _ = util.GenerateTag

var vHosts = []string{"10.0.0.1", "10.0.0.2", "example.com", "a.example", "::1", "2001:db8::7", "127.0.0.1", ""}
var vPorts = []uint16{0, 5060, 5061, 1, 65535, 40000}

func (v *vT) host() string { return vHosts[v.Intn(len(vHosts))] }
func (v *vT) port() uint16 { return vPorts[v.Intn(len(vPorts))] }

func (v *vT) word() string {
	b := make([]byte, 1+v.Intn(6))
	for i := range b {
		b[i] = "abcdefXYZ0189-"[v.Intn(14)]
	}
	return string(b)
}

func (v *vT) oneof(s ...string) string { return s[v.Intn(len(s))] }

func (v *vT) vparams(names ...string) (p *sip.Param) {
	for i := v.Intn(5); i > 0; i-- {
		val := ""
		if !v.chance(4) {
			val = v.word()
		}
		p = &sip.Param{Name: v.oneof(names...), Value: val, Next: p}
	}
	return
}

func (v *vT) vuri() *sip.URI {
	u := &sip.URI{Scheme: "sip", User: v.word(), Host: v.host(), Port: v.port()}
	for i := v.Intn(4); i > 0; i-- {
		u.Param = &sip.URIParam{Name: v.oneof("lr", "LR", "transport", "lrx", "user"), Value: v.oneof("", "udp", "on"), Next: u.Param}
	}
	if v.chance(4) {
		u.Header = &sip.URIHeader{Name: v.word(), Value: v.word()}
	}
	return u
}

func (v *vT) vaddr1() *sip.Addr {
	a := &sip.Addr{Uri: v.vuri(), Param: v.vparams("tag", "Tag", "tagg", "q", "expires")}
	if v.chance(2) {
		a.Display = v.word()
	}
	return a
}

func (v *vT) vaddrs(max int) (a *sip.Addr) {
	for i := v.Intn(max + 1); i > 0; i-- {
		b := v.vaddr1()
		b.Next = a
		a = b
	}
	return
}

func (v *vT) vvia1() *sip.Via {
	return &sip.Via{Protocol: v.oneof("", "SIP"), Version: v.oneof("", "2.0"), Transport: v.oneof("", "UDP", "TCP"),
		Host: v.host(), Port: v.port(), Param: v.vparams("branch", "Branch", "received", "rport", "branchx", "ttl")}
}

func (v *vT) vvias(min, max int) (a *sip.Via) {
	for i := min + v.Intn(max-min+1); i > 0; i-- {
		b := v.vvia1()
		b.Next = a
		a = b
	}
	return
}

var vMethods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "INFO", ""}

// vmsg makes a message with everything in it, a request or a response.
func (v *vT) vmsg(response bool) *sip.Msg {
	m := &sip.Msg{VersionMajor: 2, CallID: v.word(), CSeq: v.Intn(4), CSeqMethod: v.oneof(vMethods...), MaxForwards: v.Intn(3) * 35,
		UserAgent: v.oneof("", v.word()), Allow: v.oneof("", v.word()), Authorization: v.oneof("", v.word()),
		ProxyAuthorization: v.oneof("", v.word()), Subject: v.word(), Via: v.vvias(1, 4), Route: v.vaddrs(3), RecordRoute: v.vaddrs(4),
		From: v.vaddr1(), To: v.vaddr1(), Contact: v.vaddrs(2), Require: v.word()}
	if v.chance(2) {
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(v.word())}
	}
	if v.chance(3) {
		m.XHeader = &sip.XHeader{Name: "X-Foo", Value: []byte(v.word())}
	}
	if response {
		m.Status = []int{1, 100, 180, 183, 200, 202, 302, 404, 503, 604}[v.Intn(10)]
		m.Phrase = v.word()
	} else {
		m.Method = v.oneof(vMethods...)
		m.Request = v.vuri()
		if v.chance(2) {
			m.CSeqMethod = m.Method
		}
	}
	return m
}

// Reference copies.
func vcParam(p *sip.Param) *sip.Param {
	if p == nil {
		return nil
	}
	return &sip.Param{Name: p.Name, Value: p.Value, Next: vcParam(p.Next)}
}
func vcUP(p *sip.URIParam) *sip.URIParam {
	if p == nil {
		return nil
	}
	return &sip.URIParam{Name: p.Name, Value: p.Value, Next: vcUP(p.Next)}
}
func vcUH(p *sip.URIHeader) *sip.URIHeader {
	if p == nil {
		return nil
	}
	return &sip.URIHeader{Name: p.Name, Value: p.Value, Next: vcUH(p.Next)}
}
func vcURI(u *sip.URI) *sip.URI {
	if u == nil {
		return nil
	}
	w := *u
	w.Param, w.Header = vcUP(u.Param), vcUH(u.Header)
	return &w
}
func vcAddr(a *sip.Addr) *sip.Addr {
	if a == nil {
		return nil
	}
	return &sip.Addr{Uri: vcURI(a.Uri), Display: a.Display, Param: vcParam(a.Param), Next: vcAddr(a.Next)}
}
func vcVia(a *sip.Via) *sip.Via {
	if a == nil {
		return nil
	}
	w := *a
	w.Param, w.Next = vcParam(a.Param), vcVia(a.Next)
	return &w
}
func vcMsg(m *sip.Msg) *sip.Msg {
	if m == nil {
		return nil
	}
	w := *m
	w.Request, w.Via = vcURI(m.Request), vcVia(m.Via)
	w.From, w.To, w.Route, w.RecordRoute, w.Contact = vcAddr(m.From), vcAddr(m.To), vcAddr(m.Route), vcAddr(m.RecordRoute), vcAddr(m.Contact)
	w.PAssertedIdentity, w.RemotePartyID = vcAddr(m.PAssertedIdentity), vcAddr(m.RemotePartyID)
	return &w
}

func vaddrList(a *sip.Addr) (l []*sip.Addr) {
	for ; a != nil; a = a.Next {
		l = append(l, a)
	}
	return
}

func vstr(m *sip.Msg) string {
	if m == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%+v\n%s", *m, m.String())
}

func veq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// veqReversed: the addresses of got are those of orig in opposite order.
func veqReversed(orig, got *sip.Addr) bool {
	a, b := vaddrList(orig), vaddrList(got)
	if len(a) != len(b) {
		return false
	}
	for i, x := range a {
		y := b[len(b)-1-i]
		if x.Display != y.Display || !veq(x.Uri, y.Uri) || !veq(x.Param, y.Param) {
			return false
		}
	}
	return true
}

func vvia1eq(a, b *sip.Via) bool {
	return a.Protocol == b.Protocol && a.Version == b.Version && a.Transport == b.Transport && a.Host == b.Host && a.Port == b.Port && veq(a.Param, b.Param)
}

func vget(p *sip.Param, name string) *sip.Param {
	for ; p != nil; p = p.Next {
		if len(p.Name) == len(name) {
			ok := true
			for i := range name {
				c, d := p.Name[i], name[i]
				if c >= 'A' && c <= 'Z' {
					c += 32
				}
				ok = ok && c == d
			}
			if ok {
				return p
			}
		}
	}
	return nil
}

func vgetU(p *sip.URIParam, name string) *sip.URIParam {
	var q *sip.Param
	for r := p; r != nil; r = r.Next {
		q = &sip.Param{Name: r.Name}
		if vget(q, name) != nil {
			return r
		}
	}
	return nil
}

// vbranch: the RFC 3261 magic cookie followed by 12 hex digits.
func vbranch(s string) bool { return len(s) == 20 && s[:8] == "z9hG4bK-" && vtag(s[8:]) }
func vtag(s string) bool {
	if len(s) != 12 {
		return false
	}
	for i := range s {
		if !(s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'f') {
			return false
		}
	}
	return true
}
func vcallid(s string) bool { return len(s) == 36 }

func vstrNoVia(m *sip.Msg) string {
	s := m.Method + " " + m.CSeqMethod + " via"
	for p := m.Via; p != nil; p = p.Next {
		s += " " + p.Host + ":" + string(rune('0'+p.Port%10))
		for q := p.Param; q != nil; q = q.Next {
			s += ";" + q.Name + "=" + q.Value
		}
	}
	return s
}

func vuristr(m *sip.Msg) string {
	if m.Request == nil {
		return "none"
	}
	return m.Request.String()
}

func vstrSafe(m *sip.Msg) string {
	s := m.Method + " " + vuristr(m) + " from " + m.From.String() + " to " + m.To.String() + " contact " + m.Contact.String() + " id " + m.CallID + " " + vstrNoVia(m)
	return s
}
