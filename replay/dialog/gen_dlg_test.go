package dialog

// A scripted peer and an abstract dialog: what a dialog has to do on each message.

import (
	"context"
	"encoding/binary"
	"errors"
	"flag"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
)

type vPkt struct {
	raw, line string
	hdr       map[string][]string
	body      string
	from      *net.UDPAddr
	at        time.Time
}

func vParse(raw string, from *net.UDPAddr) *vPkt {
	p := &vPkt{raw: raw, hdr: map[string][]string{}, from: from, at: time.Now()}
	i := strings.Index(raw, "\r\n\r\n")
	head := raw
	if i >= 0 {
		head, p.body = raw[:i], raw[i+4:]
	}
	ls := strings.Split(head, "\r\n")
	p.line = ls[0]
	for _, l := range ls[1:] {
		if j := strings.Index(l, ":"); j > 0 {
			k := strings.ToLower(strings.TrimSpace(l[:j]))
			p.hdr[k] = append(p.hdr[k], strings.TrimSpace(l[j+1:]))
		}
	}
	return p
}

func (p *vPkt) h(name string) string {
	if l := p.hdr[name]; len(l) > 0 {
		return strings.Join(l, ", ")
	}
	return ""
}

func (p *vPkt) method() string { return strings.SplitN(p.line, " ", 2)[0] }
func (p *vPkt) hops() int      { n, _ := strconv.Atoi(p.h("max-forwards")); return n }
func (p *vPkt) branch() string {
	s := p.h("via")
	if i := strings.Index(s, ";branch="); i >= 0 {
		s = s[i+8:]
		if j := strings.IndexAny(s, ";, "); j >= 0 {
			s = s[:j]
		}
		return s
	}
	return ""
}

// vPeer is a UDP endpoint that records what it receives.
type vPeer struct {
	c    *net.UDPConn
	port int
	mu   sync.Mutex
	pk   []*vPkt
	flsh int
}

func vNewPeer() *vPeer {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	c.SetReadBuffer(1 << 20)
	p := &vPeer{c: c, port: c.LocalAddr().(*net.UDPAddr).Port}
	go func() {
		b := make([]byte, 65536)
		for {
			n, a, err := c.ReadFromUDP(b)
			if err != nil {
				return
			}
			p.mu.Lock()
			if string(b[:n]) == "flush" {
				p.flsh++
			} else {
				p.pk = append(p.pk, vParse(string(b[:n]), a))
			}
			p.mu.Unlock()
		}
	}()
	return p
}

func (p *vPeer) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.pk)
}

func (p *vPeer) get(i int) *vPkt {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i < len(p.pk) {
		return p.pk[i]
	}
	return nil
}

func (p *vPeer) send(to *net.UDPAddr, s string) { p.c.WriteToUDP([]byte(s), to) }

// flush waits until everything that was sent to the peer is recorded.
func (p *vPeer) flush() {
	p.mu.Lock()
	n := p.flsh
	p.mu.Unlock()
	p.c.WriteToUDP([]byte("flush"), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p.port})
	vwait(5*time.Second, func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.flsh > n
	})
}

func vwait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(500 * time.Microsecond)
		}
	}
}

// A name server for *.vtest: SRV records in the order registered, addresses 127.0.0.1.
var vDNS struct {
	sync.Mutex
	srv map[string][]int
	n   int
}

func vDNSHost(ports ...int) string {
	vDNS.Lock()
	defer vDNS.Unlock()
	if vDNS.srv == nil {
		vDNS.srv = map[string][]int{}
		c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			panic(err)
		}
		addr := c.LocalAddr().String()
		net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
			if !strings.HasPrefix(network, "udp") {
				return nil, errors.New("no TCP")
			}
			var d net.Dialer
			return d.DialContext(ctx, "udp", addr)
		}}
		go vDNSServe(c)
	}
	vDNS.n++
	h := fmt.Sprintf("h%d.vtest", vDNS.n)
	vDNS.srv["_sip._udp."+h+"."] = ports
	return h
}

func vDNSServe(c *net.UDPConn) {
	b := make([]byte, 4096)
	for {
		n, a, err := c.ReadFromUDP(b)
		if err != nil {
			return
		}
		q := b[:n]
		name, i := "", 12
		for i < n && q[i] != 0 {
			name += string(q[i+1:i+1+int(q[i])]) + "."
			i += 1 + int(q[i])
		}
		i++
		if i+4 > n {
			continue
		}
		typ := binary.BigEndian.Uint16(q[i:])
		r := bytesOf(q[:i+4])
		r[2], r[3] = 0x84|q[2]&1, 0x80
		binary.BigEndian.PutUint16(r[4:], 1)
		binary.BigEndian.PutUint16(r[6:], 0)
		binary.BigEndian.PutUint16(r[8:], 0)
		binary.BigEndian.PutUint16(r[10:], 0)
		cnt := 0
		rr := func(typ int, data []byte) {
			r = bytesJoin(r, []byte{0xc0, 12, 0, byte(typ), 0, 1, 0, 0, 0, 60, byte(len(data) >> 8), byte(len(data))}, data)
			cnt++
		}
		vDNS.Lock()
		ports, ok := vDNS.srv[strings.ToLower(name)]
		vDNS.Unlock()
		switch {
		case typ == 33 && ok:
			for j, p := range ports {
				t := fmt.Sprintf("s%d", j)
				d := []byte{0, byte(j + 1), 0, 1, byte(p >> 8), byte(p), byte(len(t))}
				d = bytesJoin(d, []byte(t), []byte("\x05vtest\x00"))
				rr(33, d)
			}
		case typ == 1 && strings.HasSuffix(name, ".vtest.") && !strings.HasPrefix(name, "_"):
			rr(1, []byte{127, 0, 0, 1})
		case typ == 28 && strings.HasSuffix(name, ".vtest."):
		default:
			r[3] |= 3
		}
		binary.BigEndian.PutUint16(r[6:], uint16(cnt))
		c.WriteToUDP(r, a)
	}
}

func bytesOf(b []byte) []byte { return append([]byte(nil), b...) }
func bytesJoin(l ...[]byte) (r []byte) {
	for _, b := range l {
		r = append(r, b...)
	}
	return
}

// vDlg is a dialog under test with all it has reported.
type vDlg struct {
	d      *Dialog
	mu     sync.Mutex
	errs   []error
	states []int
	peers  []string
	closed int
}

func vStart(inv *sip.Msg) *vDlg {
	d, err := NewDialog(inv)
	if err != nil {
		panic(vStop{"NewDialog: " + err.Error()})
	}
	x := &vDlg{d: d}
	go func() {
		for e := range d.OnErr {
			x.mu.Lock()
			x.errs = append(x.errs, e)
			x.mu.Unlock()
		}
		x.done()
	}()
	go func() {
		for s := range d.OnState {
			x.mu.Lock()
			x.states = append(x.states, s)
			x.mu.Unlock()
		}
		x.done()
	}()
	go func() {
		for a := range d.OnPeer {
			x.mu.Lock()
			x.peers = append(x.peers, a.String())
			x.mu.Unlock()
		}
		x.done()
	}()
	return x
}

func (x *vDlg) done() {
	x.mu.Lock()
	x.closed++
	x.mu.Unlock()
}

func (x *vDlg) ended() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.closed == 3
}

func (x *vDlg) counts() (int, int, int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.errs), len(x.states), len(x.peers)
}

func vFlags(interval, resends int, loose bool) {
	flag.Set("resendInterval", strconv.Itoa(interval))
	flag.Set("maxResends", strconv.Itoa(resends))
	flag.Set("looseSignalling", strconv.FormatBool(loose))
}

// vSess is a call: the dialog, its peers, and the abstract state it must be in.
type vSess struct {
	v      *vT
	x      *vDlg
	peers  []*vPeer
	seen   []int // packets of each peer already accounted for
	cur    int   // peer that the dialog talks to
	to     *net.UDPAddr
	loose  bool
	invite *vPkt
	log    []string

	// Abstract state.
	state    int
	answered bool
	ended    bool
	method   string // of the current request
	req      *vPkt  // current request as transmitted
	target   string // of the INVITE
	route    string // of the INVITE
	lseq     int
	rseq     int
	contact  string // remote contact
	rr       []string
	toHdr    string
	nerr     int
	states   []int
	media    []string
	pending  bool // an unacknowledged response
	barrier  int
}

func (s *vSess) note(format string, a ...interface{}) {
	s.log = append(s.log, fmt.Sprintf(format, a...))
	s.v.What = strings.Join(s.log, "\n    ")
}

// next waits for the next packet at a peer.
func (s *vSess) next(peer int, what string) *vPkt {
	p := s.peers[peer]
	if !vwait(10*time.Second, func() bool { return p.count() > s.seen[peer] }) {
		for _, e := range s.x.errs {
			if strings.Contains(e.Error(), "write udp") && strings.Contains(e.Error(), "refused") {
				panic(vSkip{}) // The refusal of a closed port showed at the next transmission already.
			}
		}
		s.v.fail("%s was not sent (errors %v)", what, s.x.errs)
	}
	s.seen[peer]++
	k := p.get(s.seen[peer] - 1)
	return k
}

func (s *vSess) expectReq(peer int, method string) *vPkt {
	k := s.next(peer, method)
	s.v.check(k.method() == method, "%s expected, sent %q", method, k.raw)
	s.v.check(k.h("call-id") == s.callid(), "%s has Call-ID %q", method, k.h("call-id"))
	s.v.check(strings.HasSuffix(k.line, " SIP/2.0"), "request line %q", k.line)
	return k
}

func (s *vSess) callid() string {
	if s.invite == nil {
		return ""
	}
	return s.invite.h("call-id")
}

func vtarget(k *vPkt) string {
	f := strings.Fields(k.line)
	if len(f) == 3 {
		return f[1]
	}
	return ""
}

// vDial starts a call to the first peer.
func vDial(v *vT, npeers int, loose bool, edit func(s *vSess, m *sip.Msg)) *vSess {
	s := &vSess{v: v, loose: loose}
	for i := 0; i < npeers; i++ {
		s.peers = append(s.peers, vNewPeer())
	}
	s.seen = make([]int, npeers)
	m := &sip.Msg{
		Method:  "INVITE",
		Request: &sip.URI{Scheme: "sip", User: "bob", Host: "127.0.0.1", Port: uint16(s.peers[0].port)},
	}
	if v.chance(3) {
		m.Subject = v.word()
	}
	if v.chance(3) {
		m.MaxForwards = 50
	}
	if v.chance(2) {
		m.Payload = sdp.New(&net.UDPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 4000}, sdp.ULAWCodec)
	}
	if edit != nil {
		edit(s, m)
	}
	s.x = vStart(m)
	return s
}

// up waits for the INVITE.
func (s *vSess) up() {
	k := s.next(0, "INVITE")
	s.v.check(k.method() == "INVITE", "first request is %q", k.raw)
	s.invite = k
	s.sent(k)
	s.note("INVITE sent")
}

func (s *vSess) sent(k *vPkt) {
	s.invite, s.req, s.method = k, k, "INVITE"
	s.cur = 0
	for i, p := range s.peers {
		for j := 0; j < p.count(); j++ {
			if p.get(j) == k {
				s.cur = i
			}
		}
	}
	s.target, s.route = vtarget(k), k.h("route")
	s.lseq, _ = strconv.Atoi(strings.Fields(k.h("cseq"))[0])
	s.rseq, s.answered = 0, false
	s.to = k.from
	if s.loose {
		c := k.h("contact")
		i := strings.Index(c, "@")
		if i < 0 {
			i = strings.Index(c, "sip:")
		}
		c = c[i:]
		port := 5060
		if j := strings.Index(c, ":"); j >= 0 {
			c = c[strings.LastIndex(strings.SplitN(c, ";", 2)[0], ":")+1:]
			port, _ = strconv.Atoi(strings.FieldsFunc(c, func(r rune) bool { return r < '0' || r > '9' })[0])
		}
		s.to = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	}
}

// sync makes sure that everything sent to the dialog so far has been handled, and compares what it did.
func (s *vSess) sync() {
	if s.ended {
		if !vwait(10*time.Second, s.x.ended) {
			s.v.fail("the dialog has not ended")
		}
	} else {
		s.barrier++
		id := fmt.Sprintf("barrier-%d", s.barrier)
		s.peers[s.cur].send(s.to, fmt.Sprintf("OPTIONS sip:x@127.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 127.0.0.1:%d;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:f@h>;tag=1\r\nTo: <sip:t@h>\r\nCall-ID: %s\r\nCSeq: 1 OPTIONS\r\nContent-Length: 0\r\n\r\n", s.peers[s.cur].port, id))
		k := s.next(s.cur, "an answer to a request of another call, or an earlier message that nothing asked for,")
		s.v.check(k.h("call-id") == id, "sent without cause: %q", k.raw)
		s.v.check(strings.HasPrefix(k.line, "SIP/2.0 481 "), "a request of another call is answered %q", k.line)
	}
	s.events()
	if s.ended {
		for i, p := range s.peers {
			p.flush()
			if p.count() > s.seen[i] {
				s.v.fail("sent without cause: %q", p.get(s.seen[i]).raw)
			}
		}
	}
}

func (s *vSess) events() {
	vwait(5*time.Second, func() bool {
		e, st, p := s.x.counts()
		return e >= s.nerr && st >= len(s.states) && p >= len(s.media)
	})
	s.x.mu.Lock()
	defer s.x.mu.Unlock()
	s.v.check(len(s.x.errs) == s.nerr, "errors reported: %v, want %d", s.x.errs, s.nerr)
	s.v.check(fmt.Sprint(s.x.states) == fmt.Sprint(s.states), "states reported: %v, want %v", s.x.states, s.states)
	s.v.check(strings.Join(s.x.peers, " ") == strings.Join(s.media, " "), "media addresses reported: %v, want %v", s.x.peers, s.media)
	s.v.check((s.x.closed == 3) == s.ended, "dialog ended: %v, want %v", s.x.closed == 3, s.ended)
}

// finish ends whatever is left.
func (s *vSess) finish() {
	if !s.x.ended() && s.to != nil && s.invite != nil {
		s.peers[s.cur].send(s.to, fmt.Sprintf("BYE sip:x@127.0.0.1 SIP/2.0\r\nVia: SIP/2.0/UDP 127.0.0.1:1;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:f@h>;tag=1\r\nTo: <sip:t@h>\r\nCall-ID: %s\r\nCSeq: 999999 BYE\r\nContent-Length: 0\r\n\r\n", s.callid()))
		vwait(2*time.Second, s.x.ended)
	}
	for _, p := range s.peers {
		p.c.Close()
	}
}

func (s *vSess) move(st int) {
	s.state = st
	s.states = append(s.states, st)
}

func (s *vSess) fails() {
	s.nerr++
	s.ended = true
}

const (
	vNoSDP = iota
	vAudio
	vVideo
	vAudioVideo
	vOther
	vBadSDP
)

var vMedia = 0

func (s *vSess) body(kind int) (ctype, body, addr string) {
	vMedia++
	ip, port := fmt.Sprintf("10.7.%d.%d", vMedia/200%200+1, vMedia%200+1), 2000+2*(vMedia%20000)
	switch kind {
	case vAudio, vVideo, vAudioVideo:
		body = fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 %s\r\ns=x\r\nc=IN IP4 %s\r\nt=0 0\r\n", ip, ip)
		if kind != vVideo {
			body += fmt.Sprintf("m=audio %d RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\n", port)
			addr = fmt.Sprintf("%s:%d", ip, port)
		}
		if kind != vAudio {
			body += fmt.Sprintf("m=video %d RTP/AVP 31\r\na=rtpmap:31 H261/90000\r\n", port+2)
		}
		ctype = "application/sdp"
	case vOther:
		ctype, body = "text/plain", "hello"
	}
	return
}

// vResp is a response to the current request.
type vResp struct {
	status   int
	phrase   string
	contact  string
	rr       []string // as in the message, topmost first
	toTag    string
	media    int
	wrong    int // 0: matches the transaction
	extraVia bool
}

// respond sends a response and says what must follow.
func (s *vSess) respond(r vResp) {
	v, q := s.v, s.req
	via := q.h("via")
	cseq := q.h("cseq")
	f := strings.Fields(cseq)
	callid := s.callid()
	switch r.wrong {
	case 1:
		n, _ := strconv.Atoi(f[0])
		cseq = fmt.Sprintf("%d %s", n+1, f[1])
	case 2:
		cseq = f[0] + " " + map[string]string{"INVITE": "BYE", "BYE": "INVITE"}[f[1]]
	case 3:
		via = strings.Replace(via, q.branch(), q.branch()+"x", 1)
	case 4:
		via = strings.Replace(via, "127.0.0.1", "127.0.0.2", 1)
	case 5:
		i := strings.Index(via, ";branch=")
		via = via[:i]
	case 6:
		via = via + "\r\nVia: SIP/2.0/UDP 10.0.0.99:5060;branch=" + q.branch()
	}
	if r.extraVia {
		via = "SIP/2.0/UDP 10.0.0.9:5099;branch=z9hG4bKother\r\nVia: " + via
	}
	to := q.h("to")
	if r.toTag != "" && !strings.Contains(to, ";tag=") {
		to += ";tag=" + r.toTag
	}
	b := fmt.Sprintf("SIP/2.0 %d %s\r\nVia: %s\r\nFrom: %s\r\nTo: %s\r\nCall-ID: %s\r\nCSeq: %s\r\n", r.status, r.phrase, via, q.h("from"), to, callid, cseq)
	for _, l := range r.rr {
		b += "Record-Route: " + l + "\r\n"
	}
	if r.contact != "" {
		b += "Contact: <" + r.contact + ">\r\n"
	}
	ctype, body, media := s.body(r.media)
	if ctype != "" {
		b += "Content-Type: " + ctype + "\r\n"
	}
	b += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	s.note("response %d to %s wrong=%d contact=%q rr=%q media=%d extraVia=%v in state %d answered=%v", r.status, s.method, r.wrong, r.contact, r.rr, r.media, r.extraVia, s.state, s.answered)
	s.peers[s.cur].send(s.to, b)
	if r.wrong != 0 {
		s.sync()
		return
	}
	if r.status >= 200 && s.method == "INVITE" {
		if r.contact == "" && r.status < 300 {
			s.fails()
			s.sync()
			return
		}
		k := s.expectReq(s.cur, "ACK")
		want := r.contact
		if want == "" {
			want = s.target
		}
		v.check(vtarget(k) == want, "the acknowledgement goes to %q, want %q", k.line, want)
		v.check(k.h("cseq") == f[0]+" ACK", "the acknowledgement has CSeq %q", k.h("cseq"))
		v.check(vsameAddr(k.h("from"), q.h("from")) && vsameAddr(k.h("to"), to), "the acknowledgement has From %q To %q", k.h("from"), k.h("to"))
		v.check(len(k.hdr["via"]) == 1 && !strings.Contains(k.h("via"), ",") && strings.Contains(k.h("via"), strings.Fields(strings.SplitN(via, ";", 2)[0])[1]), "the acknowledgement has Via %q", k.hdr["via"])
		s.checkRoute(k, r.rr)
	}
	if media != "" && r.status <= 200 {
		s.media = append(s.media, media)
	}
	switch {
	case r.status == 100:
		if s.state <= Proceeding {
			s.move(Proceeding)
		}
	case r.status == 180 || r.status == 183:
		if s.state <= Ringing {
			s.move(Ringing)
		}
	case r.status == 200 && s.method == "INVITE":
		if !s.answered {
			s.move(Answered)
		}
		s.answered = true
		s.contact, s.rr, s.toHdr = r.contact, r.rr, to
	case r.status == 200 && (s.method == "BYE" || s.method == "CANCEL"):
		s.move(Hangup)
		s.ended = true
	case r.status == 503 && s.method == "INVITE":
		s.fails() // No address left.
	case (r.status == 301 || r.status == 302) && s.method == "INVITE" && r.contact != "":
		old := s.req
		for i, p := range s.peers {
			if strings.Contains(r.contact, fmt.Sprintf(":%d", p.port)) {
				s.cur = i
			}
		}
		k := s.expectReq(s.cur, "INVITE")
		v.check(vtarget(k) == r.contact, "redirected INVITE goes to %q, want %q", k.line, r.contact)
		v.check(k.h("route") == "", "redirected INVITE has route %q", k.h("route"))
		v.check(k.branch() != "" && k.branch() != old.branch(), "redirected INVITE has the branch %q of the old one", k.branch())
		v.check(k.body == old.body && k.h("from") == old.h("from"), "redirected INVITE is %q", k.raw)
		cur := s.cur
		s.sent(k)
		s.cur = cur
	case r.status > 200 && !(r.status < 300):
		s.fails()
	case r.status > 200:
		s.fails()
	}
	s.sync()
}

func (s *vSess) checkRoute(k *vPkt, rr []string) {
	want := make([]string, len(rr))
	for i, r := range rr {
		want[len(rr)-1-i] = strings.Trim(r, "<> ")
	}
	var got []string
	for _, l := range k.hdr["route"] {
		for _, e := range strings.Split(l, ",") {
			got = append(got, strings.Trim(e, "<> "))
		}
	}
	s.v.check(fmt.Sprint(got) == fmt.Sprint(want), "%s has route %v, want %v", k.method(), got, want)
}

// vsameAddr compares addresses up to the order of parameters.
func vsameAddr(a, b string) bool {
	n := func(s string) string {
		i := strings.Index(s, ">")
		if i < 0 {
			return s
		}
		l := strings.Split(s[i+1:], ";")
		sort.Strings(l)
		return s[:i] + strings.Join(l, ";")
	}
	return n(a) == n(b)
}

// hangup asks the dialog to end and says what must follow.
func (s *vSess) hangup() {
	v := s.v
	s.note("hangup in state %d answered=%v", s.state, s.answered)
	s.x.d.Hangup <- true
	switch {
	case s.state < Answered:
		k := s.expectReq(s.cur, "CANCEL")
		v.check(vtarget(k) == s.target && k.h("route") == s.route && k.h("from") == s.invite.h("from") && vsameAddr(k.h("to"), s.invite.h("to")), "cancellation is %q", k.raw)
		v.check(k.h("cseq") == fmt.Sprintf("%d CANCEL", s.lseq), "cancellation has CSeq %q", k.h("cseq"))
		v.check(k.branch() == s.invite.branch() && strings.HasPrefix(k.h("via"), strings.SplitN(s.invite.h("via"), ";", 2)[0]), "cancellation has Via %q", k.h("via"))
	default:
		dest := s.contact
		if n := len(s.rr); n > 0 {
			dest = s.rr[n-1]
		}
		for i, p := range s.peers {
			if strings.Contains(dest, fmt.Sprintf(":%d", p.port)) {
				s.cur = i
			}
		}
		k := s.expectReq(s.cur, "BYE")
		s.lseq++
		v.check(k.h("cseq") == fmt.Sprintf("%d BYE", s.lseq), "hang-up has CSeq %q, want %d", k.h("cseq"), s.lseq)
		v.check(vtarget(k) == s.contact, "hang-up goes to %q, want %q", k.line, s.contact)
		v.check(vsameAddr(k.h("from"), s.invite.h("from")) && vsameAddr(k.h("to"), s.toHdr), "hang-up has From %q To %q, want %q %q", k.h("from"), k.h("to"), s.invite.h("from"), s.toHdr)
		s.checkRoute(k, s.rr)
		v.check(k.branch() != "" && k.branch() != s.invite.branch(), "hang-up has branch %q", k.branch())
		s.req, s.method = k, "BYE"
		if !s.loose {
			s.to = k.from
		}
	}
	s.sync()
}

// vReq is a request of the other side.
type vReq struct {
	method  string
	cseq    int
	hops    int // -1: none given
	version string
	foreign bool
	contact string
	media   int
	resp    bool // a response instead (only with a strange version or a foreign call)
}

func (s *vSess) request(r vReq) {
	v := s.v
	callid := s.callid()
	if r.foreign {
		callid = "foreign-" + callid[:1+v.Intn(8)]
		if v.chance(3) {
			callid = s.callid() + "x"
		}
	}
	via := fmt.Sprintf("SIP/2.0/UDP 127.0.0.1:%d;branch=z9hG4bK%s", s.peers[s.cur].port, v.word())
	b := fmt.Sprintf("%s sip:alice@127.0.0.1 SIP/%s\r\n", r.method, r.version)
	if r.resp {
		b = fmt.Sprintf("SIP/%s 200 OK\r\n", r.version)
	}
	from, to := "<sip:bob@127.0.0.1>;tag=rem", "<sip:alice@127.0.0.1>;tag=loc"
	b += fmt.Sprintf("Via: %s\r\nFrom: %s\r\nTo: %s\r\nCall-ID: %s\r\nCSeq: %d %s\r\n", via, from, to, callid, r.cseq, r.method)
	rr := ""
	if v.chance(3) {
		rr = "<sip:10.0.0.8;lr>"
		b += "Record-Route: " + rr + "\r\n"
	}
	if r.hops >= 0 {
		b += fmt.Sprintf("Max-Forwards: %d\r\n", r.hops)
	}
	if r.contact != "" {
		b += "Contact: <" + r.contact + ">\r\n"
	}
	ctype, body, media := s.body(r.media)
	if ctype != "" {
		b += "Content-Type: " + ctype + "\r\n"
	}
	b += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)
	s.note("request %s cseq=%d hops=%d version=%s foreign=%v contact=%q media=%d resp=%v in state %d newest=%d", r.method, r.cseq, r.hops, r.version, r.foreign, r.contact, r.media, r.resp, s.state, s.rseq)
	s.peers[s.cur].send(s.to, b)
	status, end, err := 0, false, false
	switch {
	case r.version != "2.0":
		status, end, err = 505, true, true
	case r.foreign:
		status = 481
	case r.hops <= 0:
		status, end, err = 483, true, true
	case r.cseq < s.rseq:
		status = 500
	default:
		s.rseq = r.cseq
		switch r.method {
		case "BYE":
			status, end = 200, true
			s.move(Hangup)
		case "OPTIONS":
			status = 200
		case "INVITE":
			status = 200
			s.pending = true
			if s.answered && r.contact != "" {
				s.contact = r.contact
			}
			if media != "" {
				s.media = append(s.media, media)
			}
		case "ACK":
			s.pending = false
		default:
			status = 405
		}
	}
	if status != 0 {
		k := s.next(s.cur, fmt.Sprintf("response %d", status))
		v.check(strings.HasPrefix(k.line, fmt.Sprintf("SIP/2.0 %d ", status)) || strings.HasPrefix(k.line, "SIP/") && strings.Contains(k.line, fmt.Sprintf(" %d ", status)), "answered %q, want %d", k.line, status)
		v.check(k.h("call-id") == callid && k.h("cseq") == fmt.Sprintf("%d %s", r.cseq, r.method) && vsameAddr(k.h("from"), from) && vsameAddr(k.h("to"), to), "the response belongs to another request: %q", k.raw)
		v.check(strings.HasPrefix(k.h("via"), via) && len(k.hdr["via"]) == 1 && strings.Trim(k.h("record-route"), " ") == rr, "the response has Via %q Record-Route %q", k.h("via"), k.h("record-route"))
	}
	if err {
		s.nerr++
	}
	s.ended = end
	s.sync()
}

// vRecv is a transport under test with a socket to send to it from.
type vRecv struct {
	tp   *Transport
	c    *net.UDPConn
	to   *net.UDPAddr
	port int
}

func vNewRecv() *vRecv {
	tp, err := NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "127.0.0.1"}})
	if err != nil {
		panic(err)
	}
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return &vRecv{tp, c, tp.Sock.LocalAddr().(*net.UDPAddr), c.LocalAddr().(*net.UDPAddr).Port}
}

func (r *vRecv) send(b []byte) { r.c.WriteToUDP(b, r.to) }

// get returns the next message; nil if there is none (a marker comes first).
func (r *vRecv) get(v *vT) *sip.Msg {
	id := "marker-" + v.word()
	r.send([]byte("OPTIONS sip:m SIP/2.0\r\nVia: SIP/2.0/UDP m\r\nCall-ID: " + id + "\r\n\r\n"))
	var m *sip.Msg
	for {
		select {
		case k, ok := <-r.tp.C:
			if !ok {
				v.fail("the receiver has ended")
			}
			if k.CallID == id {
				return m
			}
			if m != nil {
				v.fail("two messages for one packet: %s", k)
			}
			m = k
		case e := <-r.tp.E:
			v.fail("the receiver ends with %v", e)
		case <-time.After(10 * time.Second):
			v.fail("the receiver delivers nothing any more")
		}
	}
}

func (r *vRecv) close() {
	r.tp.Sock.Close()
	r.c.Close()
	for range r.tp.E {
	}
}

func vor(p uint16) uint16 {
	if p == 0 {
		return 5060
	}
	return p
}
