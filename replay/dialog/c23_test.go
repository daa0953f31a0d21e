package dialog

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jart/gosip/sip"
)

const vTick = 40 // ms between resends

// TestVerifC23 runs many calls at a time, because they have to wait for timers.
func TestVerifC23(t *testing.T) {
	vrun(t, 4, func(v *vT) {
		// Without timers: hanging up.
		vFlags(600000, 2, false)
		for i := 0; i < 10; i++ {
			v.hangups()
		}
		resends := v.Intn(4)
		vFlags(vTick, resends, false)
		var wg sync.WaitGroup
		var mu sync.Mutex
		msg, what, stack := "", "", ""
		for i := 0; i < 32; i++ {
			w := &vT{Rand: rand.New(rand.NewSource(v.Int63()))}
			kind := i % 8
			wg.Add(1)
			go func() {
				defer wg.Done()
				m, s := vcase(w, func(w *vT) { w.timed(kind, resends) })
				if m != "" {
					mu.Lock()
					msg, what, stack = m, w.What, s
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if msg != "" {
			v.What = fmt.Sprintf("maxResends=%d %s", resends, what)
			v.fail("%s %s", msg, stack)
		}
	})
}

func (v *vT) hangups() {
	s := vDial(v, 2, false, nil)
	defer s.finish()
	s.up()
	for n := v.Intn(5) + 1; n > 0 && !s.ended; n-- {
		switch v.Intn(4) {
		case 0:
			s.hangup()
		case 1:
			s.respond(vResp{status: []int{100, 180, 183}[v.Intn(3)], phrase: "OK", toTag: "r"})
		default:
			r := vResp{status: 200, phrase: "OK", toTag: "r", contact: fmt.Sprintf("sip:bob@127.0.0.1:%d", s.peers[v.Intn(2)].port)}
			if s.method == "BYE" {
				r.contact = ""
			}
			for i := v.Intn(3); i > 0 && s.method == "INVITE"; i-- {
				r.rr = append(r.rr, fmt.Sprintf("<sip:127.0.0.1:%d;lr>", s.peers[v.Intn(2)].port))
			}
			s.respond(r)
		}
	}
}

// copies waits until n copies of one request arrived, checks that they are copies, and returns the first.
func (s *vSess) copies(peer, n int, method string, hops *int) *vPkt {
	var first *vPkt
	for i := 0; i < n; i++ {
		k := s.next(peer, fmt.Sprintf("transmission %d of %s to address %d", i+1, method, peer))
		s.v.check(strings.HasPrefix(k.line, method+" "), "transmission %d to address %d is %q", i+1, peer, k.line)
		if first == nil {
			first = k
		}
		s.v.check(k.branch() == first.branch() && k.branch() != "", "re-sent with branch %q after %q", k.branch(), first.branch())
		s.v.check(k.h("call-id") == first.h("call-id") && k.h("cseq") == first.h("cseq"), "re-sent as another request: %q", k.raw)
		if hops != nil {
			*hops--
			s.v.check(k.hops() == *hops, "transmitted with %d hops left, want %d", k.hops(), *hops)
		}
	}
	return first
}

func (s *vSess) quiet(ticks int) {
	for _, p := range s.peers {
		p.flush()
	}
	var n []int
	for _, p := range s.peers {
		n = append(n, p.count())
	}
	time.Sleep(time.Duration(ticks*vTick) * time.Millisecond)
	for i, p := range s.peers {
		p.flush()
		if p.count() > n[i] {
			s.v.fail("still sent: %q", p.get(p.count()-1).raw)
		}
	}
}

func (s *vSess) atEnd(errs int) {
	if !vwait(10*time.Second, s.x.ended) {
		s.v.fail("the dialog has not ended")
	}
	e, _, _ := s.x.counts()
	s.v.check(e == errs, "errors reported: %v, want %d", s.x.errs, errs)
	for i, p := range s.peers {
		p.flush()
		if p.count() > s.seen[i] {
			s.v.fail("sent without cause to address %d: %q", i, p.get(s.seen[i]).raw)
		}
	}
}

func (v *vT) timed(kind, resends int) {
	switch kind {
	case 0, 1: // Nobody answers, at 1 to 3 addresses; some are closed ports.
		n := 1 + v.Intn(3)
		hops := 70
		closed := -1
		s := vDial(v, n, false, func(s *vSess, m *sip.Msg) {
			m.MaxForwards = 0
			if v.chance(2) {
				m.MaxForwards = 30
				hops = 30
			}
			ports := []int{}
			for _, p := range s.peers {
				ports = append(ports, p.port)
			}
			if v.chance(3) {
				c, _ := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
				closed = v.Intn(n + 1)
				ports = append(ports[:closed:closed], append([]int{c.LocalAddr().(*net.UDPAddr).Port}, ports[closed:]...)...)
				c.Close()
			}
			if len(ports) > 1 || v.chance(2) {
				m.Request.Host, m.Request.Port = vDNSHost(ports...), 0
			}
		})
		defer s.finish()
		s.note("%d addresses (closed port before %d), maxResends %d", n, closed, resends)
		branch := map[string]bool{}
		for i := 0; i < n; i++ {
			h := &hops
			if closed >= 0 && i >= closed {
				h = nil // How often the closed port was tried is not known.
			}
			k := s.copies(i, 1+resends, "INVITE", h)
			s.invite = k
			v.check(!branch[k.branch()], "branch %q is used for two addresses", k.branch())
			branch[k.branch()] = true
		}
		s.atEnd(1)
	case 2: // Answered after some transmissions, by a provisional or final response.
		s := vDial(v, 1, false, nil)
		defer s.finish()
		hops := 0
		k := s.copies(0, 1, "INVITE", nil)
		hops = k.hops()
		if resends > 0 {
			j := v.Intn(resends)
			s.copies(0, j, "INVITE", &hops)
		}
		s.invite, s.req, s.method, s.to = k, k, "INVITE", k.from
		b := fmt.Sprintf("SIP/2.0 100 Trying\r\nVia: %s\r\nFrom: %s\r\nTo: %s\r\nCall-ID: %s\r\nCSeq: %s\r\nContent-Length: 0\r\n\r\n", k.h("via"), k.h("from"), k.h("to"), k.h("call-id"), k.h("cseq"))
		s.note("answered after %d transmissions", s.seen[0])
		s.peers[0].send(s.to, b)
		if !vwait(10*time.Second, func() bool { _, st, e := s.x.counts(); e, _, _ = s.x.counts(); return st > 0 || e > 0 }) {
			v.fail("trying response had no effect")
		}
		e, st, _ := s.x.counts()
		if st == 0 && e > 0 {
			return // The answer was too late.
		}
		s.quiet(resends + 4)
		v.check(s.peers[0].count() <= 1+resends, "%d transmissions", s.peers[0].count())
		s.seen[0] = s.peers[0].count()
	case 3, 4: // Re-INVITE answered; acknowledged or not.
		s := s0(v)
		defer s.finish()
		ack := kind == 4
		via := "SIP/2.0/UDP 127.0.0.1:5060;branch=z9hG4bKreinv"
		req := func(method string) string {
			return fmt.Sprintf("%s sip:alice@127.0.0.1 SIP/2.0\r\nVia: %s\r\nMax-Forwards: 70\r\nFrom: <sip:bob@127.0.0.1>;tag=r\r\nTo: <sip:a@127.0.0.1>;tag=l\r\nCall-ID: %s\r\nCSeq: 7 %s\r\nContact: <sip:bob@127.0.0.1:%d>\r\nContent-Length: 0\r\n\r\n", method, via, s.callid(), method, s.peers[0].port)
		}
		s.note("re-INVITE, acknowledged: %v, maxResends %d", ack, resends)
		s.peers[0].send(s.to, req("INVITE"))
		if ack {
			s.copies(0, 1, "SIP/2.0 200", nil)
			if resends > 0 {
				s.copies(0, v.Intn(resends), "SIP/2.0 200", nil)
			}
			s.peers[0].send(s.to, req("ACK"))
			s.peers[0].send(s.to, strings.Replace(strings.Replace(req("OPTIONS"), "Call-ID: ", "Call-ID: another", 1), "Contact", "X-Contact", 1))
			vwait(10*time.Second, func() bool {
				for j := s.seen[0]; j < s.peers[0].count(); j++ {
					if strings.HasPrefix(s.peers[0].get(j).h("call-id"), "another") {
						return true
					}
				}
				e, _, _ := s.x.counts()
				return e > 0
			})
			if e, _, _ := s.x.counts(); e > 0 {
				return // The acknowledgement was too late.
			}
			s.quiet(resends + 4)
			if e, _, _ := s.x.counts(); e > 0 {
				v.fail("acknowledged response ends the dialog: %v", s.x.errs)
			}
			v.check(s.peers[0].count() <= s.seen[0]+resends+2, "response sent too often")
		} else {
			s.copies(0, 1+resends, "SIP/2.0 200", nil)
			s.atEnd(1)
		}
	case 5: // Hop count.
		h := 1 + v.Intn(4)
		s := vDial(v, 1, false, func(s *vSess, m *sip.Msg) { m.MaxForwards = h })
		defer s.finish()
		s.note("hop count %d maxResends %d", h, resends)
		n := h - 1
		if n > 1+resends {
			n = 1 + resends
		}
		hops := h
		k := s.copies(0, n, "INVITE", &hops)
		_ = k
		s.atEnd(1)
	case 6: // The first server is unavailable.
		n := 2 + v.Intn(2)
		s := vDial(v, n, false, func(s *vSess, m *sip.Msg) {
			var ports []int
			for _, p := range s.peers {
				ports = append(ports, p.port)
			}
			m.Request.Host, m.Request.Port = vDNSHost(ports...), 0
			m.Route = nil
		})
		defer s.finish()
		s.note("503 from the first of %d addresses, maxResends %d", n, resends)
		k := s.copies(0, 1, "INVITE", nil)
		s.invite = k
		b := fmt.Sprintf("SIP/2.0 503 No\r\nVia: %s\r\nFrom: %s\r\nTo: %s;tag=9\r\nCall-ID: %s\r\nCSeq: %s\r\nContent-Length: 0\r\n\r\n", k.h("via"), k.h("from"), k.h("to"), k.h("call-id"), k.h("cseq"))
		s.peers[0].send(k.from, b)
		for i := 1; i < n; i++ {
			q := s.copies(i, 1+resends, "INVITE", nil)
			v.check(q.branch() != k.branch(), "the next server gets the branch of the first")
			k = q
		}
		if !vwait(10*time.Second, s.x.ended) {
			v.fail("the dialog has not ended")
		}
		ack := 0
		for i, p := range s.peers {
			p.flush()
			for j := 0; j < p.count(); j++ {
				q := p.get(j)
				if q.method() == "ACK" {
					ack++
				} else if i > 0 && j >= 1+resends {
					v.fail("more transmissions: %q", q.raw)
				}
			}
		}
		v.check(ack <= 1, "%d acknowledgements", ack)
		e, _, _ := s.x.counts()
		v.check(e == 1, "errors %v", s.x.errs)
	case 7: // An unanswered hang-up.
		s := s0(v)
		defer s.finish()
		s.note("unanswered hang-up, maxResends %d", resends)
		s.x.d.Hangup <- true
		hops := 70
		s.copies(0, 1+resends, "BYE", &hops)
		s.atEnd(1)
	}
}

// s0 is an answered call.
func s0(v *vT) *vSess {
	s := vDial(v, 1, false, nil)
	k := s.copies(0, 1, "INVITE", nil)
	s.invite, s.req, s.method, s.to = k, k, "INVITE", k.from
	b := fmt.Sprintf("SIP/2.0 200 OK\r\nVia: %s\r\nFrom: %s\r\nTo: %s;tag=r\r\nCall-ID: %s\r\nCSeq: %s\r\nContact: <sip:bob@127.0.0.1:%d>\r\nContent-Length: 0\r\n\r\n", k.h("via"), k.h("from"), k.h("to"), k.h("call-id"), k.h("cseq"), s.peers[0].port)
	s.peers[0].send(s.to, b)
	if !vwait(10*time.Second, func() bool { _, st, _ := s.x.counts(); return st == 1 }) {
		e, _, _ := s.x.counts()
		if e > 0 {
			panic(vSkip{})
		}
		v.fail("success had no effect")
	}
	time.Sleep(2 * time.Millisecond)
	s.peers[0].flush()
	s.seen[0] = s.peers[0].count()
	return s
}
