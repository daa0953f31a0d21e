package rtp

import (
	"net"
	"testing"
	"time"
)

func TestVerifC10(t *testing.T) {
	rs, err := NewSession("127.0.0.1")
	if err != nil {
		t.Skip("no loopback network: ", err)
	}
	src := vListen(t)
	defer src.Close()
	defer rs.Close()
	dst := rs.Sock.LocalAddr().(*net.UDPAddr)
	vrun(t, 100, func(v *vT) {
		var good [][]byte
		var log [][]byte
		for i := v.Intn(4) + 1; i > 0; i-- {
			n := []int{172, 172, 172, 171, 173, 160, 12, 11, 13, 0, 1, 1500, 2048, 300}[v.Intn(14)]
			if v.chance(5) {
				n = v.Intn(400)
			}
			p := make([]byte, n)
			v.Read(p)
			if n > 1 && !v.chance(8) {
				p[0] = p[0]&0x2f | 0x80
				if v.chance(6) {
					p[0] = byte(v.Intn(256))
				}
				p[1] &= 0x80
				if v.chance(6) {
					p[1] = byte(v.Intn(256))
				}
			}
			log = append(log, p)
			if n == 172 && p[0]>>6 == 2 && p[0]&0x10 == 0 && p[1]&0x7f == 0 {
				good = append(good, p)
			}
			src.WriteToUDP(p, dst)
		}
		// a sentinel ends the round
		s := make([]byte, 172)
		v.Read(s)
		s[0], s[1] = 0x80, byte(v.Intn(2))<<7
		src.WriteToUDP(s, dst)
		log, good = append(log, s), append(good, s)
		for i, p := range good {
			select {
			case f, ok := <-rs.C:
				v.check(ok, "session ended after %x", log)
				for n := range f {
					v.check(f[n] == vUnulaw(p[12+n]), "datagrams %x: frame %d sample %d = %d want %d", log, i, n, f[n], vUnulaw(p[12+n]))
				}
				rs.R <- f
			case <-time.After(5 * time.Second):
				v.fail("datagrams %x: frame %d of %d not delivered", log, i, len(good))
			}
		}
	})
}
