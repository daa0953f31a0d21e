package rtp

import (
	"bytes"
	"math"
	"net"
	"testing"
	"time"
)

func TestVerifC09(t *testing.T) {
	src, dst := vListen(t), vListen(t)
	defer src.Close()
	defer dst.Close()
	vrun(t, 200, func(v *vT) {
		rs := &Session{Sock: src, Peer: dst.LocalAddr().(*net.UDPAddr), Header: Header{Seq: uint16(v.Uint32()), TS: v.Uint32(), Ssrc: v.Uint32()}, obuf: make([]byte, 0, 1500)}
		if v.chance(3) {
			rs.Header.Seq, rs.Header.TS = uint16(65535-v.Intn(6)), math.MaxUint32-uint32(v.Intn(400))
		}
		for i := 0; i < 4; i++ {
			h := rs.Header
			h.Mark, h.Pad = rs.Header.Mark, rs.Header.Pad
			switch v.Intn(4) {
			case 0, 1:
				var f Frame
				for n := range f {
					f[n] = int16(v.Uint32())
					if v.chance(20) {
						f[n] = []int16{0, -1, 1, -32768, 32767, 32635, 32636, -32635, -32636}[v.Intn(9)]
					}
				}
				f0 := f
				err := rs.Send(&f)
				h.PT = 0
				want := vWire(h)
				for _, s := range f0 {
					want = append(want, vUlaw(s))
				}
				got := vRecv(dst, 2*time.Second)
				v.check(err == nil && f == f0, "Send: %v", err)
				v.check(bytes.Equal(got, want), "Send with header %+v sent %x want %x", h, got, want)
				h.Seq++
				h.TS += 160
				v.check(rs.Header == h, "after Send header %+v want %+v", rs.Header, h)
			case 2:
				data := make([]byte, v.Intn(300))
				v.Read(data)
				pt, samps := uint8(v.Intn(128)), v.Uint32()
				err := rs.SendRaw(pt, data, samps)
				h.PT = pt
				want := append(vWire(h), data...)
				got := vRecv(dst, 2*time.Second)
				v.check(err == nil && bytes.Equal(got, want), "SendRaw(%d, %x, %d) with %+v sent %x want %x, %v", pt, data, samps, h, got, want, err)
				h.Seq++
				h.TS += samps
				v.check(rs.Header == h, "after SendRaw header %+v want %+v", rs.Header, h)
			case 3:
				digit := "0123456789*#abcdABCD!"[v.Intn(21)]
				if v.chance(3) {
					digit = byte(v.Intn(256))
				}
				code, cerr := vCode(digit)
				err := rs.SendDTMF(digit)
				if !cerr {
					v.check(err != nil && rs.Header == h, "SendDTMF(%q) = %v, header %+v -> %+v", digit, err, h, rs.Header)
					src.WriteToUDP([]byte("end"), rs.Peer)
					v.check(string(vRecv(dst, 2*time.Second)) == "end", "SendDTMF(%q) sent a packet", digit)
					continue
				}
				v.check(err == nil, "SendDTMF(%q) = %v", digit, err)
				var pk [][]byte
				src.WriteToUDP([]byte("end"), rs.Peer)
				for {
					p := vRecv(dst, 2*time.Second)
					if p == nil || string(p) == "end" {
						break
					}
					pk = append(pk, p)
				}
				v.check(len(pk) >= 4, "SendDTMF(%q) sent %d packets", digit, len(pk))
				last, full := -1, 0
				for n, p := range pk {
					h.PT, h.Mark = 101, n == 0
					v.check(len(p) == 16 && bytes.Equal(p[:12], vWire(h)), "SendDTMF(%q) packet %d = %x want header %x", digit, n, p, vWire(h))
					h.Seq++
					d := int(p[14])<<8 | int(p[15])
					end := n >= len(pk)-3
					v.check(int(p[12]) == code && (p[13]&0x80 != 0) == end && p[13]&0x40 == 0, "SendDTMF(%q) packet %d = %x event %d end %v", digit, n, p, code, end)
					if end {
						v.check(d > last && (full == 0 || d == full), "SendDTMF(%q) packet %d = %x duration", digit, n, p)
						full = d
					} else {
						v.check(d > last, "SendDTMF(%q) packet %d = %x duration", digit, n, p)
						last = d
					}
				}
				v.check(full == 400, "SendDTMF(%q) ends with duration %d", digit, full)
				h.Mark = false
				rs.Header.PT = h.PT
				v.check(rs.Header.Seq == h.Seq && rs.Header.TS == h.TS && rs.Header.Ssrc == h.Ssrc && !rs.Header.Mark, "after SendDTMF header %+v want %+v", rs.Header, h)
			}
		}
		// nowhere to send to
		off := *rs
		h := off.Header
		if v.chance(2) {
			off.Sock = nil
		} else {
			off.Peer = nil
		}
		e1, e2, e3 := off.Send(&Frame{}), off.SendRaw(3, []byte{1}, 9), off.SendDTMF('5')
		v.check(e1 == nil && e2 == nil && e3 == nil && off.Header == h, "unconnected session: %v %v %v header %+v -> %+v", e1, e2, e3, h, off.Header)
		var none *Session
		v.check(none.Send(&Frame{}) == nil && none.SendRaw(3, nil, 1) == nil && none.SendDTMF('5') == nil, "nil session fails")
		if v.N%20 == 0 {
			v.check(vRecv(dst, time.Millisecond) == nil, "stray packet")
		}
	})
}

func vCode(ch byte) (int, bool) {
	for i, c := range []byte("0123456789*#ABCD!") {
		if ch == c || c >= 'A' && c <= 'D' && ch == c|0x20 {
			return i, true
		}
	}
	return 0, false
}
