package rtp

import (
	"bytes"
	"testing"
)

func TestVerifC07(t *testing.T) {
	vrun(t, 20000, func(v *vT) {
		h := vHeader(v)
		pre := make([]byte, v.Intn(20), 60)
		v.Read(pre)
		if v.chance(3) {
			pre = pre[:len(pre):len(pre)]
		}
		if v.chance(10) {
			pre = nil
		}
		old := append([]byte{}, pre...)
		g := h
		if v.chance(4) {
			g.PT |= 0x80
		}
		h0 := g
		out := g.Write(pre)
		v.check(g == h0, "Write changed the header %+v -> %+v", h0, g)
		want := append(append([]byte{}, old...), vWire(h)...)
		v.check(bytes.Equal(out, want), "Write(%+v) after %x = %x want %x", g, old, out, want)
		tail := make([]byte, v.Intn(8))
		v.Read(tail)
		in := append(append([]byte{}, vWire(h)...), tail...)
		var back Header
		if v.chance(2) {
			back = vHeader(v)
		}
		in0 := append([]byte{}, in...)
		err := back.Read(in)
		v.check(err == nil && back == h && bytes.Equal(in, in0), "Read(%x) = %+v, %v want %+v", in, back, err, h)
		// anything
		b := make([]byte, v.Intn(16))
		v.Read(b)
		if len(b) > 0 && v.chance(2) {
			b[0] = b[0]&0x3f | 0x80
		}
		h1 := vHeader(v)
		was := h1
		err = h1.Read(b)
		switch {
		case len(b) < 12:
			v.check(err == ErrTruncatedPacket && h1 == was, "Read(%x) = %v, header %+v -> %+v", b, err, was, h1)
		case b[0]>>6 != 2:
			v.check(err == ErrBadVersion && h1 == was, "Read(%x) = %v, header %+v -> %+v", b, err, was, h1)
		case b[0]&0x10 != 0:
			v.check(err == ErrExtendedHeadersNotSupported && h1 == was, "Read(%x) = %v, header %+v -> %+v", b, err, was, h1)
		default:
			want := Header{Pad: b[0]&0x20 != 0, Mark: b[1]&0x80 != 0, PT: b[1] & 127, Seq: uint16(b[2])<<8 | uint16(b[3]),
				TS:   uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7]),
				Ssrc: uint32(b[8])<<24 | uint32(b[9])<<16 | uint32(b[10])<<8 | uint32(b[11])}
			v.check(err == nil && h1 == want, "Read(%x) = %+v, %v want %+v", b, h1, err, want)
		}
	})
}
