package rtp

import "testing"

func TestVerifC08(t *testing.T) {
	chars := "0123456789*#ABCD!"
	vrun(t, 70000, func(v *vT) {
		h := EventHeader{Event: uint8(v.N), E: v.chance(2), R: v.chance(2), Volume: uint8(v.Intn(64)), Duration: uint16(v.Uint32())}
		if v.chance(5) {
			h.Duration = []uint16{0, 1, 255, 256, 65535}[v.Intn(5)]
		}
		want := [4]byte{h.Event, h.Volume, byte(h.Duration >> 8), byte(h.Duration)}
		if h.E {
			want[1] |= 0x80
		}
		if h.R {
			want[1] |= 0x40
		}
		g := h
		if v.chance(4) {
			g.Volume |= uint8(v.Intn(4)) << 6
		}
		g0 := g
		buf := make([]byte, 8)
		v.Read(buf)
		rest := [4]byte{buf[4], buf[5], buf[6], buf[7]}
		n := 4 + v.Intn(5)
		g.Write(buf[:n])
		got := [4]byte{buf[0], buf[1], buf[2], buf[3]}
		v.check(g == g0 && got == want, "Write(%+v) = %x want %x", g0, got, want)
		v.check(rest == [4]byte{buf[4], buf[5], buf[6], buf[7]}, "Write(%+v) touched bytes after the event", g0)
		back := EventHeader{Event: uint8(v.Intn(256)), E: v.chance(2), R: v.chance(2), Volume: uint8(v.Intn(64)), Duration: uint16(v.Uint32())}
		back.Read(want[:])
		v.check(back == h, "Read(%x) = %+v want %+v", want, back, h)

		ev := uint8(v.N)
		c, err := DtmfToChar(ev)
		if int(ev) < len(chars) {
			v.check(err == nil && c == chars[ev], "DtmfToChar(%d) = %q, %v", ev, c, err)
			e, err := CharToDtmf(c)
			v.check(err == nil && e == ev, "CharToDtmf(%q) = %d, %v", c, e, err)
		} else {
			v.check(err != nil, "DtmfToChar(%d) = %q without error", ev, c)
		}
		ch := uint8(v.N)
		code, ok := -1, false
		for i := range chars {
			if ch == chars[i] || chars[i] >= 'A' && ch == chars[i]|0x20 && chars[i] <= 'Z' {
				code, ok = i, true
			}
		}
		e, err := CharToDtmf(ch)
		v.check((err == nil) == ok && (!ok || int(e) == code), "CharToDtmf(%q) = %d, %v", ch, e, err)
	})
}
