package dsp

import "testing"

func vLevel(b byte) int {
	b = ^b
	m := (int(b&15)<<3+132)<<(b>>4&7) - 132
	if b&0x80 != 0 {
		return -m
	}
	return m
}

func TestVerifC11(t *testing.T) {
	vrun(t, 65536+256, func(v *vT) {
		if v.N < 256 {
			d := UlawToLinear(int64(v.N))
			v.check(d == int64(vLevel(byte(v.N))), "UlawToLinear(%d) = %d want %d", v.N, d, vLevel(byte(v.N)))
			c := LinearToUlaw(d)
			v.check(c == int64(v.N) || v.N == 0x7f && c == 0xff, "LinearToUlaw(UlawToLinear(%#x)) = %#x", v.N, c)
			return
		}
		s := int64(int16(v.N - 256))
		c := LinearToUlaw(s)
		m, sign := s, int64(0x80)
		if m < 0 {
			m, sign = -m, 0
		}
		if m > 32635 {
			m = 32635
		}
		b := m + 132
		exp := uint(7)
		for exp > 0 && b < 1<<(exp+7) {
			exp--
		}
		want := int64(^(byte(exp<<4)|byte(b>>(exp+3))&15)&0x7f) | sign
		v.check(c == want, "LinearToUlaw(%d) = %#x want %#x", s, c, want)
		d := UlawToLinear(c)
		e := d - s
		if e < 0 {
			e = -e
		}
		half := int64(1) << (exp + 2)
		v.check(e <= half || s > 32635 || s < -32635, "LinearToUlaw then UlawToLinear of %d = %d, off by %d > %d", s, d, e, half)
	})
}
