package dsp

import "testing"

func TestVerifC12(t *testing.T) {
	vrun(t, 2000, func(v *vT) {
		buf := make([]int16, 800)
		edge := []int16{0, 1, -1, 32767, -32768, 32766, -32767, 16384, -16384}
		for i := range buf {
			buf[i] = int16(v.Uint32())
			if v.chance(2) {
				buf[i] = edge[v.Intn(len(edge))]
			}
		}
		a := v.Intn(64)
		b := 400 + v.Intn(64)
		if v.chance(2) {
			a, b = b, a
		}
		if v.chance(10) {
			b = a
		}
		was := append([]int16{}, buf...)
		L16MixSat160(&buf[a], &buf[b])
		for i := range buf {
			want := int32(was[i])
			if i >= a && i < a+160 {
				want += int32(was[b+i-a])
				if want > 32767 {
					want = 32767
				}
				if want < -32768 {
					want = -32768
				}
			}
			v.check(int32(buf[i]) == want, "destination at %d, source at %d: element %d: %d became %d want %d", a, b, i, was[i], buf[i], want)
		}
	})
}
