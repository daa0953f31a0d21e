package dsp

import (
	"math"
	"reflect"
	"testing"
)

func vModuli(v *vT, s *AWGN, what string, args ...interface{}) {
	r := reflect.ValueOf(s).Elem()
	for name, m := range map[string]int64{"ix1": 259200, "ix2": 134456, "ix3": 243000} {
		if f := r.FieldByName(name); f.IsValid() && f.Kind() == reflect.Int64 {
			v.check(f.Int() >= 0 && f.Int() < m, "%s = %d after "+what, append([]interface{}{name, f.Int()}, args...)...)
		}
	}
}

func TestVerifC13(t *testing.T) {
	seeds := []int64{0, 1, -1, 2, 259200, 259199, -259200, 141420, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 54773, 714025, 150889, 714024, 1500, 7141 * 54773}
	vrun(t, 1000, func(v *vT) {
		seed := int64(v.Uint64())
		if v.N < len(seeds) {
			seed = seeds[v.N]
		} else if v.chance(3) {
			seed = int64(v.Intn(2000000) - 1000000)
		}
		level := v.Float64()*40 - 20
		if v.chance(5) {
			level = []float64{0, -1, 1, -1000, 3.14, -10, 60}[v.Intn(7)]
		}
		a, b, hot, loud := NewAWGN_DBOV(seed, level), NewAWGN_DBOV(seed, level), NewAWGN_DBOV(seed, level+20), NewAWGN_DBOV(seed, 400)
		other := NewAWGN_DBM0(seed+1, level)
		vModuli(v, a, "NewAWGN_DBOV(%d, %g)", seed, level)
		n := 50 + v.Intn(200)
		for i := 0; i < n; i++ {
			x := a.Get()
			if v.chance(3) {
				other.Get()
			}
			y, h, l := b.Get(), hot.Get(), loud.Get()
			v.check(x == y, "NewAWGN_DBOV(%d, %g): sample %d is %d and %d", seed, level, i, x, y)
			v.check(l == 32767 || l == -32768 || x == 0, "NewAWGN_DBOV(%d, 400): sample %d is %d, not clipped", seed, i, l)
			v.check(x == 0 || (x > 0) == (l > 0), "NewAWGN_DBOV(%d, %g): sample %d is %d but %d when clipped", seed, level, i, x, l)
			lo, hi := math.Max(10*float64(x)-11, -32768), math.Min(10*float64(x)+11, 32767)
			if x == 32767 {
				hi = 32767
			}
			if x == -32768 {
				lo = -32768
			}
			v.check(float64(h) >= math.Min(lo, 32767) && float64(h) <= math.Max(hi, -32768), "NewAWGN_DBOV(%d, %g): sample %d is %d but %d at ten times the amplitude", seed, level, i, x, h)
			vModuli(v, a, "sample %d of NewAWGN_DBOV(%d, %g)", i, seed, level)
		}
	})
}
