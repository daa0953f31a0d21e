package sip

import (
	"reflect"
	"testing"
)

func TestVerifC04(t *testing.T) {
	vrun(t, 3000, func(v *vT) {
		m := v.msg()
		want := *m
		// blank fields come back as their defaults
		if m.Status == 0 && v.chance(6) {
			m.Method, want.Method = "", "INVITE"
		}
		if m.Status == 0 && v.chance(6) {
			m.MaxForwards, want.MaxForwards = 0, 70
		}
		if v.chance(6) {
			m.VersionMajor, m.VersionMinor, want.VersionMajor, want.VersionMinor = 0, 0, 2, 0
		}
		if m.Status != 0 && v.chance(6) {
			m.Status = []int{100, 180, 183, 200, 302, 404, 408, 486, 500, 503, 603}[v.Intn(11)]
			m.Phrase, want.Status, want.Phrase = "", m.Status, Phrase(m.Status)
		}
		v.What = vShow(reflect.ValueOf(m))
		s := m.String()
		v.What = vQ([]byte(s))
		got, err := ParseMsg([]byte(s))
		v.check(err == nil, "does not parse: %v", err)
		if d := vDiff(&want, got); d != "" {
			v.fail("written / read %s", d)
		}
	})
}
