package sdp

import (
	"strings"
	"testing"
)

func (v *vT) codec() Codec {
	c := Codec{PT: uint8(v.Intn(256)), Name: v.plain(), Rate: v.Intn(1 << 30)}
	if v.chance(3) {
		c.Param = v.plain()
	}
	if v.chance(3) {
		c.Fmtp = v.pick("0-16", "a b;c=d", v.word())
	}
	if v.chance(4) {
		c = []Codec{ULAWCodec, DTMFCodec, Opus}[v.Intn(3)]
	}
	return c
}

func (v *vT) media(used map[uint8]bool) *Media {
	m := &Media{Proto: v.pick("RTP/AVP", "udp", "TCP/IP", v.word()), Port: uint16(v.Uint32())}
	for i := 1 + v.Intn(4); i > 0; i-- {
		c := v.codec()
		if !used[c.PT] {
			used[c.PT] = true
			m.Codecs = append(m.Codecs, c)
		}
	}
	if len(m.Codecs) == 0 {
		return nil
	}
	return m
}

func TestVerifC15(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		s := &SDP{Origin: Origin{v.plain(), v.plain(), v.plain(), v.ip()}, Addr: v.ip(), Session: v.pick("a b", v.word()), Time: v.pick("0 0", v.word())}
		used := map[uint8]bool{}
		if !v.chance(4) {
			s.Audio = v.media(used)
		}
		if s.Audio == nil || v.chance(3) {
			s.Video = v.media(used)
		}
		if s.Audio == nil && s.Video == nil {
			return
		}
		if v.chance(2) {
			s.Ptime = 1 + v.Intn(1<<20)
		}
		if v.chance(3) {
			s.SendOnly = true
		} else if v.chance(3) {
			s.RecvOnly = true
		}
		for i := v.Intn(4); i > 0; i-- {
			n := "z" + v.plain()
			s.Attrs = append(s.Attrs, [2]string{n, v.pick("", v.word(), "off - - -")})
		}
		for i := v.Intn(4); i > 0; i-- {
			s.Other = append(s.Other, [2]string{v.pick("b", "z", "i", "u", "k", "X"), v.word()})
		}
		want := *s
		if v.chance(8) {
			s.Session, want.Session = "", "my people call themselves dark angels"
		}
		if v.chance(8) {
			s.Time, want.Time = "", "0 0"
		}
		if v.chance(8) {
			s.Addr, want.Addr = "", "69.28.157.198"
		}
		if v.chance(8) {
			s.Origin.User, want.Origin.User = "", "-"
		}
		if v.chance(8) {
			s.Origin.Addr, want.Origin.Addr = "", "69.28.157.198"
		}
		if v.chance(8) {
			s.Origin.Version, want.Origin.Version = "", s.Origin.ID
		}
		if s.Audio != nil && v.chance(8) {
			a := *s.Audio
			a.Proto = "RTP/AVP"
			want.Audio = &a
			b := a
			b.Proto = ""
			s.Audio = &b
		}
		v.What = vStr(s)
		text := s.String()
		v.check(text == string(s.Data()) && s.ContentType() == "application/sdp", "Data and String differ")
		for _, k := range []struct{ pre, addr string }{{"c=IN ", want.Addr}, {"o=" + want.Origin.User + " " + want.Origin.ID + " " + want.Origin.Version + " IN ", want.Origin.Addr}} {
			v.check(strings.Contains(text, "\r\n"+k.pre+vIP(k.addr)+" "+k.addr+"\r\n"), "%q does not label %q", text, k.addr)
		}
		got, err := Parse(text)
		v.check(err == nil, "%q does not parse: %v", text, err)
		v.check(vSame(&want, got), "%q reads as %s", text, vStr(got))
		if v.chance(8) {
			s.Origin.ID, s.Origin.Version = "", ""
			got, err := Parse(s.String())
			v.check(err == nil && got.Origin.ID != "" && got.Origin.ID == got.Origin.Version, "blank origin id: %v", err)
		}
	})
}
