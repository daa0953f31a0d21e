package sdp

import (
	"strings"
	"testing"
)

func TestVerifC16(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		l := []string{"o=root 31589 31589 IN IP4 10.0.0.38", "s=x", "c=IN IP4 10.0.0.38", "t=0 0"}
		if !v.chance(4) {
			l = append(l, "m=audio 30126 RTP/AVP"+v.pts(1+v.Intn(5)))
		}
		if v.chance(4) {
			l = append(l, "m=video 30128 RTP/AVP"+v.pts(1+v.Intn(5)))
		}
		for i := v.Intn(10); i > 0; i-- {
			if v.chance(3) {
				l = append(l, v.fmtp())
			} else {
				l = append(l, v.rtpmap())
			}
		}
		// each offered type gets its mapping more often than not
		for _, x := range append([]string{}, l...) {
			if strings.HasPrefix(x, "m=") {
				for _, pt := range strings.Split(x, " ")[3:] {
					if !v.chance(4) {
						j := 4 + v.Intn(len(l)-3)
						l = append(l[:j], append([]string{"a=rtpmap:" + pt + " " + v.plain() + "/8000" + v.pick("", "/2")}, l[j:]...)...)
					}
				}
			}
		}
		vCheckText(v, "v=0\r\n"+strings.Join(l, "\r\n")+"\r\n")
		for n, c := range vTable {
			got, ok := StandardCodecs[uint8(n)]
			v.check(ok && got == c, "standard codec %d is %+v", n, got)
		}
		v.check(len(StandardCodecs) == len(vTable), "%d standard codecs", len(StandardCodecs))
	})
}
