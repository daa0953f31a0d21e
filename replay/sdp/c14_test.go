package sdp

import (
	"strconv"
	"strings"
	"testing"
)

func (v *vT) line() string {
	switch v.Intn(14) {
	case 0:
		return "o=" + v.pick("-", "root", "") + " 1 2 IN " + v.pick("IP4", "IP6", "IP5") + " " + v.pick(v.ip(), "1.2.3.4/127")
	case 1:
		return "c=" + v.pick("IN", "IN", "AT") + " " + v.pick("IP4", "IP4", "IP6", "X") + v.pick(" ", " ", "  ") + v.pick(v.ip(), "224.1.1.1/3")
	case 2, 3:
		return "m=" + v.pick("audio", "audio", "video", "text") + " " + v.pick("0", "65535", "65536", "x", "5004/2", "30126", "/2", "", "-1") + " " + v.pick("RTP/AVP", "udp", "") + v.pts(v.Intn(4))
	case 4:
		return "a=rtpmap:" + v.pick("0", "1", "101", "", "x") + v.pick(" ", "", "  ") + v.pick("PCMU/8000", "PCMU", "/", "X/y", "a/1/2/3", "/8000", "")
	case 5:
		return v.rtpmap()
	case 6:
		return v.fmtp()
	case 7:
		return "a=" + v.pick("ptime:20", "ptime:x", "ptime:0", "ptime:-5", "sendonly", "recvonly", "sendrecv", "x:y:z", ":bad", "solo", "ptime:", "fmtp:", "rtpmap:")
	case 8:
		return v.pick("s", "t", "z", "b", "=", "i") + "=" + v.word()
	case 9:
		return v.pick("", "a", "a=", "ab", "abc", "==", "a==", "x=", "m=audio", "m=audio ", "c=", "o=", "é=1")
	case 10:
		return v.word()
	case 11:
		return "c=IN IP4 1.2.3.4"
	case 12:
		return "o=- 1 1 IN IP4 1.2.3.4"
	}
	return "m=audio 5004 RTP/AVP 0"
}

func TestVerifC14(t *testing.T) {
	vrun(t, 5000, func(v *vT) {
		var l []string
		if v.chance(2) {
			l = append(l, "o=root 31589 31589 IN IP4 10.0.0.38", "c=IN IP4 10.0.0.38", "m=audio 30126 RTP/AVP"+v.pts(1+v.Intn(3)), "a=rtpmap:101 telephone-event/8000")
			v.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			if v.chance(3) {
				i := v.Intn(len(l))
				l = append(l[:i], l[i+1:]...)
			}
		}
		for i := v.Intn(8); i > 0; i-- {
			j := v.Intn(len(l) + 1)
			l = append(l[:j], append([]string{v.line()}, l[j:]...)...)
		}
		s := v.pick("v=0\r\n", "v=0\r\n", "v=0\r\n", "v=0\r\n", "v=0\n", "v=1\r\n", "") + strings.Join(l, "\r\n") + v.pick("\r\n", "\r\n", "", "\r\n\r\n")
		vCheckText(v, s)
		b := []byte(s)
		for i := 1 + v.Intn(3); i > 0 && len(b) > 0; i-- {
			b[v.Intn(len(b))] = "\r\n =/:0am\x00\xff"[v.Intn(11)]
		}
		got, err := Parse(string(b))
		v.check((got == nil) == (err != nil), "Parse(%s) returned value %v and error %v", strconv.Quote(string(b)), got != nil, err)
		got, err = Parse(s[:v.Intn(len(s)+1)])
		v.check((got == nil) == (err != nil), "returned value %v and error %v for part of it", got != nil, err)
	})
}
