package sdp

import (
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

func (v *vT) pick(s ...string) string { return s[v.Intn(len(s))] }

func (v *vT) word() string {
	const set = "abcXYZ0123456789-._%+/é:="
	n := 1 + v.Intn(6)
	s := ""
	for i := 0; i < n; i++ {
		s += string([]rune(set)[v.Intn(len([]rune(set)))])
	}
	return s
}

func (v *vT) plain() string {
	return strings.NewReplacer("/", "q", ":", "p", "=", "r").Replace(v.word())
}

func (v *vT) ip() string {
	return v.pick("1.2.3.4", "10.0.0.255", "::1", "fe80::1:2", "2001:db8::ff", "host.example", strconv.Itoa(v.Intn(256))+".0.0."+strconv.Itoa(v.Intn(256)))
}

func vIP(addr string) string {
	if strings.Contains(addr, ":") {
		return "IP6"
	}
	return "IP4"
}

func vNorm(s *SDP) *SDP {
	if s == nil {
		return nil
	}
	c := *s
	if len(c.Attrs) == 0 {
		c.Attrs = nil
	}
	if len(c.Other) == 0 {
		c.Other = nil
	}
	for _, m := range []**Media{&c.Audio, &c.Video} {
		if *m != nil {
			d := **m
			if len(d.Codecs) == 0 {
				d.Codecs = nil
			}
			*m = &d
		}
	}
	return &c
}

func vSame(a, b *SDP) bool { return reflect.DeepEqual(vNorm(a), vNorm(b)) }

func vStr(s *SDP) string {
	if s == nil {
		return "nil"
	}
	t := strconv.Quote(s.Origin.User) + " " + strconv.Quote(s.Origin.ID) + " " + strconv.Quote(s.Origin.Version) + " " + strconv.Quote(s.Origin.Addr) +
		" addr " + strconv.Quote(s.Addr) + " session " + strconv.Quote(s.Session) + " time " + strconv.Quote(s.Time) + " ptime " + strconv.Itoa(s.Ptime) +
		" sendonly " + strconv.FormatBool(s.SendOnly) + " recvonly " + strconv.FormatBool(s.RecvOnly)
	for i, m := range []*Media{s.Audio, s.Video} {
		if m != nil {
			t += []string{" audio ", " video "}[i] + strconv.Itoa(int(m.Port)) + " " + strconv.Quote(m.Proto)
			for _, c := range m.Codecs {
				t += " {" + strconv.Itoa(int(c.PT)) + " " + strconv.Quote(c.Name) + " " + strconv.Itoa(c.Rate) + " " + strconv.Quote(c.Param) + " " + strconv.Quote(c.Fmtp) + "}"
			}
		}
	}
	for _, a := range s.Attrs {
		t += " attr " + strconv.Quote(a[0]) + " " + strconv.Quote(a[1])
	}
	for _, a := range s.Other {
		t += " other " + strconv.Quote(a[0]) + " " + strconv.Quote(a[1])
	}
	return t
}

var (
	vOrigin = regexp.MustCompile(`^([^ ]*) ([^ ]*) ([^ ]*) IN IP[46] ([^ /]*)$`)
	vConn   = regexp.MustCompile(`^IN IP[46] ([^ /]*)$`)
	vMedia  = regexp.MustCompile(`^([0-9]+)(?:/[^ ]*)? ([^ ]*)((?: [0-9]+)+)$`)
	vMap    = regexp.MustCompile(`^([^/]*)/([-+]?[0-9]+)(?:/([^/]*)(?:/.*)?)?$`)
)

// vTable is the table of standard payload types.
var vTable = map[int]Codec{
	0: {0, "PCMU", 8000, "", ""}, 3: {3, "GSM", 8000, "", ""}, 4: {4, "G723", 8000, "", ""}, 5: {5, "DVI4", 8000, "", ""}, 6: {6, "DVI4", 16000, "", ""},
	7: {7, "LPC", 8000, "", ""}, 8: {8, "PCMA", 8000, "", ""}, 9: {9, "G722", 8000, "", ""}, 10: {10, "L16", 44100, "2", ""}, 11: {11, "L16", 44100, "", ""},
	12: {12, "QCELP", 8000, "", ""}, 13: {13, "CN", 8000, "", ""}, 14: {14, "MPA", 90000, "", ""}, 15: {15, "G728", 8000, "", ""},
	16: {16, "DVI4", 11025, "", ""}, 17: {17, "DVI4", 22050, "", ""}, 18: {18, "G729", 8000, "", ""}, 25: {25, "CelB", 90000, "", ""},
	26: {26, "JPEG", 90000, "", ""}, 28: {28, "nv", 90000, "", ""}, 31: {31, "H261", 90000, "", ""}, 32: {32, "MPV", 90000, "", ""},
	33: {33, "MP2T", 90000, "", ""}, 34: {34, "H263", 90000, "", ""},
}

// vRef says what a text means: a description or (nil) an error. unsure: the text is outside what the contract fixes.
func vRef(text string) (s *SDP, unsure bool) {
	if !strings.HasPrefix(text, "v=0\r\n") {
		return nil, false
	}
	s = &SDP{Session: "pok\u00e9mon", Time: "0 0"}
	var maps, fmtps []string
	var media [2]string
	var conn, origin bool
	lines := strings.Split(text[5:], "\r\n")
	if len(lines) < 2 {
		return nil, false
	}
	for _, l := range lines {
		if len(l) < 3 || l[1] != '=' {
			continue
		}
		x := l[2:]
		switch l[0] {
		case 's':
			s.Session = x
		case 't':
			s.Time = x
		case 'c':
			if !conn {
				m := vConn.FindStringSubmatch(x)
				if m == nil {
					return nil, false
				}
				conn, s.Addr = true, m[1]
			}
		case 'o':
			m := vOrigin.FindStringSubmatch(x)
			if m == nil {
				return nil, false
			}
			origin = true
			s.Origin = Origin{m[1], m[2], m[3], m[4]}
		case 'm':
			for i, k := range []string{"audio ", "video "} {
				if strings.HasPrefix(x, k) {
					if media[i] != "" {
						unsure = true
					}
					media[i] = x[6:]
				}
			}
		case 'a':
			i := strings.Index(x, ":")
			switch {
			case strings.HasPrefix(x, "rtpmap:"):
				maps = append(maps, x[7:])
			case strings.HasPrefix(x, "fmtp:"):
				fmtps = append(fmtps, x[5:])
			case strings.HasPrefix(x, "ptime:"):
				if n, err := strconv.Atoi(x[6:]); err == nil && n > 0 {
					s.Ptime = n
				}
			case x == "sendrecv":
			case x == "sendonly":
				s.SendOnly = true
			case x == "recvonly":
				s.RecvOnly = true
			case i > 0:
				s.Attrs = append(s.Attrs, [2]string{x[:i], x[i+1:]})
			case i < 0:
				s.Attrs = append(s.Attrs, [2]string{x, ""})
			}
		default:
			if l[0] != '=' {
				s.Other = append(s.Other, [2]string{l[:1], x})
			}
		}
	}
	if !conn || !origin {
		return nil, unsure
	}
	for i, x := range media {
		if x == "" {
			continue
		}
		m := vMedia.FindStringSubmatch(x)
		if m == nil {
			return nil, unsure
		}
		port, err := strconv.ParseUint(m[1], 10, 16)
		if err != nil {
			return nil, unsure
		}
		md := &Media{Port: uint16(port), Proto: m[2]}
		for _, pt := range strings.Split(m[3][1:], " ") {
			n, err := strconv.ParseUint(pt, 10, 8)
			if err != nil {
				return nil, unsure
			}
			c := Codec{PT: uint8(n)}
			for _, l := range maps {
				if j := strings.Index(l, " "); j >= 0 && l[:j] == strconv.Itoa(int(n)) {
					q := vMap.FindStringSubmatch(l[j+1:])
					if q == nil {
						return nil, unsure
					}
					c.Name, c.Param = q[1], q[3]
					if c.Rate, err = strconv.Atoi(q[2]); err != nil {
						return nil, unsure
					}
					break
				}
			}
			if c.Name == "" {
				std, ok := vTable[int(n)]
				if !ok {
					return nil, unsure
				}
				c = std
			}
			for _, l := range fmtps {
				if j := strings.Index(l, " "); j >= 0 && l[:j] == strconv.Itoa(int(n)) {
					c.Fmtp = l[j+1:]
					break
				}
			}
			md.Codecs = append(md.Codecs, c)
		}
		if i == 0 {
			s.Audio = md
		} else {
			s.Video = md
		}
	}
	if s.Audio == nil && s.Video == nil {
		return nil, unsure
	}
	return s, unsure
}

func (v *vT) pts(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += " " + v.pick("0", "3", "8", "9", "18", "10", "1", "101", "96", "111", "2", "34", "95", "127", "19", strconv.Itoa(v.Intn(256)))
	}
	return s
}

func (v *vT) rtpmap() string {
	return "a=rtpmap:" + v.pick("0", "1", "10", "101", "96", "9", "18", "111", "8", "127", "19", "2", strconv.Itoa(v.Intn(140))) + " " + v.plain() + "/" + strconv.Itoa(v.Intn(96000)) + v.pick("", "", "/2", "/"+v.plain(), "/1/2")
}

func (v *vT) fmtp() string {
	return "a=fmtp:" + v.pick("0", "1", "10", "101", "96", "9", "18", "111", "8") + " " + v.pick("0-16", "mode=20;x", "a b", v.word())
}

func vCheckText(v *vT, text string) {
	v.What = strconv.Quote(text)
	want, unsure := vRef(text)
	got, err := Parse(text)
	v.check((got == nil) == (err != nil), "Parse returned value %v and error %v", got != nil, err)
	if unsure {
		return
	}
	v.check((want == nil) == (got == nil), "Parse gives %s, %v want %s", vStr(got), err, vStr(want))
	v.check(vSame(want, got), "Parse gives %s want %s", vStr(got), vStr(want))
}
