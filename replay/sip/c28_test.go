package sip

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
)

var vHead = regexp.MustCompile(`line (\d+) offset (\d+)`)

func vReport(v *vT, data []byte, off int, text string) {
	i := strings.Index(text, ":\n")
	v.check(i >= 0, "report %q has no header line", text)
	head, body := text[:i], text[i+2:]
	lines := bytes.Split(data, []byte("\r\n"))
	var want []string
	line, col, o := 0, 0, 0
	for n, l := range lines {
		want = append(want, string(l))
		if off >= o && off < o+len(l) {
			line, col = n+1, off-o
			want = append(want, strings.Repeat(" ", col)+"^")
		}
		o += len(l) + 2
	}
	v.check(body == strings.Join(want, "\n"), "offset %d of %q is shown as %q", off, data, body)
	if line > 0 {
		m := vHead.FindStringSubmatch(head)
		v.check(m != nil && m[1] == strconv.Itoa(line) && m[2] == strconv.Itoa(col), "offset %d of %q is reported as %q", off, data, head)
	}
}

func TestVerifC28(t *testing.T) {
	vrun(t, 3000, func(v *vT) {
		var data []byte
		for i := v.Intn(6); i > 0; i-- {
			data = append(data, v.any(0, 6)...)
			data = append(data, []string{"\r\n", "\r\n", "\r\n\r\n", "\n", "\r", ""}[v.Intn(6)]...)
		}
		off := v.Intn(len(data) + 3)
		v.What = "MsgParseError " + vQ(data) + " at " + strconv.Itoa(off)
		vReport(v, data, off, MsgParseError{Msg: data, Offset: off}.Error())
		s := MsgIncompleteError{data}.Error()
		v.check(strings.Contains(s, string(data)), "%q does not show %q", s, data)
		if v.chance(5) {
			b := []byte(v.msg().String())
			b[v.Intn(len(b))] = v.any(1, 1)[0]
			b = b[:v.Intn(len(b)+1)]
			v.What = "message " + vQ(b)
			_, err := ParseMsg(b)
			switch e := err.(type) {
			case nil:
			case MsgParseError:
				v.check(bytes.Equal(e.Msg, b) && e.Offset >= 0 && e.Offset <= len(b), "error for %q at %d", e.Msg, e.Offset)
				vReport(v, b, e.Offset, err.Error())
			case MsgIncompleteError:
				v.check(bytes.Equal(e.Msg, b) && strings.Contains(err.Error(), string(b)), "error %q", err)
			default:
				_ = fmt.Sprint(err)
			}
		}
	})
}
