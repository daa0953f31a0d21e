package util

import (
	"bytes"
	"crypto/rand"
	"regexp"
	"strconv"
	"testing"
)

// vRand feeds chosen bytes to the generators and counts what they take.
type vRand struct {
	b   []byte
	pos int
}

func (r *vRand) Read(p []byte) (int, error) {
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

var (
	vTag  = regexp.MustCompile(`^[0-9a-f]{12}$`)
	vUUID = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
)

func TestVerifC27(t *testing.T) {
	seen := map[string]bool{}
	vrun(t, 3000, func(v *vT) {
		tag, br, id, cs, sid := GenerateTag(), GenerateBranch(), GenerateCallID(), GenerateCSeq(), GenerateOriginID()
		v.What = tag + " " + br + " " + id + " " + strconv.Itoa(cs) + " " + sid
		v.check(vTag.MatchString(tag), "tag %q", tag)
		v.check(len(br) > 7 && br[:7] == "z9hG4bK" && vTag.MatchString(br[len(br)-12:]) && len(br) <= 21, "branch %q", br)
		v.check(vUUID.MatchString(id), "call id %q", id)
		v.check(cs >= 0 && cs < 50000, "sequence number %d", cs)
		n, err := strconv.ParseUint(sid, 10, 32)
		v.check(err == nil && strconv.FormatUint(n, 10) == sid, "session id %q", sid)
		for _, s := range []string{tag, br[len(br)-12:], id} {
			v.check(!seen[s], "%q generated twice", s)
			if len(seen) < 300000 {
				seen[s] = true
			}
		}
		// with the randomness given, each is an injective function of it
		save := rand.Reader
		defer func() { rand.Reader = save }()
		a := make([]byte, 64)
		v.Read(a)
		gen := func(src []byte, f func() string) (string, int) {
			r := &vRand{b: bytes.Repeat(src, 4)}
			rand.Reader = r
			s := f()
			return s, r.pos
		}
		for k, f := range []func() string{GenerateTag, GenerateBranch, GenerateCallID} {
			need := []int{6, 6, 15}[k]
			x, n := gen(a, f)
			if n == 0 {
				continue // the randomness does not come through rand.Reader
			}
			bit := v.Intn(n * 8)
			b := bytes.Clone(a)
			b[bit/8] ^= 1 << uint(bit%8)
			y, _ := gen(b, f)
			v.check(n >= need, "generator %d draws %d bytes", k, n)
			v.check(x != y || n > need, "generator %d gives %q for %x and %x", k, x, a[:n], b[:n])
		}
		for k, f := range []func() string{func() string { return strconv.Itoa(GenerateCSeq()) }, GenerateOriginID} {
			p, q := bytes.Clone(a), bytes.Clone(a)
			p[0], q[0] = p[0]&0x7f, q[0]&0x7f
			i := v.Intn(2 + 2*k)
			q[i] ^= byte(1 + v.Intn(127))
			x, n := gen(p, f)
			y, m := gen(q, f)
			v.check(n == 0 || n != m || x != y || n > 2+2*k, "generator %d gives %q for %x and %x", 3+k, x, p[:n], q[:n])
		}
	})
}
