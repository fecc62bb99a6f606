package domain

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC03(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Normalize(%q)", s) }, func() {
			d := strings.TrimPrefix(s, "www.")
			if strings.HasSuffix(d, ":80") {
				d = d[:len(d)-3]
			} else if strings.HasSuffix(d, ":443") {
				d = d[:len(d)-4]
			}
			v.Check(Normalize(s) == d, "result %q, want %q", Normalize(s), d)
		})
		v.Case(func() string { return fmt.Sprintf("TrimPort(%q)", s) }, func() {
			want := s
			if i := strings.Index(s, ":"); i >= 0 {
				want = s[:i]
			}
			v.Check(TrimPort(s) == want, "result %q, want %q", TrimPort(s), want)
		})
	}
	v.Strings(":.8043", 7, one)
	v.Strings("w.:a", 8, one)
	v.Random([]string{"www.", "www", "WWW.", ":80", ":443", ":8080", ":4430", ":", ".", "a", "example.com", "80", "443", "::1", "[::1]"}, v.N(40000), 6, one)
}
