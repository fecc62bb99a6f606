package uri

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC02(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Normalize(%q)", s) }, func() {
			want := s
			for len(want) > 1 && want[len(want)-1] == '/' {
				want = want[:len(want)-1]
			}
			v.Check(Normalize(s) == want, "result %q, want %q", Normalize(s), want)
		})
	}
	v.Strings("/a.", 9, one)
	v.Random([]string{"/", "//", "a", "%2f", "hello", "///////////////////////"}, v.N(20000), 12, one)
	for n := 0; n < 300; n++ {
		one(strings.Repeat("/", n))
		one("a" + strings.Repeat("/", n))
		one(strings.Repeat("/a", n))
		one(strings.Repeat("/a", n) + "/")
	}
}
