package pathlib

import (
	"fmt"
	"strings"
	"testing"
)

func verifSep(s string) string {
	sep := "/"
	if i := strings.IndexAny(s, "/\\"); i >= 0 {
		sep = s[i : i+1]
	}
	if strings.HasSuffix(s, sep) {
		return s
	}
	return s + sep
}

func TestVerifC19(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	ps := []string{"/", "\\", "a", "é", "static", "./", "/static", "public", "."}
	for i := 0; i < v.N(30000); i++ {
		prefix, with := v.RandomString(ps, 4), v.RandomString(ps, 4)
		if prefix == "" || with == "" {
			continue
		}
		log := ""
		v.Case(func() string { return fmt.Sprintf("NewPath(%q, %q)%s", prefix, with, log) }, func() {
			p := NewPath(prefix, with)
			for k := 0; k < 4; k++ {
				rest := v.RandomString(ps, 5)
				path := verifSep(prefix) + rest
				log += fmt.Sprintf(" Set(%q)", path)
				p.Set(path)
				got := p.Relative()
				v.Check(got == verifSep(with)+rest, "Relative() = %q, want %q", got, verifSep(with)+rest)
			}
		})
	}
}
