package method

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC11(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	names := []string{"", "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}
	consts := []Method{Unknown, GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH}
	want := map[string]Method{}
	for i := 1; i <= 9; i++ {
		want[names[i]] = consts[i]
	}
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Parse(%q)", s) }, func() {
			v.Check(Parse(s) == want[s], "result %d, want %d", Parse(s), want[s])
		})
	}
	for m := 0; m < 256; m++ {
		m := m
		v.Case(func() string { return fmt.Sprintf("Method(%d).String()", m) }, func() {
			s := Method(m).String()
			if m >= 1 && m <= 9 {
				v.Check(s == names[m], "name %q, want %q", s, names[m])
				v.Check(Parse(s) == Method(m), "does not round-trip")
			} else {
				v.Check(Parse(s) == Unknown, "name %q of no method parses to %d", s, Parse(s))
			}
		})
	}
	v.Case(func() string { return "List" }, func() {
		v.Check(len(List) == 9 && int(Count) == 9, "length %d, Count %d", len(List), Count)
		for i := range List {
			v.Check(List[i] == consts[i+1], "element %d is %v", i, List[i])
		}
	})
	for _, n := range names[1:] {
		one(n)
		one(strings.ToLower(n))
		for i := 0; i <= len(n); i++ {
			one(n[:i])
			for c := 0; c < 256; c++ {
				one(n[:i] + string([]byte{byte(c)}) + n[i:])
				if i < len(n) {
					one(n[:i] + string([]byte{byte(c)}) + n[i+1:])
				}
			}
			if i < len(n) {
				one(n[:i] + n[i+1:])
			}
		}
		for _, m := range names {
			one(n + m)
			for i := range n {
				for j := range m {
					one(n[:i] + m[j:])
				}
			}
		}
	}
	v.Random([]string{"GE", "T", "PO", "ST", "PUT", "HEAD", "DEL", "ETE", "PA", "TCH", "TRA", "CE", "OPTIONS", "CONNECT"}, v.N(20000), 4, one)
}
