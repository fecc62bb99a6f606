package inbuilt

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC19(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("isSafe(%q)", s) }, func() {
			v.Check(isSafe(s) == !strings.Contains(s, ".."), "result %v", isSafe(s))
		})
	}
	v.Strings("./a", 9, one)
	v.Random([]string{".", "..", "/", "a", "...", "\\"}, v.N(20000), 8, one)
}
