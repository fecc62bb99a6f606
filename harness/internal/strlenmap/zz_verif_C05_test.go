package strlenmap

import (
	"fmt"
	"testing"
)

func TestVerifC05(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	keys := []string{"", "a", "b", "A", "ab", "ba", "abc", "abd", "hello", "hallo", "a\x00", "longer-key-of-many-bytes", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}
	run := func(seq []int) {
		v.Case(func() string {
			s := "Insert"
			for i, k := range seq {
				s += fmt.Sprintf(" (%q,%d)", keys[k], i+1)
			}
			return s
		}, func() {
			m := New[int]()
			ref := map[string]int{}
			check := func() {
				for _, k := range keys {
					got, found := m.Get(k)
					want, has := ref[k]
					v.Check(found == has, "Get(%q) found=%v, want %v", k, found, has)
					if has {
						v.Check(got == want, "Get(%q)=%d, want %d", k, got, want)
					}
				}
			}
			check()
			for i, k := range seq {
				m.Insert(keys[k], i+1)
				if _, ok := ref[keys[k]]; !ok {
					ref[keys[k]] = i + 1
				}
				check()
			}
		})
	}
	n := len(keys)
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				run([]int{a, b, c})
			}
		}
	}
	for i := 0; i < v.N(3000); i++ {
		l := v.Rnd.Intn(30)
		s := make([]int, l)
		for j := range s {
			s[j] = v.Rnd.Intn(n)
		}
		run(s)
	}
}
