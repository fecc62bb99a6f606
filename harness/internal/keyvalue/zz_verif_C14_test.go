package keyvalue

import (
	"fmt"
	"testing"
)

func verifFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	low := func(c byte) byte {
		if c >= 'A' && c <= 'Z' {
			return c + 32
		}
		return c
	}
	for i := 0; i < len(a); i++ {
		if low(a[i]) != low(b[i]) {
			return false
		}
	}
	return true
}

func TestVerifC14(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	keys := []string{"", "a", "A", "b", "ab", "Ab", "AB", "aB", "Content-Length", "content-length", "@", "`", "[", "{"}
	for n := 0; n < v.N(4000); n++ {
		s := New()
		if v.Rnd.Intn(2) == 0 {
			s = NewPreAlloc(v.Rnd.Intn(5))
		}
		var model []Pair
		log := ""
		check := func(s *Storage, model []Pair) {
			v.Check(s.Len() == len(model), "Len %d, want %d", s.Len(), len(model))
			p := s.Unwrap()
			v.Check(len(p) == len(model), "Unwrap: %d pairs, want %d", len(p), len(model))
			for i := range model {
				v.Check(p[i] == model[i], "pair %d is %q, want %q", i, p[i], model[i])
			}
			var uniq []string
			for _, x := range model {
				dup := false
				for _, u := range uniq {
					dup = dup || verifFold(u, x.Key)
				}
				if !dup {
					uniq = append(uniq, x.Key)
				}
			}
			v.Check(fmt.Sprintf("%q", s.Keys()) == fmt.Sprintf("%q", append([]string{}, uniq...)), "Keys %q, want %q", s.Keys(), uniq)
			for _, k := range append(keys, v.RandomString(keys, 2)) {
				var vals []string
				for _, x := range model {
					if verifFold(k, x.Key) {
						vals = append(vals, x.Value)
					}
				}
				got, ok := s.Get(k)
				first, or := "", "dflt"
				if len(vals) > 0 {
					first, or = vals[0], vals[0]
				}
				v.Check(ok == (len(vals) > 0) && got == first, "Get(%q) = %q, %v, want %q", k, got, ok, vals)
				v.Check(s.Has(k) == (len(vals) > 0), "Has(%q) = %v", k, s.Has(k))
				v.Check(s.Value(k) == first, "Value(%q) = %q, want %q", k, s.Value(k), first)
				v.Check(s.ValueOr(k, "dflt") == or, "ValueOr(%q) = %q, want %q", k, s.ValueOr(k, "dflt"), or)
				vs := s.Values(k)
				v.Check(len(vs) == len(vals), "Values(%q) = %q, want %q", k, vs, vals)
				for i := range vals {
					v.Check(vs[i] == vals[i], "Values(%q) = %q, want %q", k, vs, vals)
				}
			}
		}
		v.Case(func() string { return "history " + log }, func() {
			for k := v.Rnd.Intn(9); k >= 0; k-- {
				switch x := v.Rnd.Intn(12); {
				case x == 0:
					s.Clear()
					model = nil
					log += "Clear "
				case x == 1:
					c := s.Clone()
					m := append([]Pair{}, model...)
					log += "Clone "
					s.Add("clone-a", "x")
					c.Add("clone-b", "y")
					model = append(model, Pair{"clone-a", "x"})
					check(c, append(m, Pair{"clone-b", "y"}))
				default:
					k, val := keys[v.Rnd.Intn(len(keys))], fmt.Sprint(v.Rnd.Intn(5))
					log += fmt.Sprintf("Add(%q,%q) ", k, val)
					v.Check(s.Add(k, val) == s, "Add returns another storage")
					model = append(model, Pair{k, val})
				}
				if v.Rnd.Intn(3) == 0 {
					check(s, model)
				}
			}
			check(s, model)
		})
	}
}
