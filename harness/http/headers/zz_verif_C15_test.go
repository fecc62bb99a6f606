package headers

import (
	"fmt"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC15(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	param := func(s, sub, or string) string {
		i := strings.Index(s, sub)
		if i < 0 {
			return or
		}
		s = s[i+len(sub):]
		if i = strings.Index(s, ";"); i >= 0 {
			s = s[:i]
		}
		return s
	}
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("header value %q", s) }, func() {
			val := s
			if i := strings.Index(s, ";"); i >= 0 {
				val = s[:i]
			}
			v.Check(ValueOf(s) == val, "ValueOf = %q, want %q", ValueOf(s), val)
			for _, k := range []string{"a", "q", "charset", "", "aa"} {
				v.Check(ParamOfOr(s, k, "or") == param(s, ";"+k+"=", "or"), "ParamOfOr(%q) = %q", k, ParamOfOr(s, k, "or"))
				v.Check(ParamOf(s, k) == param(s, ";"+k+"=", ""), "ParamOf(%q) = %q", k, ParamOf(s, k))
			}
			v.Check(CharsetOf(s) == param(s, ";charset=", "iso-8859-1"), "CharsetOf = %q", CharsetOf(s))
			q, err := strconv.Atoi(param(s, ";q=0.", "9"))
			if err != nil {
				q = 9
			}
			v.Check(QualityOf(s) == q, "QualityOf = %d, want %d", QualityOf(s), q)
		})
	}
	v.Strings(";=aq", 7, one)
	v.Random([]string{";", "=", "a", "q", "charset", ";charset=", ";q=0.", ";q=", ";a=", "0.", "5", "utf-8", "text/html", " "}, v.N(40000), 7, one)
}
