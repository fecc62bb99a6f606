package cookie

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo/internal/keyvalue"
)

func TestVerifC20(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	model := func(s string) (out []keyvalue.Pair, ok bool) {
		for s != "" {
			k, rest, found := strings.Cut(s, "=")
			if !found || k == "" {
				return out, false
			}
			val, more, _ := strings.Cut(rest, ";")
			out = append(out, keyvalue.Pair{Key: k, Value: val})
			s = strings.TrimPrefix(more, " ")
		}
		return out, true
	}
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Parse(%q)", s) }, func() {
			jar := NewJar()
			jar.Add("before", "1")
			err := Parse(jar, s)
			want, ok := model(s)
			v.Check((err == nil) == ok, "error %v, want ok=%v", err, ok)
			if !ok {
				v.Check(err == ErrBadCookie, "error %v", err)
				return
			}
			want = append([]keyvalue.Pair{{Key: "before", Value: "1"}}, want...)
			v.Check(fmt.Sprint(jar.Unwrap()) == fmt.Sprint(want), "pairs %q, want %q", jar.Unwrap(), want)
		})
	}
	v.Strings("a=; ", 8, one)
	v.Random([]string{"a", "b", "=", ";", "; ", " ", "a=b", "session=1", "a=b; "}, v.N(40000), 8, one)
	v.Case(func() string { return "Builder" }, func() {
		for i := 0; i < 1000; i++ {
			at := time.Unix(int64(v.Rnd.Intn(1<<30)), 0)
			w := Cookie{Name: v.RandomString([]string{"a"}, 3), Value: v.RandomString([]string{"b"}, 3), Path: "/p", Domain: "d", Expires: at, MaxAge: v.Rnd.Intn(5) - 2, SameSite: SameSiteLax, Secure: i%2 == 0, HttpOnly: i%3 == 0}
			base := Build(w.Name, w.Value)
			b := base.Path(w.Path).Domain(w.Domain).Expires(at).MaxAge(w.MaxAge).SameSite(w.SameSite).Secure(w.Secure).HttpOnly(w.HttpOnly)
			v.Check(b.Cookie() == w, "built %v, want %v", b.Cookie(), w)
			b = base.HttpOnly(w.HttpOnly).Secure(w.Secure).SameSite(w.SameSite).MaxAge(w.MaxAge).Expires(at).Domain(w.Domain).Path(w.Path)
			v.Check(b.Cookie() == w, "built %v, want %v", b.Cookie(), w)
			v.Check(base.Cookie() == New(w.Name, w.Value), "the base changed: %v", base.Cookie())
		}
	})
}
