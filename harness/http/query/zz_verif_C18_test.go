package query

import (
	"fmt"
	"testing"

	"github.com/indigo-web/indigo/http/query/internal"
	"github.com/indigo-web/indigo/internal/keyvalue"
)

func TestVerifC18(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	ps := []string{"a", "b", "=", "&", "+", "%20", "%26", "%", "%2", "=x", "a=b&", "hello=world"}
	for n := 0; n < v.N(15000); n++ {
		q := New(keyvalue.New())
		raw, log := "", ""
		v.Case(func() string { return "history " + log }, func() {
			for k := v.Rnd.Intn(8); k >= 0; k-- {
				kv := keyvalue.New()
				err := internal.Parse([]byte(raw), kv)
				switch v.Rnd.Intn(4) {
				case 0:
					raw = v.RandomString(ps, 6)
					log += fmt.Sprintf("Set(%q) ", raw)
					q.Set([]byte(raw))
				case 1:
					key := v.RandomString([]string{"a", "b", "hello", "ab"}, 1)
					log += fmt.Sprintf("Get(%q) ", key)
					got, gerr := q.Get(key)
					want, found := kv.Get(key)
					switch {
					case err != nil:
						v.Check(gerr == err && got == "", "Get = %q, %v, want error %v", got, gerr, err)
					case !found:
						v.Check(gerr == ErrNoSuchKey, "Get = %q, %v, want ErrNoSuchKey", got, gerr)
					default:
						v.Check(gerr == nil && got == want, "Get = %q, %v, want %q", got, gerr, want)
					}
				case 2:
					log += "Unwrap "
					p, uerr := q.Unwrap()
					v.Check(uerr == err, "Unwrap error %v, want %v", uerr, err)
					if err != nil {
						v.Check(p == nil, "Unwrap returns parameters with error %v", uerr)
					} else {
						v.Check(fmt.Sprintf("%q", p.Unwrap()) == fmt.Sprintf("%q", kv.Unwrap()), "Unwrap %q, want %q", p.Unwrap(), kv.Unwrap())
					}
				case 3:
					log += "Raw "
					v.Check(string(q.Raw()) == raw, "Raw = %q, want %q", q.Raw(), raw)
				}
			}
		})
	}
}
