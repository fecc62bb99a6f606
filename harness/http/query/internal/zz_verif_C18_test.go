package internal

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/keyvalue"
)

func verifDecode(s string) (string, bool) {
	s = strings.ReplaceAll(s, "+", " ")
	var out []byte
	hex := func(c byte) int { return strings.IndexByte("0123456789abcdef", c|32) }
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		a, b := s[i+1], s[i+2]
		isHex := func(c byte) bool { return c >= '0' && c <= '9' || c|32 >= 'a' && c|32 <= 'f' }
		if !isHex(a) || !isHex(b) {
			return "", false
		}
		out = append(out, byte(hex(a)<<4|hex(b)))
		i += 2
	}
	return string(out), true
}

func verifQuery(s string) (out []keyvalue.Pair, ok bool) {
	for s != "" {
		seg, rest, _ := strings.Cut(s, "&")
		k, val, eq := strings.Cut(seg, "=")
		if eq && k == "" {
			return out, false
		}
		dk, ok1 := verifDecode(k)
		dv, ok2 := verifDecode(val)
		if !eq {
			dv, ok2 = "1", true
		}
		if !ok1 || !ok2 {
			return out, false
		}
		out = append(out, keyvalue.Pair{Key: dk, Value: dv})
		s = rest
	}
	return out, true
}

func TestVerifC18(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Parse(%q)", s) }, func() {
			kv := keyvalue.New()
			kv.Add("before", "1")
			err := Parse([]byte(s), kv)
			want, ok := verifQuery(s)
			v.Check((err == nil) == ok, "error %v, want ok=%v", err, ok)
			if !ok {
				v.Check(err == status.ErrBadQuery || err == status.ErrURIDecoding, "error %v", err)
				return
			}
			want = append([]keyvalue.Pair{{Key: "before", Value: "1"}}, want...)
			v.Check(fmt.Sprintf("%q", kv.Unwrap()) == fmt.Sprintf("%q", want), "pairs %q, want %q", kv.Unwrap(), want)
		})
	}
	v.Strings("a=&+%2", 7, one)
	v.Random([]string{"a", "b", "=", "&", "+", "%20", "%26", "%3D", "%3d", "%2B", "%", "%2", "%zz", "a=b&", "hello=world"}, v.N(60000), 9, one)
}
