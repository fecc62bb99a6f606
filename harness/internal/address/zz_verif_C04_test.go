package address

import (
	"fmt"
	"net"
	"strings"
	"testing"
)

func TestVerifC04(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("address %q", s) }, func() {
			host := s
			if i := strings.Index(s, ":"); i >= 0 {
				host = s[:i]
			}
			want := s
			if host == "" {
				want = "0.0.0.0" + s
			}
			v.Check(Normalize(s) == want, "Normalize gives %q, want %q", Normalize(s), want)
			v.Check(IsLocalhost(s) == strings.EqualFold(host, "localhost"), "IsLocalhost gives %v", IsLocalhost(s))
			v.Check(IsIP(s) == (net.ParseIP(host) != nil), "IsIP gives %v", IsIP(s))
		})
	}
	v.Strings(":.a1", 7, one)
	v.Random([]string{"localhost", "LocalHost", "LOCALHOST", "localho\u017ft", "loca\u212a", "LOCALHO\u017fT", "127.0.0.1", "0.0.0.0", "1.2.3.256", ":", ":80", ":8080", "a", "", ".", "[::1]", "example.com", "local", "host"}, v.N(40000), 5, one)
}
