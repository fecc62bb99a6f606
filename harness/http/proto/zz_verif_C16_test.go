package proto

import (
	"fmt"
	"strings"
	"testing"
)

func TestVerifC16(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	known := map[string]Proto{"HTTP/1.0": HTTP10, "HTTP/1.1": HTTP11, "HTTP/2.0": HTTP2}
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("FromBytes(%q)", s) }, func() {
			v.Check(FromBytes([]byte(s)) == known[s], "result %d, want %d", FromBytes([]byte(s)), known[s])
		})
	}
	for k := range known {
		for i := 0; i <= len(k); i++ {
			one(k[:i])
			for c := 0; c < 256; c++ {
				one(k[:i] + string([]byte{byte(c)}) + k[i:])
				if i < len(k) {
					one(k[:i] + string([]byte{byte(c)}) + k[i+1:])
				}
			}
		}
	}
	v.Random([]string{"HTTP/", "http/", "1", "0", "2", ".", "1.1", "/"}, v.N(20000), 6, one)
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			v.Case(func() string { return fmt.Sprintf("Parse(%d, %d)", a, b) }, func() {
				want := Unknown
				if a == 1 && b == 0 {
					want = HTTP10
				} else if a == 1 && b == 1 {
					want = HTTP11
				} else if a == 2 && b == 0 {
					want = HTTP2
				}
				v.Check(Parse(uint8(a), uint8(b)) == want, "result %d, want %d", Parse(uint8(a), uint8(b)), want)
			})
		}
	}
	names := map[Proto]string{HTTP10: "HTTP/1.0 ", HTTP11: "HTTP/1.1 ", HTTP2: "HTTP/2 "}
	for p := 0; p < 256; p++ {
		v.Case(func() string { return fmt.Sprintf("Proto(%d).String()", p) }, func() {
			v.Check(Proto(p).String() == names[Proto(p)], "%q", Proto(p).String())
		})
	}
	ups := map[string]Proto{"http/1.0": HTTP10, "HTTP/1.0": HTTP10, "http/1.1": HTTP11, "HTTP/1.1": HTTP11, "h2c": HTTP2, "H2C": HTTP2}
	up := func(s string) {
		v.Case(func() string { return fmt.Sprintf("ChooseUpgrade(%q)", s) }, func() {
			want := Unknown
			for _, tok := range strings.Split(s, ",") {
				if want = ups[strings.TrimSpace(tok)]; want != Unknown {
					break
				}
			}
			v.Check(ChooseUpgrade(s) == want, "result %d, want %d", ChooseUpgrade(s), want)
		})
	}
	v.Random([]string{",", ", ", " ", "h2c", "H2C", "http/1.1", "HTTP/1.0", "HTTP/1.1", "http/1.0", "websocket", "h2", "\t"}, v.N(40000), 7, up)
}
