package http

import (
	"fmt"
	"testing"
)

func TestVerifC17(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	esc := map[byte]byte{0: '0', 7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}
	one := func(s string) {
		v.Case(func() string { return fmt.Sprintf("Escape(%q)", s) }, func() {
			var want []byte
			for i := 0; i < len(s); i++ {
				if c := s[i]; c >= 32 && c <= 126 {
					want = append(want, c)
				} else if e, ok := esc[c]; ok {
					want = append(want, '\\', e)
				} else {
					want = append(want, '\\', '?')
				}
			}
			v.Check(Escape(s) == string(want), "result %q, want %q", Escape(s), want)
		})
	}
	for c := 0; c < 256; c++ {
		one(string([]byte{byte(c)}))
		one("a" + string([]byte{byte(c)}) + "b")
		for d := 0; d < 256; d++ {
			one(string([]byte{byte(c), byte(d)}))
		}
	}
	v.Strings("a\n\xc3\xa9", 8, one)
	v.Random([]string{"/", "a", "\n", "\r\n", "é", "\x7f", "\\", "%", "日本", "\xff", "\x00", "abcdefghijklmnopqrstuvwxyz"}, v.N(30000), 9, one)
}
