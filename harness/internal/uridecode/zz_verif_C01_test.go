package uridecode

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/hexconv"
)

func verifHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func verifDecode(s string) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) || verifHex(s[i+1]) < 0 || verifHex(s[i+2]) < 0 {
			return nil, false
		}
		out = append(out, byte(verifHex(s[i+1])*16+verifHex(s[i+2])))
		i += 2
	}
	return out, true
}

func TestVerifC01(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	for c := 0; c < 256; c++ {
		c := c
		v.Case(func() string { return fmt.Sprintf("hexconv.Parse(%q)", byte(c)) }, func() {
			v.Check(int(hexconv.Parse(byte(c))) == verifHex(byte(c))+1, "digit value %d", hexconv.Parse(byte(c)))
		})
	}
	one := func(s string) {
		want, ok := verifDecode(s)
		for mode := 0; mode < 5; mode++ {
			mode := mode
			v.Case(func() string { return fmt.Sprintf("Decode(%q) mode %d", s, mode) }, func() {
				src := []byte(s)
				prefix := ""
				var buff []byte
				switch mode {
				case 0: // no buffer
				case 1: // in place
					buff = src[:0]
				case 2:
					prefix = "abc"
					buff = append(make([]byte, 0, 64), prefix...)
				case 3: // the buffer has to grow
					prefix = "x"
					buff = append(make([]byte, 0, 2), prefix...)
				case 4: // in place, behind a prefix
					prefix = "pre"
					all := append([]byte("pre"), s...)
					src, buff = all[3:], all[:3]
				}
				keep := string(src)
				res, err := Decode(src, buff)
				if ok {
					v.Check(err == nil, "valid input rejected: %v", err)
					v.Check(bytes.Equal(res, append([]byte(prefix), want...)), "result %q, want %q", res, prefix+string(want))
				} else {
					v.Check(err == status.ErrURIDecoding, "invalid input: error %v, result %q", err, res)
					v.Check(res == nil, "result %q with an error", res)
				}
				if mode != 1 && mode != 4 {
					v.Check(string(src) == keep, "the source was changed to %q", src)
				}
			})
		}
	}
	v.Strings("%2fFgx", 6, one)
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			s := string([]byte{'%', byte(a), byte(b)})
			one(s)
		}
		one(string([]byte{'a', byte(a), 'z'}))
	}
	v.Random([]string{"%", "%20", "%4", "%aF", "%Zz", "/", "abc", "+", "%00", "%%", "0123456789012345678901234567890123456789"}, v.N(20000), 12, one)
}
