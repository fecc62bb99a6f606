package uf

import "unsafe"

// B2S and S2B reinterpret without copying, as the real module does.
func B2S(b []byte) string { return *(*string)(unsafe.Pointer(&b)) }

func S2B(s string) []byte {
	if len(s) == 0 {
		return nil
	}
	return unsafe.Slice(unsafe.StringData(s), len(s))
}
