package coding

import (
	"errors"
	"fmt"
	"testing"
)

type verifCoding struct {
	tok  string
	id   int
	err  error
	buff []byte
}

func (c *verifCoding) Token() string { return c.tok }
func (c *verifCoding) Encode(in []byte) ([]byte, error) {
	return []byte(fmt.Sprintf("E%d%s", c.id, in)), c.err
}
func (c *verifCoding) Decode(in []byte) ([]byte, error) {
	return []byte(fmt.Sprintf("D%d%s", c.id, in)), c.err
}

func TestVerifC10(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	toks := []string{"gzip", "compress", "deflate", "br", "x-gzip", "x-compress", "identity", "", "GZIP", "x-deflate", "x-br"}
	failing := errors.New("failing")
	run := func(adds []int, size int64) {
		v.Case(func() string {
			s := fmt.Sprintf("buffer %d, codings", size)
			for _, a := range adds {
				s += fmt.Sprintf(" %q", toks[a])
			}
			return s
		}, func() {
			m := NewManager(size)
			ref := map[string]*verifCoding{}
			for i, a := range adds {
				c := &verifCoding{tok: toks[a], id: i}
				if i%3 == 2 {
					c.err = failing
				}
				calls := 0
				m.AddCoding(func(b []byte) Coding { calls++; c.buff = b; return c })
				v.Check(calls == 1 && int64(len(c.buff)) == size, "constructor called %d times, buffer of %d bytes", calls, len(c.buff))
				ref[c.tok] = c
				if c.tok == "gzip" {
					ref["x-gzip"] = c
				}
				if c.tok == "compress" {
					ref["x-compress"] = c
				}
				for _, t := range toks {
					for _, in := range []string{"", "x", "hello, world"} {
						for dir := 0; dir < 2; dir++ {
							b := []byte(in)
							var out []byte
							var err error
							name := "E"
							if dir == 0 {
								out, err = m.Encode(t, b)
							} else {
								name = "D"
								out, err = m.Decode(t, b)
							}
							switch c := ref[t]; {
							case t == "identity" || in == "":
								v.Check(err == nil && string(out) == in, "%s with token %q on %q gives %q, %v", name, t, in, out, err)
								if in != "" {
									v.Check(&out[0] == &b[0], "identity copies its input")
								}
							case c == nil:
								v.Check(err == ErrUnknownToken && out == nil, "%s with unknown token %q gives %q, %v", name, t, out, err)
							default:
								v.Check(err == c.err && string(out) == fmt.Sprintf("%s%d%s", name, c.id, in), "%s with token %q on %q gives %q, %v", name, t, in, out, err)
							}
						}
					}
				}
			}
		})
	}
	run(nil, 0)
	for a := range toks {
		for b := range toks {
			run([]int{a, b}, int64(a))
			for c := range toks {
				run([]int{a, b, c}, int64(b*7))
			}
		}
	}
	// a fresh manager knows no codings
	v.Case(func() string { return "fresh manager" }, func() {
		m := NewManager(1)
		for _, t := range toks {
			if t == "identity" {
				continue
			}
			_, e1 := m.Encode(t, []byte("x"))
			_, e2 := m.Decode(t, []byte("x"))
			v.Check(e1 == ErrUnknownToken && e2 == ErrUnknownToken, "token %q gives %v, %v", t, e1, e2)
		}
	})
}
