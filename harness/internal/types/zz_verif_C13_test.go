package types

import (
	"fmt"
	"io"
	"strings"
	"testing"
)

type verifCloser struct {
	io.Reader
	n   int
	err error
}

func (c *verifCloser) Close() error { c.n++; return c.err }

type verifVCloser struct{ n *int }

func (c verifVCloser) Read([]byte) (int, error) { return 0, io.EOF }
func (c verifVCloser) Close() error             { *c.n++; return nil }

func TestVerifC13(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	for size := -3; size < 70; size++ {
		for kind := 0; kind < 5; kind++ {
			size, kind := size, kind
			v.Case(func() string { return fmt.Sprintf("attachment of size %d, reader kind %d", size, kind) }, func() {
				var r io.Reader
				n := 0
				c := &verifCloser{Reader: strings.NewReader("x")}
				switch kind {
				case 0:
					r = strings.NewReader("abc")
				case 1:
					r = c
				case 2:
					c.err = io.ErrClosedPipe
					r = c
				case 3:
					r = verifVCloser{&n}
				case 4:
					r = nil
				}
				a := NewAttachment(r, size)
				v.Check(a.Content() == r, "Content is not the reader given")
				v.Check(a.Size() == size, "Size is %d", a.Size())
				v.Check(c.n+n == 0, "closed before Close")
				a.Close()
				want := 0
				if kind >= 1 && kind <= 3 {
					want = 1
				}
				v.Check(c.n+n == want, "reader closed %d times, want %d", c.n+n, want)
				v.Check(a.Content() == r && a.Size() == size, "Close changed the attachment")
			})
		}
	}
}
