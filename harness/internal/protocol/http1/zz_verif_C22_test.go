package http1

import (
	"errors"
	"fmt"
	"io"
	"net"
	"testing"

	"github.com/indigo-web/chunkedbody"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
)

var errVerifNet = errors.New("network")

// verifClient hands over pieces, then fails with the given error
type verifClient struct {
	pieces  []string
	back    []byte
	err     error
	unreads int
}

func (c *verifClient) Read() ([]byte, error) {
	if len(c.back) > 0 {
		b := c.back
		c.back = nil
		return b, nil
	}
	if len(c.pieces) == 0 {
		return nil, c.err
	}
	p := c.pieces[0]
	c.pieces = c.pieces[1:]
	return []byte(p), nil
}
func (c *verifClient) Unread(b []byte)    { c.unreads++; c.back = b }
func (c *verifClient) Write([]byte) error { return nil }
func (c *verifClient) Conn() net.Conn     { return nil }
func (c *verifClient) Remote() net.Addr   { return nil }
func (c *verifClient) Close() error       { return nil }
func (c *verifClient) rest() string {
	s := string(c.back)
	for _, p := range c.pieces {
		s += p
	}
	return s
}

func verifPieces(v *verifRun, s string) (out []string) {
	for len(s) > 0 {
		n := 1 + v.Rnd.Intn(len(s))
		if v.Rnd.Intn(3) == 0 {
			n = 1 + v.Rnd.Intn(2)
			if n > len(s) {
				n = len(s)
			}
		}
		if v.Rnd.Intn(9) == 0 {
			out = append(out, "")
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

func TestVerifC22(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	chunkings := func(s string) (enc string) {
		for _, p := range verifPieces(v, s) {
			if p != "" {
				enc += fmt.Sprintf("%x\r\n%s\r\n", len(p), p)
			}
		}
		return enc + "0\r\n\r\n"
	}
	// all ways of reading one body
	readers := []string{"Bytes", "String", "Callback", "Retrieve", "Read"}
	consume := func(b *Body, how string) (string, error) {
		switch how {
		case "Bytes":
			d, err := b.Bytes()
			return string(d), err
		case "String":
			return b.String()
		case "Callback":
			var got []byte
			err := b.Callback(func(d []byte) error { got = append(got, d...); return nil })
			return string(got), err
		case "Retrieve":
			var got []byte
			for i := 0; i < 10000; i++ {
				d, err := b.Retrieve()
				got = append(got, d...)
				if err == io.EOF {
					return string(got), nil
				}
				if err != nil {
					return string(got), err
				}
			}
			return string(got), errors.New("endless")
		}
		var got []byte
		for i := 0; i < 100000; i++ {
			buff := make([]byte, 1+v.Rnd.Intn(4))
			n, err := b.Read(buff)
			got = append(got, buff[:n]...)
			if err == io.EOF {
				return string(got), nil
			}
			if err != nil {
				return string(got), err
			}
		}
		return string(got), errors.New("endless")
	}
	letters := func(n int) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = byte('a' + v.Rnd.Intn(26))
		}
		return string(s)
	}
	for it := 0; it < v.N(20000); it++ {
		max := uint(v.Rnd.Intn(12))
		cfg := config.Default().Body
		cfg.MaxSize = max
		client := &verifClient{err: []error{io.EOF, errVerifNet}[v.Rnd.Intn(2)]}
		body := NewBody(client, chunkedbody.NewParser(chunkedbody.DefaultSettings()), cfg)
		var log []string
		for r := 0; r < 3; r++ {
			want := letters(v.Rnd.Intn(14))
			chunked := v.Rnd.Intn(2) == 0
			cut := v.Rnd.Intn(5) == 0
			next := letters(v.Rnd.Intn(4))
			wire := want
			if chunked {
				wire = chunkings(want)
			}
			if cut {
				next = ""
				if len(wire) == 0 {
					cut = false
				} else {
					wire = wire[:v.Rnd.Intn(len(wire))]
				}
			}
			client.back, client.pieces = nil, verifPieces(v, wire+next)
			pieces := client.pieces
			how := readers[v.Rnd.Intn(len(readers))]
			req := &http.Request{ContentLength: len(want)}
			req.Encoding.Chunked = chunked
			if chunked {
				req.ContentLength = 0
			}
			log = append(log, fmt.Sprintf("chunked=%v length=%d pieces=%q end=%v limit=%d read by %s", chunked, req.ContentLength, pieces, client.err, max, how))
			stop := false
			v.Case(func() string { return fmt.Sprint("requests on one connection: ", log) }, func() {
				body.Init(req)
				discard := v.Rnd.Intn(6) == 0
				var got string
				var err error
				if discard {
					err = body.Discard()
					got = want
				} else {
					got, err = consume(body, how)
				}
				switch {
				case uint(len(want)) > max && (!cut || !chunked && len(wire) > 0):
					v.Check(err == status.ErrBodyTooLarge, "error %v, want body too large (body %q)", err, got)
					stop = true
				case cut && (uint(len(want)) <= max):
					v.Check(err != nil && err != io.EOF, "connection closed in the middle of the body, but no error: got %q of %q", got, want)
					stop = true
				case cut:
					v.Check(err != nil, "no error")
					stop = true
				default:
					v.Check(err == nil, "error %v", err)
					v.Check(got == want, "body %q, want %q", got, want)
					v.Check(client.rest() == next, "left on the connection %q, want %q", client.rest(), next)
					d, err := body.Retrieve()
					v.Check(len(d) == 0 && err == io.EOF, "after the end: %q %v", d, err)
					b, err := body.Bytes()
					if how == "Bytes" || how == "String" {
						v.Check((discard || string(b) == want) && err == nil, "second Bytes %q %v", b, err)
					} else {
						v.Check(len(b) == 0 && err == nil, "Bytes of a body already read another way: %q %v", b, err)
					}
					v.Check(body.Discard() == nil, "Discard after the end")
				}
			})
			if stop {
				break
			}
		}
	}
}
