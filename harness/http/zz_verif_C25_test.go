package http

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/keyvalue"
)

type verifAddr struct{}

func (verifAddr) Network() string { return "verif" }
func (verifAddr) String() string  { return "verif" }

type verifConn struct{}

func (verifConn) Read() ([]byte, error) { return nil, io.EOF }
func (verifConn) Unread([]byte)         {}
func (verifConn) Write([]byte) error    { return nil }
func (verifConn) Conn() net.Conn        { return nil }
func (verifConn) Remote() net.Addr      { return verifAddr{} }
func (verifConn) Close() error          { return nil }

type verifBody struct {
	discards int
	err      error
}

func (b *verifBody) Init(*Request)                   {}
func (b *verifBody) Retrieve() ([]byte, error)       { return nil, io.EOF }
func (b *verifBody) Callback(OnBodyCallback) error   { return nil }
func (b *verifBody) Bytes() ([]byte, error)          { return nil, nil }
func (b *verifBody) Read([]byte) (int, error)        { return 0, io.EOF }
func (b *verifBody) String() (string, error)         { return "", nil }
func (b *verifBody) Reset(*Request)                  {}
func (b *verifBody) Discard() error                  { b.discards++; return b.err }

func TestVerifC25(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	errNet := errors.New("net")
	coin := func(n int) bool { return v.Rnd.Intn(n) == 0 }
	for round := 0; round < v.N(2000); round++ {
		body := &verifBody{}
		client := verifConn{}
		cfg := config.Default()
		resp := NewResponse()
		r := NewRequest(cfg, headers.New(), query.New(keyvalue.New()), resp, client, body, keyvalue.New())
		history := ""
		enc := encryption.Token(0)
		if coin(2) {
			enc = encryption.Token(1 + v.Rnd.Intn(3))
			r.Env.Encryption = enc
		}
		for step := 0; step < 1+v.Rnd.Intn(4); step++ {
			// a request is filled as the parser and a handler do
			r.Method = method.Method(v.Rnd.Intn(9))
			q := ""
			if coin(2) {
				q = "k=v&a=b"
				r.Query.Set([]byte(q))
			}
			looked := coin(2)
			if coin(2) {
				r.Params.Add("id", "1")
			}
			var cks []string
			for k := v.Rnd.Intn(3); k > 0; k-- {
				c := []string{"a=1", "a=1; b=2", "sid=x;y=z", "", "=", "a", "a=1; ", "b=;c=3"}[v.Rnd.Intn(8)]
				cks = append(cks, c)
				r.Headers.Add([]string{"Cookie", "cookie", "COOKIE"}[v.Rnd.Intn(3)], c)
			}
			if coin(2) {
				r.Headers.Add("X", "y")
			}
			r.ContentLength, r.ContentType, r.Connection = v.Rnd.Intn(3), "text/plain", "close"
			r.Encoding.Chunked, r.Encoding.HasTrailer = coin(2), coin(2)
			r.Encoding.Transfer = []string{"chunked"}
			r.Encoding.Content = []string{"gzip"}
			r.Upgrade = proto.HTTP10
			r.Ctx = context.WithValue(context.Background(), "k", "v")
			r.Env.Error, r.Env.AllowedMethods, r.Env.AliasFrom = errNet, "GET", "/x"
			body.err = nil
			if coin(6) {
				body.err = errNet
			}
			hijack := coin(6)
			history += fmt.Sprintf("[query=%q looked=%v cookies=%q discard=%v hijack=%v] ", q, looked, cks, body.err, hijack)
			h := history
			v.Case(func() string { return fmt.Sprintf("requests of one connection, encryption %d: %s", enc, h) }, func() {
				if looked && q != "" {
					val, err := r.Query.Get("k")
					v.Check(err == nil && val == "v", "query gave %q, %v", val, err)
				}
				// cookies
				ok, want := true, ""
				ref := cookie.NewJar()
				for _, c := range cks {
					if cookie.Parse(ref, c) != nil {
						ok = false
						break
					}
				}
				for _, p := range ref.Unwrap() {
					want += p.Key + "=" + p.Value + "|"
				}
				for k := 0; k < 2; k++ {
					jar, err := r.Cookies()
					v.Check((err == nil) == ok, "Cookies gave %v", err)
					if err != nil {
						v.Check(jar == nil, "a jar along with an error")
						continue
					}
					got := ""
					for _, p := range jar.Unwrap() {
						got += p.Key + "=" + p.Value + "|"
					}
					v.Check(got == want, "cookies %q, want %q", got, want)
				}
				// a response starts blank
				x := r.Respond().Code(500).String("old").Header("A", "b").Cookie(cookie.New("a", "b")).Attachment(strings.NewReader("x"), 1).Status("S").ContentType("c").TransferEncoding("t")
				v.Check(x == resp, "Respond gives another response")
				f := r.Respond().Reveal()
				v.Check(f.Code == status.OK && f.Status == "" && f.ContentType == "text/html" && f.TransferEncoding == "" && len(f.Headers)+len(f.Body)+len(f.Cookies) == 0 && f.Attachment.Content() == nil, "Respond is not blank: %+v", *f)
				if hijack {
					n := body.discards
					c, err := r.Hijack()
					v.Check(body.discards == n+1, "Hijack does not drain the body")
					v.Check(err == body.err && r.WasHijacked() == (err == nil) && (c != nil) == (err == nil), "Hijack gave %v, %v, hijacked=%v", c, err, r.WasHijacked())
					return
				}
				v.Check(!r.WasHijacked(), "hijacked without Hijack")
				n := body.discards
				err := r.Clear()
				v.Check(err == body.err && body.discards == n+1, "Clear gave %v after %d discards", err, body.discards-n)
				v.Check(r.Env.Encryption == enc, "encryption %d, want %d", r.Env.Encryption, enc)
				if err != nil {
					return
				}
				v.Check(len(r.Query.Raw()) == 0, "query %q left", r.Query.Raw())
				_, err = r.Query.Get("k")
				v.Check(err != nil, "a parameter of the previous request is found")
				v.Check(len(r.Params.Unwrap()) == 0 && len(r.Headers.Unwrap()) == 0, "params or headers left")
				e := r.Encoding
				v.Check(!e.Chunked && !e.HasTrailer && len(e.Transfer)+len(e.Content) == 0, "encoding left: %+v", e)
				v.Check(r.ContentLength == 0 && r.ContentType == "" && r.Connection == "" && r.Upgrade == proto.Unknown && r.Ctx.Value("k") == nil, "fields left: %+v", r)
				v.Check(r.Env.Error == nil && r.Env.AllowedMethods == "" && r.Env.AliasFrom == "", "environment left: %+v", r.Env)
			})
			if hijack || body.err != nil {
				break
			}
		}
	}
}
