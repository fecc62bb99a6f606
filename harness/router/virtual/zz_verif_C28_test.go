package virtual

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	"github.com/indigo-web/indigo/router"
)

type verifTarget struct {
	name  string
	inits int
	log   *[]string
	resp  *http.Response
	err   error
}

func (x *verifTarget) Initialize() router.Router { x.inits++; return &verifRuntime{x} }

type verifRuntime struct{ t *verifTarget }

func (x *verifRuntime) OnRequest(*http.Request) *http.Response {
	*x.t.log = append(*x.t.log, "request "+x.t.name)
	return x.t.resp
}

func (x *verifRuntime) OnError(_ *http.Request, err error) *http.Response {
	*x.t.log = append(*x.t.log, "error "+x.t.name)
	x.t.err = err
	return x.t.resp
}

func verifNorm(h string) string {
	h = strings.TrimPrefix(h, "www.")
	if strings.HasSuffix(h, ":80") {
		return h[:len(h)-3]
	}
	return strings.TrimSuffix(h, ":443")
}

func verifFold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func TestVerifC28(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	hosts := []string{"a.com", "A.com", "www.a.com", "a.com:80", "a.com:443", "a.com:8080", "www.a.com:80", "b.org", "0.0.0.0", "0.0.0.0:80", "0.0.0.0:8080", "www.", "www.b.org:81", "", "localhost", "localhost:80"}
	pick := func() string { return hosts[v.Rnd.Intn(len(hosts))] }
	for n := 0; n < v.N(6000); n++ {
		desc := ""
		v.Case(func() string { return desc }, func() {
			var log []string
			r := New()
			var all []*verifTarget
			var def *verifTarget
			type reg struct {
				dom string
				t   *verifTarget
			}
			var regs []reg
			for k := v.Rnd.Intn(5); k > 0; k-- {
				x := &verifTarget{name: fmt.Sprint(len(all)), log: &log, resp: http.NewResponse()}
				all = append(all, x)
				if v.Rnd.Intn(5) == 0 {
					desc += "Default() "
					v.Check(r.Default(x) == r, "Default returns another router")
					def = x
					continue
				}
				h := pick()
				desc += fmt.Sprintf("Host(%q) ", h)
				v.Check(r.Host(h, x) == r, "Host returns another router")
				d := verifNorm(h)
				if i := strings.IndexByte(d, ':'); (i < 0 && d == "0.0.0.0") || (i >= 0 && d[:i] == "0.0.0.0") {
					def = x
				} else {
					regs = append(regs, reg{d, x})
				}
			}
			rt := r.Initialize()
			for _, x := range all {
				want := 0
				if x == def {
					want = 1
				}
				for _, g := range regs {
					if g.t == x {
						want = 1
					}
				}
				v.Check(x.inits == want, "router %s initialised %d times, want %d", x.name, x.inits, want)
			}
			for k := 0; k < 4; k++ {
				req := construct.Request(config.Default(), dummy.NewNopClient(), nil)
				var hs []string
				req.Headers.Add("Accept", "a.com")
				for c := v.Rnd.Intn(6); c > 2 || c == 0; c = v.Rnd.Intn(4) {
					if len(hs) == 3 {
						break
					}
					if c == 0 && len(hs) > 0 {
						break
					}
					hs = append(hs, pick())
					req.Headers.Add([]string{"Host", "host", "HOST"}[v.Rnd.Intn(3)], hs[len(hs)-1])
				}
				d0 := desc
				desc += fmt.Sprintf("request with hosts %q", hs)
				var want *verifTarget
				code := 400
				if len(hs) < 2 {
					want = def
				}
				if len(hs) == 1 {
					code = 421
					for _, g := range regs {
						if verifFold(g.dom) == verifFold(verifNorm(hs[0])) {
							want = g.t
							break
						}
					}
				}
				log = nil
				kind := "request "
				var resp *http.Response
				e := errors.New("some")
				if v.Rnd.Intn(2) == 0 {
					resp = rt.OnRequest(req)
				} else {
					kind = "error "
					resp = rt.OnError(req, e)
				}
				if want == nil {
					v.Check(len(log) == 0, "%q, want no router asked", log)
					v.Check(resp != nil && int(resp.Reveal().Code) == code, "response %v, want code %d", resp, code)
				} else {
					v.Check(len(log) == 1 && log[0] == kind+want.name, "%q, want %q", log, kind+want.name)
					v.Check(resp == want.resp, "another response")
					v.Check(kind == "request " || want.err == e, "error %v passed on", want.err)
				}
				desc = d0
			}
		})
	}
}
