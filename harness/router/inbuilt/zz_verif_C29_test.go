package inbuilt

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
	"github.com/indigo-web/indigo/internal/tcp/dummy"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
)

type verifRoute struct {
	toks []string
	h    map[method.Method]string
}

// verifMatch follows the registered templates segment by segment, a static one before a wildcard
func verifMatch(routes []*verifRoute, path string) (*verifRoute, []string) {
	if path == "" || path[0] != '/' {
		return nil, nil
	}
	var segs, vals []string
	if path != "/" {
		segs = strings.Split(path[1:], "/")
	}
	cand := routes
	for i, s := range segs {
		var st, wi []*verifRoute
		for _, c := range cand {
			if len(c.toks) <= i {
				continue
			}
			if c.toks[i] == s && s != "" {
				st = append(st, c)
			} else if c.toks[i][0] == '{' && s != "" {
				wi = append(wi, c)
			}
		}
		if len(st) > 0 {
			cand = st
		} else if len(wi) > 0 {
			cand = wi
			if n := wi[0].toks[i]; n != "{}" {
				vals = append(vals, n[1:len(n)-1]+"="+s)
			}
		} else {
			return nil, nil
		}
	}
	for _, c := range cand {
		if len(c.toks) == len(segs) {
			return c, vals
		}
	}
	return nil, nil
}

func TestVerifC29(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	methods := []method.Method{method.GET, method.HEAD, method.POST, method.PUT, method.DELETE, method.CONNECT, method.OPTIONS, method.TRACE, method.PATCH}
	words := []string{"a", "b", "user", "bb"}
	errs := []error{status.ErrNotFound, status.ErrMethodNotAllowed, status.ErrBadRequest, status.ErrTooLarge, errors.New("other"), status.ErrTeapot}
	for n := 0; n < v.N(5000); n++ {
		desc := ""
		v.Case(func() string { return desc }, func() {
			var log []string
			resp := http.NewResponse()
			mk := func(id string) Handler {
				return func(*http.Request) *http.Response { log = append(log, id); return resp }
			}
			mw := func(id string) Middleware {
				return func(next Handler, req *http.Request) *http.Response {
					log = append(log, "mw "+id)
					return next(req)
				}
			}
			r := New()
			dynamic := v.Rnd.Intn(2) == 0
			var routes []*verifRoute
			many := v.Rnd.Intn(40) == 0
			type rt struct {
				r      *Router
				prefix []string
				mws    string
				used   string
			}
			nmw := 0
			rts := []*rt{{r: r}}
			if v.Rnd.Intn(3) == 0 {
				rts = append(rts, &rt{r: r.Group("/g"), prefix: []string{"g"}})
				desc += "Group(/g) "
				if v.Rnd.Intn(2) == 0 {
					rts = append(rts, &rt{r: rts[1].r.Group("/h"), prefix: []string{"g", "h"}})
					desc += "Group(/g/h) "
				}
			}
			for i, g := range rts {
				for ; v.Rnd.Intn(3) == 0; nmw++ {
					g.r.Use(mw(fmt.Sprint(nmw)))
					g.used += fmt.Sprintf("mw %d,", nmw)
					desc += fmt.Sprintf("Use(%d) on router %d ", nmw, i)
				}
				if i > 0 {
					g.mws = rts[i-1].mws
				}
				g.mws += g.used
			}
			count := v.Rnd.Intn(8)
			if many {
				count = 70
			}
			for k := 0; k < count; k++ {
				g := rts[v.Rnd.Intn(len(rts))]
				toks := append([]string(nil), g.prefix...)
				var own []string
				for s := v.Rnd.Intn(4); s > 0; s-- {
					if dynamic && v.Rnd.Intn(3) == 0 {
						own = append(own, []string{"{x}", "{y}", "{}"}[(len(toks)+len(own))%3])
					} else if many && len(own) == 0 {
						own = append(own, fmt.Sprintf("w%d", k))
					} else {
						own = append(own, words[v.Rnd.Intn(len(words))])
					}
				}
				toks = append(toks, own...)
				p := "/" + strings.Join(own, "/")
				var e *verifRoute
				for _, x := range routes {
					if strings.Join(x.toks, "/") == strings.Join(toks, "/") {
						e = x
					}
				}
				m := methods[v.Rnd.Intn(len(methods))]
				if e != nil && e.h[m] != "" {
					continue
				}
				if e == nil {
					e = &verifRoute{toks, map[method.Method]string{}}
					routes = append(routes, e)
				}
				id := fmt.Sprintf("%s /%s", m, strings.Join(toks, "/"))
				e.h[m] = g.mws
				desc += "Route(" + id + ") "
				if v.Rnd.Intn(4) == 0 {
					e.h[m] += "mw own,"
					g.r.Route(m, p, mk(id), mw("own"))
				} else {
					g.r.Route(m, p, mk(id))
				}
				e.h[m] += id
			}
			catch := map[string]string{}
			for k := v.Rnd.Intn(4); k > 0; k-- {
				gi := v.Rnd.Intn(len(rts))
				p := []string{"/", "/a", "/a/b", "/us", "/user"}[v.Rnd.Intn(5)]
				full := p
				if gi > 0 {
					full = strings.TrimSuffix("/"+strings.Join(rts[gi].prefix, "/")+p, "/")
				}
				if catch[full] == "" {
					catch[full] = rts[gi].mws + "catch " + full
					desc += "Catch(" + full + ") "
					rts[gi].r.Catch(p, mk("catch "+full))
				}
			}
			eh := map[status.Code]string{}
			for k := v.Rnd.Intn(3); k > 0; k-- {
				c := []status.Code{AllErrors, status.NotFound, status.MethodNotAllowed, status.BadRequest, status.Teapot}[v.Rnd.Intn(5)]
				g := rts[v.Rnd.Intn(len(rts))]
				id := fmt.Sprintf("error %d/%d", c, k)
				eh[c] = rts[0].used + id
				desc += fmt.Sprintf("RouteError(%d) ", c)
				if c == AllErrors && v.Rnd.Intn(2) == 0 {
					g.r.RouteError(mk(id))
				} else {
					g.r.RouteError(mk(id), c)
				}
			}
			muts := ""
			for k := v.Rnd.Intn(3); k > 0; k-- {
				id := fmt.Sprintf("mutator %d", k)
				r.Mutator(func(*http.Request) { log = append(log, id) })
				muts += id + ","
			}
			alias := ""
			if v.Rnd.Intn(3) == 0 {
				alias = "/" + words[v.Rnd.Intn(len(words))]
				r.Alias("/alias", alias)
				desc += "Alias(" + alias + ") "
			}
			run := r.Initialize()
			for k := 0; k < 5; k++ {
				req := construct.Request(config.Default(), dummy.NewNopClient(), nil)
				req.Proto = proto.HTTP11
				req.Method = methods[v.Rnd.Intn(len(methods))]
				if v.Rnd.Intn(3) == 0 {
					req.Method = method.GET
				}
				var segs []string
				if len(routes) > 0 && v.Rnd.Intn(3) > 0 {
					x := routes[v.Rnd.Intn(len(routes))]
					for _, s := range x.toks {
						if s[0] == '{' || v.Rnd.Intn(12) == 0 {
							s = append(words, "z", "zz")[v.Rnd.Intn(6)]
						}
						segs = append(segs, s)
					}
				} else {
					for s := v.Rnd.Intn(4); s > 0; s-- {
						segs = append(segs, append(words, "z", "", "g", "alias")[v.Rnd.Intn(8)])
					}
				}
				path := "/" + strings.Join(segs, "/")
				if v.Rnd.Intn(6) == 0 {
					path += "/"
				}
				req.Path = path
				req.Headers.Add("Hello", "world").Add("some", "value")
				query := ""
				if v.Rnd.Intn(2) == 0 {
					query = "k=v"
				}
				req.Query.Set([]byte(query))
				d0 := desc
				desc += fmt.Sprintf("; %s %q", req.Method, path)
				log = nil
				if path == "/alias" && alias != "" {
					path = alias
				}
				var fail error
				var got *http.Response
				var want, echo string
				params := []string(nil)
				allow := ""
				if v.Rnd.Intn(4) == 0 {
					fail = errs[v.Rnd.Intn(len(errs))]
					desc += fmt.Sprintf(" error %v", fail)
					got = run.OnError(req, fail)
				} else {
					got = run.OnRequest(req)
					path = uri.Normalize(path)
					x, vals := verifMatch(routes, path)
					if x == nil {
						fail = status.ErrNotFound
					} else {
						params = vals
						want = x.h[req.Method]
						if want == "" && req.Method == method.HEAD {
							want = x.h[method.GET]
						}
						if want == "" {
							fail = status.ErrMethodNotAllowed
							for _, m := range methods {
								if x.h[m] != "" {
									allow += "," + m.String()
								}
							}
						}
						var ps []string
						for _, p := range req.Params.Unwrap() {
							ps = append(ps, p.Key+"="+p.Value)
						}
						v.Check(strings.Join(ps, "&") == strings.Join(params, "&"), "parameters %q, want %q", ps, params)
					}
				}
				code := status.Code(0)
				if fail != nil {
					he, ishttp := fail.(status.HTTPError)
					best := ""
					if fail == status.ErrNotFound {
						for p := range catch {
							if strings.HasPrefix(path, p) && len(p) > len(best) {
								best = p
							}
						}
					}
					switch {
					case req.Method == method.TRACE && fail == status.ErrMethodNotAllowed:
						code = 200
						q := ""
						if query != "" {
							q = "?" + query
						}
						echo = "TRACE " + path + q + " HTTP/1.1\r\nHello: world\r\nsome: value\r\nContent-Length: 0\r\n\r\n"
					case best != "":
						want = catch[best]
					case !ishttp:
						code = 500
					case eh[he.Code] != "":
						want = eh[he.Code]
					case he.Code == status.MethodNotAllowed:
						want, code = strings.TrimSuffix(rts[0].used, ","), 405
					case eh[AllErrors] != "":
						want = eh[AllErrors]
					default:
						want, code = strings.TrimSuffix(rts[0].used, ","), he.Code
					}
				}
				have := strings.Join(log, ",")
				if want != "" {
					want = muts + want
				} else {
					want = strings.TrimSuffix(muts, ",")
				}
				v.Check(have == want, "calls %q, want %q", have, want)
				if code == 0 {
					v.Check(got == resp, "another response than the handler's")
				} else {
					v.Check(got != nil && got != resp, "another response")
					f := got.Reveal()
					v.Check(f.Code == code, "code %d, want %d", f.Code, code)
					if echo != "" {
						v.Check(string(f.Body) == echo && f.ContentType == "message/http", "TRACE response %q (%s), want %q", f.Body, f.ContentType, echo)
					}
					if code == 405 && allow != "" {
						al := ""
						for _, h := range f.Headers {
							if h.Key == "Allow" {
								al += h.Value
							}
						}
						v.Check(verifSet(al) == verifSet(allow[1:]), "Allow %q, want %q", al, allow[1:])
					}
				}

				desc = d0
			}
		})
	}
}

func verifSet(s string) string {
	var out []string
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"} {
		for _, x := range strings.Split(s, ",") {
			if x == m {
				out = append(out, m)
			}
		}
	}
	return fmt.Sprint(out, len(strings.Split(s, ",")))
}

