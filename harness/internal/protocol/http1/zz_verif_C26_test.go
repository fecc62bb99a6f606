package http1

import (
	"errors"
	"fmt"
	"net"
	"strconv"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/construct"
)

var errVerifEnd = errors.New("end of the connection")

type verifConn struct {
	pieces [][]byte
	back   []byte
	out    strings.Builder
	writes int
	failAt int
}

func (c *verifConn) Read() ([]byte, error) {
	if len(c.back) > 0 {
		b := c.back
		c.back = nil
		return b, nil
	}
	if len(c.pieces) == 0 {
		return nil, errVerifEnd
	}
	p := c.pieces[0]
	c.pieces = c.pieces[1:]
	return p, nil
}
func (c *verifConn) Unread(b []byte) { c.back = b }
func (c *verifConn) Write(b []byte) error {
	c.writes++
	if c.writes == c.failAt {
		return errVerifEnd
	}
	c.out.Write(b)
	return nil
}
func (c *verifConn) Conn() net.Conn   { return nil }
func (c *verifConn) Remote() net.Addr { return nil }
func (c *verifConn) Close() error     { return nil }

type verifRouter struct {
	seen    []string
	errs    []error
	answers map[int]string // index of the request -> what the handler does
}

func (r *verifRouter) OnRequest(req *http.Request) *http.Response {
	i := len(r.seen)
	body, err := "", error(nil)
	if r.answers[i] != "unread" {
		body, err = req.Body.String()
	}
	r.seen = append(r.seen, fmt.Sprintf("%s %s?%s x=%s body=%q err=%v", req.Method, req.Path, req.Query.Raw(), req.Headers.Value("x"), body, err))
	switch r.answers[i] {
	case "nil":
		return nil
	case "hijack":
		if _, err := req.Hijack(); err != nil {
			panic(err)
		}
	}
	return http.Respond(req).Code(200).String(fmt.Sprintf("answer %d", i))
}

func (r *verifRouter) OnError(req *http.Request, err error) *http.Response {
	r.errs = append(r.errs, err)
	return http.Respond(req).Code(400).String("error")
}

func TestVerifC26(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	coin := func(n int) bool { return v.Rnd.Intn(n) == 0 }
	for round := 0; round < v.N(2500); round++ {
		r := &verifRouter{answers: map[int]string{}}
		raw, desc := "", ""
		var want []string
		wantOut := []string{}
		upgrades := map[int]string{}
		stop := "" // why the connection ends before its data does
		for i := 0; i < 1+v.Rnd.Intn(4) && stop == ""; i++ {
			body := v.RandomString([]string{"x", "hello ", "GET / HTTP/1.1\r\n\r\n"}, 2)
			m, path, q := []string{"GET", "POST", "PUT"}[v.Rnd.Intn(3)], []string{"/", "/a", "/a%20b"}[v.Rnd.Intn(3)], []string{"", "k=v"}[v.Rnd.Intn(2)]
			x := []string{"", "1", "two"}[v.Rnd.Intn(3)]
			req := m + " " + path
			if q != "" {
				req += "?" + q
			}
			req += " HTTP/1.1\r\nX: " + x + "\r\n"
			if coin(3) {
				body = ""
			} else if coin(2) {
				req += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
			} else {
				req += "Transfer-Encoding: chunked\r\n"
				enc := ""
				for _, p := range []string{body[:len(body)/2], body[len(body)/2:]} {
					if p != "" {
						enc += fmt.Sprintf("%x\r\n%s\r\n", len(p), p)
					}
				}
				req += "\x00" + enc + "0\r\n\r\n"
			}
			act := []string{"", "", "", "nil", "unread", "hijack"}[v.Rnd.Intn(6)]
			if coin(6) {
				upgrades[i] = []string{"HTTP/1.0", "HTTP/1.1"}[v.Rnd.Intn(2)]
				req = strings.Replace(req, "\r\nX:", "\r\nUpgrade: "+upgrades[i]+"\r\nConnection: upgrade\r\nX:", 1)
			}
			closing := coin(6) && upgrades[i] == ""
			if closing {
				req = strings.Replace(req, "\r\nX:", "\r\nConnection: close\r\nX:", 1)
				stop = "close"
			}
			bad := coin(10)
			switch {
			case strings.Contains(req, "\x00"):
				req = strings.Replace(req, "\x00", "\r\n", 1)
			case strings.Contains(req, "Content-Length"):
				req += "\r\n" + body
			default:
				req += "\r\n"
			}
			if bad {
				req, stop = "BREW / HTTP/1.1\r\n\r\n", "bad"
				raw += req
				desc += fmt.Sprintf("[%q malformed] ", req)
				wantOut = append(wantOut, "400 error")
				break
			}
			r.answers[i] = act
			raw += req
			desc += fmt.Sprintf("[%q %s] ", req, act)
			seenBody := body
			if act == "unread" {
				seenBody = ""
			}
			want = append(want, fmt.Sprintf("%s %s?%s x=%s body=%q err=<nil>", m, strings.Replace(path, "%20", " ", 1), q, x, seenBody))
			switch act {
			case "hijack":
				stop = "hijack"
			case "nil":
				wantOut = append(wantOut, "200 ")
			default:
				wantOut = append(wantOut, fmt.Sprintf("200 answer %d", i))
			}
		}
		c := &verifConn{}
		// the first byte of what follows the end must not be read: add one more request
		if stop != "" {
			raw += "GET /after HTTP/1.1\r\n\r\n"
		}
		for s := raw; len(s) > 0; {
			n := 1 + v.Rnd.Intn(len(s))
			if coin(2) && len(s) > 3 {
				n = 1 + v.Rnd.Intn(3)
			}
			c.pieces = append(c.pieces, []byte(s[:n]))
			s = s[n:]
		}
		cut := len(c.pieces)
		if coin(8) {
			c.failAt = 1 + v.Rnd.Intn(3)
		}
		v.Case(func() string {
			return fmt.Sprintf("connection with %s in %d pieces, write %d fails", desc, cut, c.failAt)
		}, func() {
			cfg := config.Default()
			body := NewBody(c, construct.Chunked(cfg.Body), cfg.Body)
			req := construct.Request(cfg, c, body)
			suit := Initialize(cfg, r, c, req)
			suit.Serve()
			if c.failAt > 0 && c.failAt <= len(wantOut) {
				v.Check(len(r.seen) <= c.failAt, "%d requests were served after a failed write", len(r.seen))
				v.Check(c.writes == c.failAt, "%d writes after the failed one", c.writes-c.failAt)
				want, wantOut = want[:len(r.seen)], wantOut[:c.failAt-1]
			}
			v.Check(fmt.Sprint(r.seen) == fmt.Sprint(want) || len(want) == 0 && len(r.seen) == 0, "requests seen %q, want %q", r.seen, want)
			out := c.out.String()
			for i, w := range wantOut {
				ver := "HTTP/1.1 "
				if upgrades[i] != "" && w[:3] == "200" {
					j := strings.Index(out, "\r\n\r\n")
					v.Check(j >= 0 && strings.HasPrefix(out, "HTTP/1.1 101 ") && strings.Count(out[:j], "Upgrade: "+upgrades[i]+"\r\n") == 1 && strings.Count(out[:j], "Upgrade: ") == 1, "upgrade of request %d: %q", i, out)
					out = out[j+4:]
					ver = upgrades[i] + " "
				}
				j := strings.Index(out, "\r\n\r\n")
				v.Check(j >= 0, "no response %d in %q", i, c.out.String())
				head := out[:j]
				out = out[j+4:]
				k := strings.Index(head, "Content-Length: ")
				v.Check(k >= 0 && strings.HasPrefix(head, ver), "response %d has the head %q", i, head)
				n, _ := strconv.Atoi(strings.SplitN(head[k+16:], "\r\n", 2)[0])
				v.Check(n <= len(out), "response %d is cut: %q", i, c.out.String())
				got := head[9:12] + " " + out[:n]
				out = out[n:]
				v.Check(got == w, "response %d is %q, want %q", i, got, w)
			}
			v.Check(out == "", "%q was written after the last response", out)
			wantErrs := 1
			if stop == "hijack" && !(c.failAt > 0 && c.failAt <= len(wantOut)) {
				wantErrs = 0
			}
			v.Check(c.failAt > 0 || len(r.errs) == wantErrs, "errors reported: %v", r.errs)
			if stop == "bad" && c.failAt == 0 {
				v.Check(r.errs[0] == status.ErrMethodNotImplemented, "malformed request reported as %v", r.errs)
			}
		})
	}
}
