package http1

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
)

// verifWriter keeps what was written and fails at the given write
type verifWriter struct {
	out    bytes.Buffer
	writes int
	failAt int
}

var errVerifWrite = errors.New("write")
var errVerifNet = errors.New("network")

func verifPieces(v *verifRun, s string) (out []string) {
	for len(s) > 0 {
		n := 1 + v.Rnd.Intn(len(s))
		if v.Rnd.Intn(3) == 0 {
			n = 1 + v.Rnd.Intn(2)
			if n > len(s) {
				n = len(s)
			}
		}
		if v.Rnd.Intn(9) == 0 {
			out = append(out, "")
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}


func (w *verifWriter) Write(b []byte) error {
	w.writes++
	if w.writes == w.failAt {
		return errVerifWrite
	}
	w.out.Write(b)
	return nil
}

// verifReader gives pieces, its last one possibly together with the end
type verifReader struct {
	pieces []string
	end    error
	joint  bool
	reads  int
}

func (r *verifReader) Read(b []byte) (int, error) {
	r.reads++
	if len(r.pieces) == 0 {
		return 0, r.end
	}
	n := copy(b, r.pieces[0])
	r.pieces[0] = r.pieces[0][n:]
	if r.pieces[0] == "" {
		r.pieces = r.pieces[1:]
	}
	if len(r.pieces) == 0 && r.joint {
		return n, r.end
	}
	return n, nil
}

type verifCloser struct {
	*verifReader
	closed int
}

func (c *verifCloser) Close() error { c.closed++; return nil }

func verifFold(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) }

// verifSplit gives the head's lines and what follows the empty line
func verifSplit(s string) (lines []string, rest string, ok bool) {
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return nil, "", false
	}
	return strings.Split(s[:i], "\r\n"), s[i+4:], true
}

func verifDechunk(s string) (body string, ok bool) {
	for {
		i := strings.Index(s, "\r\n")
		if i < 0 {
			return body, false
		}
		var n int
		if _, err := fmt.Sscanf(s[:i], "%x", &n); err != nil || fmt.Sprintf("%x", n) != s[:i] {
			return body, false
		}
		s = s[i+2:]
		if len(s) < n+2 || s[n:n+2] != "\r\n" {
			return body, false
		}
		if n == 0 {
			return body, s == "\r\n"
		}
		body, s = body+s[:n], s[n+2:]
	}
}

func verifCookie(c cookie.Cookie) string {
	s := "Set-Cookie: " + c.Name + "=" + c.Value
	if c.Path != "" {
		s += "; Path=" + c.Path
	}
	if c.Domain != "" {
		s += "; Domain=" + c.Domain
	}
	if !c.Expires.IsZero() {
		s += "; Expires=" + c.Expires.UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
	}
	if c.MaxAge > 0 {
		s += fmt.Sprintf("; MaxAge=%d", c.MaxAge)
	} else if c.MaxAge < 0 {
		s += "; MaxAge=0"
	}
	if c.SameSite != "" {
		s += "; SameSite=" + string(c.SameSite)
	}
	if c.Secure {
		s += "; Secure"
	}
	if c.HttpOnly {
		s += "; HttpOnly"
	}
	return s
}

func TestVerifC23(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	pick := func(l ...string) string { return l[v.Rnd.Intn(len(l))] }
	coin := func(n int) bool { return v.Rnd.Intn(n) == 0 }
	for round := 0; round < v.N(1500); round++ {
		defs := map[string]string{}
		for _, k := range []string{"Server", "X-A", "Accept-Encodings", "Connection"} {
			if coin(2) {
				defs[k] = pick("indigo", "", "identity")
			}
		}
		req := &http.Request{}
		w := &verifWriter{}
		fileBuff := []int{16, 17, 31, 64, 300, 5000}[v.Rnd.Intn(6)]
		ser := NewSerializer(make([]byte, 0, v.Rnd.Intn(64)), fileBuff, defs, req, w)
		history := ""
		for step := 0; step < 1+v.Rnd.Intn(4); step++ {
			*w = verifWriter{}
			req.Method = []method.Method{method.GET, method.HEAD, method.POST}[v.Rnd.Intn(3)]
			req.Connection = pick("", "", "close", "Close", "keep-alive", "Keep-Alive", "foo")
			req.Upgrade = proto.Unknown
			if coin(6) {
				req.Upgrade = proto.HTTP11
			}
			protocol := []proto.Proto{proto.HTTP10, proto.HTTP11, proto.HTTP11}[v.Rnd.Intn(3)]
			resp := http.NewResponse()
			code := []status.Code{200, 200, 404, 500, 101, 204, 599, 777, 1000, 7}[v.Rnd.Intn(10)]
			resp.Code(code)
			text := ""
			if coin(4) {
				text = pick("Fine", "Not Good", "OK")
				resp.Status(status.Status(text))
			}
			wantText := text
			if wantText == "" {
				if wantText = string(status.Text(code)); wantText == "" {
					wantText = "Unknown Status Code"
				}
			}
			ct, te := "text/html", ""
			if coin(3) {
				ct = pick("text/plain", "application/json")
				resp.ContentType(ct)
			}
			var hdrs [][2]string
			for k := v.Rnd.Intn(4); k > 0; k-- {
				h := [2]string{pick("Server", "server", "X-A", "x-b", "Connection", "SERVER", "Foo"), v.RandomString([]string{"a", "b c", "x,y"}, 3)}
				if strings.ContainsAny(h[1], "\r\n") {
					continue
				}
				hdrs = append(hdrs, h)
				resp.Header(h[0], h[1])
			}
			var cookies []cookie.Cookie
			for k := v.Rnd.Intn(3); k > 0; k-- {
				c := cookie.New(pick("a", "sid"), pick("1", ""))
				if coin(2) {
					c.Path = "/p"
				}
				if coin(2) {
					c.Domain = "d.com"
				}
				if coin(2) {
					c.Expires = time.Unix(int64(v.Rnd.Intn(1<<31)), 0).In(time.FixedZone("X", 3600*(v.Rnd.Intn(20)-10)))
				}
				c.MaxAge = []int{0, 0, -1, 1, 3600}[v.Rnd.Intn(5)]
				if coin(2) {
					c.SameSite = cookie.SameSiteStrict
				}
				c.Secure, c.HttpOnly = coin(2), coin(2)
				cookies = append(cookies, c)
				resp.Cookie(c)
			}
			body := v.RandomString([]string{"x", "hello", "\r\n"}, 4)
			resp.String(body)
			attach, size := coin(2), 0
			var rd *verifReader
			var cl *verifCloser
			content := ""
			if attach {
				content = strings.Repeat(v.RandomString([]string{"x", "0123456789abcdef", "\r\n", "payload"}, 6), 1+v.Rnd.Intn(3))
				rd = &verifReader{pieces: verifPieces(v, content), end: io.EOF, joint: coin(2)}
				if coin(8) {
					rd.end = errVerifNet
				}
				size = len(content)
				if coin(2) {
					size = []int{0, -1}[v.Rnd.Intn(2)]
				}
				if coin(2) {
					cl = &verifCloser{verifReader: rd}
					resp.Attachment(cl, size)
				} else {
					resp.Attachment(rd, size)
				}
				if size <= 0 {
					te = "chunked"
				}
			}
			if coin(8) {
				w.failAt = 1 + v.Rnd.Intn(3)
			}
			pre := ""
			var preDone bool
			if coin(8) {
				preDone = true
			}
			step := fmt.Sprintf("[%v method=%v conn=%q upgrade=%v code=%d status=%q ct=%q headers=%q cookies=%+v body=%q attachment=%v content=%q size=%d joint=%v end=%v failAt=%d prewrite=%v] ",
				protocol, req.Method, req.Connection, req.Upgrade, code, text, ct, hdrs, cookies, body, attach, content, size, rd != nil && rd.joint, rd != nil && rd.end != io.EOF, w.failAt, preDone)
			history += step
			h := history
			v.Case(func() string {
				return fmt.Sprintf("serializer with fileBuff=%d defaults=%q, responses in turn: %s", fileBuff, defs, h)
			}, func() {
				if preDone {
					ser.PreWrite(proto.HTTP11, http.NewResponse().Code(100).Header("Up", "1"))
				}
				err := ser.Write(protocol, resp)
				out := w.out.String()
				keep := protocol == proto.HTTP10 && verifFold(req.Connection, "keep-alive") || protocol == proto.HTTP11 && !verifFold(req.Connection, "close")
				if !keep && req.Upgrade == proto.Unknown {
					v.Check(err == status.ErrCloseConnection, "Write gave %v, want the close-connection error", err)
				}
				if cl != nil {
					v.Check(cl.closed == 1, "the attachment was closed %d times", cl.closed)
				}
				if preDone && w.failAt != 1 {
					i := strings.Index(out, "\r\n\r\n")
					v.Check(i >= 0, "no informational response in %q", out)
					pre, out = out[:i], out[i+4:]
					v.Check(strings.HasPrefix(pre, "HTTP/1.1 100 Continue\r\n") && strings.Contains(pre, "\r\nUp: 1\r\n"), "informational response %q", pre)
				}
				if w.failAt == 1 {
					v.Check(err != nil, "a failed write was not reported")
					return
				}
				lines, rest, ok := verifSplit(out)
				v.Check(ok, "no end of the head in %q", out)
				line := fmt.Sprintf("HTTP/1.%d %d %s", map[bool]int{true: 0, false: 1}[protocol == proto.HTTP10], code, wantText)
				v.Check(lines[0] == line, "response line %q, want %q", lines[0], line)
				var want []string
				for _, h := range hdrs {
					want = append(want, h[0]+": "+h[1])
				}
				for k, val := range defs {
					overridden := preDone && false
					for _, h := range hdrs {
						overridden = overridden || verifFold(h[0], k)
					}
					if !overridden {
						want = append(want, k+": "+val)
					}
				}
				want = append(want, "Content-Type: "+ct)
				if te != "" {
					want = append(want, "Transfer-Encoding: "+te)
				}
				if !attach {
					want = append(want, fmt.Sprintf("Content-Length: %d", len(body)))
				} else if size > 0 {
					want = append(want, fmt.Sprintf("Content-Length: %d", size))
				}
				for _, c := range cookies {
					want = append(want, verifCookie(c))
				}
				got := append([]string{}, lines[1:]...)
				sort.Strings(got)
				sort.Strings(want)
				v.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "headers %q, want %q", got, want)
				failed := attach && req.Method != method.HEAD && (rd.end != io.EOF || w.failAt > 0 && w.writes >= w.failAt)
				switch {
				case req.Method == method.HEAD:
					v.Check(rest == "", "body %q in the response to a HEAD request", rest)
				case !attach:
					v.Check(rest == body, "body %q, want %q", rest, body)
				case failed:
					v.Check(err != nil, "a broken attachment was not reported")
				case size > 0:
					v.Check(rest == content, "body %q, want %q", rest, content)
				default:
					b, ok := verifDechunk(rest)
					v.Check(ok && b == content, "chunked body %q, want %q", rest, content)
				}
				if (keep || req.Upgrade != proto.Unknown) && !failed {
					v.Check(err == nil, "Write gave %v", err)
				}
			})
			if w.failAt > 0 && w.writes >= w.failAt {
				break
			}
		}
	}
}
