package http

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
)

var verifMime = map[string]string{
	".avif": "image/avif",
	".css":  "text/css; charset=utf-8",
	".gif":  "image/gif",
	".htm":  "text/html; charset=utf-8",
	".html": "text/html; charset=utf-8",
	".jpeg": "image/jpeg",
	".jpg":  "image/jpeg",
	".js":   "text/javascript; charset=utf-8",
	".json": "application/json",
	".mjs":  "text/javascript; charset=utf-8",
	".pdf":  "application/pdf",
	".png":  "image/png",
	".svg":  "image/svg+xml",
	".wasm": "application/wasm",
	".webp": "image/webp",
	".xml":  "text/xml; charset=utf-8",
	".gz":   "application/gzip",
	".sql":  "application/sql",
	".tzif": "application/tzif",
	".yaml": "application/yaml",
	".xfdf": "application/xfdf",
	".zip":  "application/zip",
	".zlib": "application/zlib",
	".zstd": "application/zstd",
	".ico":  "image/vnd.microsoft.icon",
}

type verifFields struct {
	code    status.Code
	text    string
	ct, te  string
	hdrs    [][2]string
	body    string
	cookies []cookie.Cookie
	att     string // name of the attached file or reader
	size    int
}

func TestVerifC24(t *testing.T) {
	v := verifNew(t)
	defer v.End()
	dir := t.TempDir()
	files := map[string]string{"a.txt": "text", "b.json": "{}", "c.unknownext": "?", "noext": "", "d.HTML": "x"}
	for e := range verifMime {
		files["x"+e] = e
		files["x.tar"+e] = ""
	}
	for n, c := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(c), 0o600); err != nil {
			t.Skip(err)
		}
	}
	os.Mkdir(filepath.Join(dir, "sub.txt"), 0o700)
	names := []string{"a.txt", "b.json", "c.unknownext", "noext", "d.HTML", "sub.txt", "missing.txt"}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	fds := func() int {
		e, _ := os.ReadDir("/proc/self/fd")
		n := 0
		for _, x := range e {
			// only files of the scratch directory: the runtime opens and closes descriptors of its own
			if l, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(l, dir+"/") {
				n++
			}
		}
		return n
	}
	blank := func() verifFields { return verifFields{code: 200, ct: "text/html"} }
	pick := func(l ...string) string { return l[v.Rnd.Intn(len(l))] }
	errPlain := errors.New("plain")
	for round := 0; round < v.N(2500); round++ {
		r, m := NewResponse(), blank()
		history := ""
		// what the user handed over and must not be changed
		type kept struct {
			b    []byte
			want string
		}
		var owned []kept
		lastOwned := false
		for step := 0; step < 1+v.Rnd.Intn(9); step++ {
			op := v.Rnd.Intn(15)
			s := v.RandomString([]string{"x", "hello", "text/plain"}, 2)
			key := pick("Content-Type", "content-TYPE", "Transfer-Encoding", "X-A", "x-a", "Content-Typ", "Server")
			vals := []string{}
			for k := v.Rnd.Intn(3); k > 0; k-- {
				vals = append(vals, pick("1", "two", ""))
			}
			name := names[v.Rnd.Intn(len(names))]
			model := map[string]string{"k": strings.ToValidUTF8(strings.Repeat(s, 1+v.Rnd.Intn(3)), "?")}
			code := status.Code(v.Rnd.Intn(600))
			var e error
			switch v.Rnd.Intn(4) {
			case 0:
				e = errPlain
			case 1:
				e = status.ErrNotFound
			case 2:
				e = status.HTTPError{Code: code, Message: s}
			}
			codes := []status.Code{}
			for k := v.Rnd.Intn(3); k > 0; k-- {
				codes = append(codes, status.Code(v.Rnd.Intn(600)))
			}
			cks := []cookie.Cookie{}
			for k := v.Rnd.Intn(3); k > 0; k-- {
				cks = append(cks, cookie.New(pick("a", "b"), s))
			}
			size := v.Rnd.Intn(4) - 1
			history += [...]string{
				fmt.Sprintf("Code(%d) ", code), fmt.Sprintf("Status(%q) ", s), fmt.Sprintf("ContentType(%q) ", s), fmt.Sprintf("TransferEncoding(%q) ", s),
				fmt.Sprintf("Header(%q, %q) ", key, vals), fmt.Sprintf("Headers({%q: %q}) ", key, vals), fmt.Sprintf("String(%q) ", s), fmt.Sprintf("Bytes(%q) ", s),
				fmt.Sprintf("Write(%q) ", s), fmt.Sprintf("File(%q) ", name), fmt.Sprintf("Attachment(size %d) ", size), fmt.Sprintf("Cookie(%+v) ", cks),
				fmt.Sprintf("JSON(%q) ", model), fmt.Sprintf("Error(%v, %v) ", e, codes), "Clear() ",
			}[op]
			h := history
			v.Case(func() string { return "NewResponse() " + h }, func() {
				var x *Response
				switch op {
				case 0:
					x, m.code = r.Code(code), code
				case 1:
					x, m.text = r.Status(status.Status(s)), s
				case 2:
					x, m.ct = r.ContentType(s), s
				case 3:
					x, m.te = r.TransferEncoding(s), s
				case 4, 5:
					if op == 4 {
						x = r.Header(key, vals...)
					} else {
						x = r.Headers(map[string][]string{key: vals})
					}
					if len(vals) > 0 {
						switch strings.ToLower(key) {
						case "content-type":
							m.ct = vals[0]
						case "transfer-encoding":
							m.te = vals[0]
						default:
							for _, val := range vals {
								m.hdrs = append(m.hdrs, [2]string{key, val})
							}
						}
					}
				case 6:
					x, m.body = r.String(s), s
					lastOwned = true
				case 7:
					b := append(make([]byte, 0, len(s)+8), s...)
					owned = append(owned, kept{b, s})
					x, m.body = r.Bytes(b), s
					lastOwned = true
				case 8:
					// writing after String appends past a constant's memory: give it memory of its own
					if lastOwned {
						r.Bytes(append([]byte(nil), m.body...))
						lastOwned = false
					}
					b := []byte(s)
					n, err := r.Write(b)
					v.Check(n == len(b) && err == nil, "Write gave %d, %v", n, err)
					m.body += s
					x = r
				case 9:
					before := fds()
					path := filepath.Join(dir, name)
					x = r.File(path)
					content, ok := files[name]
					if ok {
						m.att, m.size, m.ct = path, len(content), verifMime[filepath.Ext(name)]
						if m.ct == "" {
							m.ct = "application/octet-stream"
						}
						f, isf := r.Reveal().Attachment.Content().(*os.File)
						v.Check(isf && f.Name() == path, "File attached %v", r.Reveal().Attachment.Content())
						before++
						defer f.Close()
					} else {
						m.code = 404
					}
					v.Check(fds() == before || len(verifProc()) == 0, "%d descriptors are open, want %d", fds(), before)
				case 10:
					x, m.att, m.size = r.Attachment(strings.NewReader(s), size), "reader", size
				case 11:
					x, m.cookies = r.Cookie(cks...), append(append([]cookie.Cookie{}, m.cookies...), cks...)
				case 12:
					x = r.JSON(model)
					b, _ := json.Marshal(model)
					if !bytes.Equal(r.Reveal().Body, b) {
						var back map[string]string
						v.Check(json.Unmarshal(r.Reveal().Body, &back) == nil && reflect.DeepEqual(back, model), "JSON body %q", r.Reveal().Body)
					}
					m.body, m.ct = string(r.Reveal().Body), "application/json"
					lastOwned = false
				case 13:
					x = r.Error(e, codes...)
					if he, ok := e.(status.HTTPError); ok {
						m.code = he.Code
					} else if e != nil {
						m.body, m.code = e.Error(), 500
						lastOwned = true
						if len(codes) > 0 {
							m.code = codes[0]
						}
					}
				case 14:
					x, m = r.Clear(), blank()
				}
				v.Check(x == r, "the call does not return the response itself")
				f := r.Reveal()
				var hs [][2]string
				for _, h := range f.Headers {
					hs = append(hs, [2]string{h.Key, h.Value})
				}
				v.Check(f.Code == m.code && string(f.Status) == m.text && f.ContentType == m.ct && f.TransferEncoding == m.te && string(f.Body) == m.body,
					"fields code=%d status=%q ct=%q te=%q body=%q, want %+v", f.Code, f.Status, f.ContentType, f.TransferEncoding, f.Body, m)
				v.Check(fmt.Sprint(hs) == fmt.Sprint(m.hdrs), "headers %q, want %q", hs, m.hdrs)
				v.Check(len(f.Cookies) == len(m.cookies) && fmt.Sprint(f.Cookies) == fmt.Sprint(append([]cookie.Cookie{}, m.cookies...)), "cookies %v, want %v", f.Cookies, m.cookies)
				v.Check((f.Attachment.Content() != nil) == (m.att != "") && f.Attachment.Size() == m.size, "attachment %v of size %d, want %q of size %d", f.Attachment.Content(), f.Attachment.Size(), m.att, m.size)
				for _, k := range owned {
					v.Check(string(k.b) == k.want, "a slice given as the body was changed: %q, want %q", k.b, k.want)
				}
			})
			m.body = string(r.Reveal().Body)
		}
	}
}

func verifProc() []os.DirEntry { e, _ := os.ReadDir("/proc/self/fd"); return e }
