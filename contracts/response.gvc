prop C24  # response builder
fn internal/response.Fields.Clear(f) ()
  modifies f.Code, f.Status, f.ContentType, f.TransferEncoding, f.Headers, f.Body, f.Cookies, f.Attachment
  ensures blank: f.Code == 200 && f.Status == "" && f.ContentType == "text/html" && f.TransferEncoding == "" && len(f.Headers) == 0 && len(f.Body) == 0 && len(f.Cookies) == 0 && f.Attachment.content == nil && f.Attachment.size == 0
  ensures no-shared-body: cap(f.Body) == 0
fn http.NewResponse() (r)
  ensures blank: r != nil && fresh(r) && r.fields != nil && fresh(r.fields) && r.fields.Code == 200 && r.fields.Status == "" && r.fields.ContentType == "text/html" && r.fields.TransferEncoding == "" && len(r.fields.Headers) == 0 && len(r.fields.Body) == 0 && len(r.fields.Cookies) == 0 && r.fields.Attachment.content == nil
fn http.Response.Code(r, code) (x)
  requires live: r.fields != nil
  modifies r.fields.Code
  ensures set: x == r && r.fields.Code == code
fn http.Response.Status(r, s) (x)
  requires live: r.fields != nil
  modifies r.fields.Status
  ensures set: x == r && r.fields.Status == s
fn http.Response.ContentType(r, value) (x)
  requires live: r.fields != nil
  modifies r.fields.ContentType
  ensures set: x == r && r.fields.ContentType == value
fn http.Response.TransferEncoding(r, value) (x)
  requires live: r.fields != nil
  modifies r.fields.TransferEncoding
  ensures set: x == r && r.fields.TransferEncoding == value
rec addh(p: Pairs, k: String, v: Strs, i: Int): Pairs = if i <= 0 then p else addh(p, k, v, i-1) ++ onepair(k, at(v, i-1))
fn http.Response.Header(r, key, values) (x)
  requires live: r.fields != nil
  modifies r.fields.ContentType, r.fields.TransferEncoding, grow(r.fields.Headers)
  let ct = asciifold(key, "content-type")
  let te = !ct && asciifold(key, "transfer-encoding")
  ensures chain: x == r
  ensures none: len(values) == 0 ==> seq(r.fields.Headers) == old(seq(r.fields.Headers)) && r.fields.ContentType == old(r.fields.ContentType) && r.fields.TransferEncoding == old(r.fields.TransferEncoding)
  ensures content-type: r.fields.ContentType == (if ct && len(values) > 0 then at(values, 0) else old(r.fields.ContentType))
  ensures transfer-encoding: r.fields.TransferEncoding == (if te && len(values) > 0 then at(values, 0) else old(r.fields.TransferEncoding))
  ensures appended: seq(r.fields.Headers) == (if ct || te then old(seq(r.fields.Headers)) else addh(old(seq(r.fields.Headers)), key, seq(values), len(values)))
  inv [i:int] seq(r.fields.Headers) == addh(old(seq(r.fields.Headers)), key, seq(values), i)
  inv [i:int] seq(r.fields.Headers) == addh(old(seq(r.fields.Headers)), key, seq(values), i+1)
fn http.Response.String(r, body) (x)
  requires live: r.fields != nil
  modifies r.fields.Body
  ensures set: x == r && bytes(r.fields.Body) == body
fn http.Response.Bytes(r, body) (x)
  requires live: r.fields != nil
  modifies r.fields.Body
  ensures set: x == r && r.fields.Body == body
fn http.Response.Write(r, b) (n, err)
  requires live: r.fields != nil
  modifies grow(r.fields.Body)
  ensures appended: bytes(r.fields.Body) == old(bytes(r.fields.Body)) ++ old(bytes(b)) && n == len(b) && err == nil
fn http.Response.Attachment(r, reader, size) (x)
  requires live: r.fields != nil
  modifies r.fields.Attachment
  ensures set: x == r && r.fields.Attachment.content == reader && r.fields.Attachment.size == size
fn http.Response.Cookie(r, cookies) (x)
  requires live: r.fields != nil
  modifies grow(r.fields.Cookies)
  ensures appended: x == r && seq(r.fields.Cookies) == old(seq(r.fields.Cookies)) ++ old(seq(cookies))
extern error.Error(self) (s)
  ensures s == app("errtext", "String", self)
fn http.Response.Error(r, err, code) (x)
  requires live: r.fields != nil
  modifies r.fields.Code, r.fields.Body
  ensures chain: x == r
  ensures nothing: err == nil ==> r.fields.Code == old(r.fields.Code) && r.fields.Body == old(r.fields.Body)
  ensures http-error: typeis(err, "http/status.HTTPError") ==> r.fields.Code == unbox(err, "http/status.HTTPError").Code && r.fields.Body == old(r.fields.Body)
  ensures other: err != nil && !typeis(err, "http/status.HTTPError") ==> r.fields.Code == (if len(code) > 0 then at(code, 0) else 500) && bytes(r.fields.Body) == app("errtext", "String", err)
fn http.Response.Reveal(r) (f)
  ensures fields: f == r.fields
fn http.Response.Clear(r) (x)
  requires live: r.fields != nil
  modifies r.fields.Code, r.fields.Status, r.fields.ContentType, r.fields.TransferEncoding, r.fields.Headers, r.fields.Body, r.fields.Cookies, r.fields.Attachment
  ensures blank: x == r && r.fields.Code == 200 && r.fields.Status == "" && r.fields.ContentType == "text/html" && r.fields.TransferEncoding == "" && len(r.fields.Headers) == 0 && len(r.fields.Body) == 0 && len(r.fields.Cookies) == 0 && r.fields.Attachment.content == nil
extern os.Open(name) (f, err)
  event O
  ensures err == nil ==> f != nil
extern os.File.Stat(self) (info, err)
  event S
  ensures err == nil ==> info != nil
extern os.File.Close(self) (err)
  event X
extern io/fs.FileInfo.IsDir(self) (r)
  event D
extern io/fs.FileInfo.Size(self) (n)
  event Z
extern path/filepath.Ext(path) (s)
  ensures s == app("fileext", "String", path)
def mimeof(e: String): String = if e == ".avif" then "image/avif" else if e == ".css" then "text/css; charset=utf-8" else if e == ".gif" then "image/gif" else if e == ".htm" then "text/html; charset=utf-8" else if e == ".html" then "text/html; charset=utf-8" else if e == ".jpeg" then "image/jpeg" else if e == ".jpg" then "image/jpeg" else if e == ".js" then "text/javascript; charset=utf-8" else if e == ".json" then "application/json" else if e == ".mjs" then "text/javascript; charset=utf-8" else if e == ".pdf" then "application/pdf" else if e == ".png" then "image/png" else if e == ".svg" then "image/svg+xml" else if e == ".wasm" then "application/wasm" else if e == ".webp" then "image/webp" else if e == ".xml" then "text/xml; charset=utf-8" else if e == ".gz" then "application/gzip" else if e == ".sql" then "application/sql" else if e == ".tzif" then "application/tzif" else if e == ".yaml" then "application/yaml" else if e == ".xfdf" then "application/xfdf" else if e == ".zip" then "application/zip" else if e == ".zlib" then "application/zlib" else if e == ".zstd" then "application/zstd" else if e == ".ico" then "image/vnd.microsoft.icon" else "application/octet-stream"
fn http.Response.TryFile(r, path) (x, err)
  requires live: r.fields != nil
  modifies r.fields.ContentType, r.fields.Attachment, tr("os.Open"), tr("os.File.Stat"), tr("os.File.Close"), tr("io/fs.FileInfo.IsDir"), tr("io/fs.FileInfo.Size")
  post operr = evarg("os.Open", 0, "err")
  post sterr = evarg("os.File.Stat", 0, "err")
  ensures chain: x == r && len(tr("os.Open")) == 1 && evarg("os.Open", 0, "name") == path
  ensures missing: operr != nil ==> err == G("http/status.ErrNotFound") && len(tr("os.File.Close")) == 0
  ensures stat-fails: operr == nil && sterr != nil ==> err == G("http/status.ErrInternalServerError") && len(tr("os.File.Close")) == 1
  ensures directory: operr == nil && sterr == nil && evarg("io/fs.FileInfo.IsDir", 0, "r") ==> err == G("http/status.ErrNotFound") && len(tr("os.File.Close")) == 1
  ensures attached: operr == nil && sterr == nil && !evarg("io/fs.FileInfo.IsDir", 0, "r") ==> err == nil && len(tr("os.File.Close")) == 0 && r.fields.Attachment.size == evarg("io/fs.FileInfo.Size", 0, "n") && typeis(r.fields.Attachment.content, "*os.File") && unbox(r.fields.Attachment.content, "*os.File") == evarg("os.Open", 0, "f")
  ensures typed: err == nil ==> r.fields.ContentType == mimeof(app("fileext", "String", path))
  ensures untouched: err != nil ==> r.fields.ContentType == old(r.fields.ContentType) && r.fields.Attachment.content == old(r.fields.Attachment.content)
fn http.Response.File(r, path) (x)
  requires live: r.fields != nil
  modifies r.fields.Code, r.fields.Body, r.fields.ContentType, r.fields.Attachment, tr("os.Open"), tr("os.File.Stat"), tr("os.File.Close"), tr("io/fs.FileInfo.IsDir"), tr("io/fs.FileInfo.Size")
  ensures chain: x == r && len(tr("os.Open")) == 1 && evarg("os.Open", 0, "name") == path
  ensures missing: evarg("os.Open", 0, "err") != nil ==> r.fields.Code == 404
  ensures untouched: r.fields.ContentType != old(r.fields.ContentType) ==> r.fields.Body == old(r.fields.Body) && r.fields.Code == old(r.fields.Code)
