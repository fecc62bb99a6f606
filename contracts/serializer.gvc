prop C23  # response serialisation
extern internal/protocol/http1.Writer.Write(self, b) (err)
  event w
fn internal/protocol/http1.Serializer.crlf(d) ()
  aux
  modifies grow(d.buff)
  ensures app: bytes(d.buff) == old(bytes(d.buff)) ++ "\r\n"
fn internal/protocol/http1.Serializer.sp(d) ()
  aux
  modifies grow(d.buff)
  ensures app: bytes(d.buff) == old(bytes(d.buff)) ++ " "
fn internal/protocol/http1.Serializer.colonsp(d) ()
  aux
  modifies grow(d.buff)
  ensures app: bytes(d.buff) == old(bytes(d.buff)) ++ ": "
fn internal/protocol/http1.Serializer.renderHeader(d, header) ()
  modifies grow(d.buff)
  ensures line: bytes(d.buff) == old(bytes(d.buff)) ++ header.Key ++ ": " ++ header.Value ++ "\r\n"
fn internal/protocol/http1.Serializer.renderKnownHeader(d, key, value) ()
  modifies grow(d.buff)
  ensures line: bytes(d.buff) == old(bytes(d.buff)) ++ key ++ value ++ "\r\n"
def protostr(p: Int): String = if p == 2 then "HTTP/1.0 " else if p == 4 then "HTTP/1.1 " else if p == 8 then "HTTP/2 " else ""
fn internal/protocol/http1.Serializer.renderProtocol(d, protocol) ()
  modifies grow(d.buff)
  ensures app: bytes(d.buff) == old(bytes(d.buff)) ++ protostr(protocol)
fn internal/protocol/http1.Serializer.renderContentLength(d, value) ()
  modifies grow(d.buff)
  ensures line: bytes(d.buff) == old(bytes(d.buff)) ++ "Content-Length: " ++ app("itoa", "String", value) ++ "\r\n"
rec respline(c: Int, s: String): String = if s == "" && statustext(c) != "" then itoa3(c) ++ " " ++ statustext(c) ++ "\r\n" else app("itoa", "String", c) ++ " " ++ (if s == "" then "Unknown Status Code" else s) ++ "\r\n"
fn internal/protocol/http1.Serializer.renderResponseLine(d, fields) ()
  requires fields: fields != nil
  modifies grow(d.buff)
  ensures line: bytes(d.buff) == old(bytes(d.buff)) ++ respline(fields.Code, fields.Status)
def cattr(c: Bool, name: String, v: String): String = if c then "; " ++ name ++ v else ""
extern time.Time.IsZero(self) (r)
  ensures r == app("timezero", "Bool", self.wall, self.ext, self.loc)
extern time.Time.In(self, loc) (r)
  ensures r.wall == app("timein0", "Int", self.wall, self.ext, loc) && r.ext == app("timein1", "Int", self.wall, self.ext, loc) && r.loc == loc
extern time.Time.Format(self, layout) (r)
  ensures r == app("timeformat", "String", self.wall, self.ext, self.loc, layout)
sort Cookies = http/cookie.Cookie
rec cookieline(name: String, v: String, path: String, dom: String, w: Int, e: Int, l: Int, gmt: Int, age: Int, same: String, sec: Bool, hto: Bool): String = "Set-Cookie: " ++ name ++ "=" ++ v ++ cattr(len(path) > 0, "Path=", path) ++ cattr(len(dom) > 0, "Domain=", dom) ++ cattr(!app("timezero", "Bool", w, e, l), "Expires=", app("timeformat", "String", app("timein0", "Int", w, e, gmt), app("timein1", "Int", w, e, gmt), gmt, "Mon, 02 Jan 2006 15:04:05 MST")) ++ cattr(age != 0, "MaxAge=", if age > 0 then app("itoa", "String", age) else "0") ++ cattr(len(same) > 0, "SameSite=", same) ++ cattr(sec, "Secure", "") ++ cattr(hto, "HttpOnly", "") ++ "\r\n"
def ck(c: Cookies, i: Int, gmt: Int): String = (let x = as(at(c, i), "http/cookie.Cookie") in cookieline(x.Name, x.Value, x.Path, x.Domain, x.Expires.wall, x.Expires.ext, ref(x.Expires.loc), gmt, x.MaxAge, x.SameSite, x.Secure, x.HttpOnly))
rec clines(c: Cookies, gmt: Int, i: Int): String = if i <= 0 then "" else clines(c, gmt, i-1) ++ ck(c, i-1, gmt)
fn internal/protocol/http1.Serializer.renderCookie(d, c) ()
  flatappend
  modifies grow(d.buff)
  ensures line: bytes(d.buff) == old(bytes(d.buff)) ++ cookieline(c.Name, c.Value, c.Path, c.Domain, c.Expires.wall, c.Expires.ext, ref(c.Expires.loc), ref(G("internal/protocol/http1.gmt")), c.MaxAge, c.SameSite, c.Secure, c.HttpOnly)
fn internal/protocol/http1.Serializer.renderCookies(d, cookies) ()
  opaque cookieline
  modifies grow(d.buff)
  let gmt = ref(G("internal/protocol/http1.gmt"))
  ensures lines: bytes(d.buff) == old(bytes(d.buff)) ++ clines(seq(cookies), gmt, len(cookies))
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ clines(seq(cookies), gmt, i)
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ clines(seq(cookies), gmt, i+1)
sort Defs = internal/protocol/http1.defaultHeader
def defhdr(x: Bool, k: String, f: String): Defs = unit(mk("internal/protocol/http1.defaultHeader", x, k, f))
def dkey(s: Defs, i: Int): String = as(at(s, i), "internal/protocol/http1.defaultHeader").Key
def dfull(s: Defs, i: Int): String = as(at(s, i), "internal/protocol/http1.defaultHeader").Full
def dexcl(s: Defs, i: Int): Bool = as(at(s, i), "internal/protocol/http1.defaultHeader").Excluded
rec hlines(p: Pairs, i: Int): String = if i <= 0 then "" else hlines(p, i-1) ++ pkey(p, i-1) ++ ": " ++ pval(p, i-1) ++ "\r\n"
rec cleared(s: Defs, i: Int): Defs = if i <= 0 then emptyseq("Defs") else cleared(s, i-1) ++ defhdr(false, dkey(s, i-1), dfull(s, i-1))
rec dfirst(s: Defs, k: String, i: Int): Int = if i >= len(s) || i < 0 then 0-1 else if asciifold(dkey(s, i), k) then i else dfirst(s, k, i+1)
def excl(s: Defs, k: String): Defs = (let i = dfirst(s, k, 0) in if i >= 0 then upto(s, i) ++ defhdr(true, dkey(s, i), dfull(s, i)) ++ from(s, i+1) else s)
rec exclall(s: Defs, p: Pairs, i: Int): Defs = if i <= 0 then s else excl(exclall(s, p, i-1), pkey(p, i-1))
rec dlines(s: Defs, i: Int): String = if i <= 0 then "" else dlines(s, i-1) ++ (if dexcl(s, i-1) then "" else dfull(s, i-1))
fn internal/protocol/http1.defaultHeaders.Reset(d) ()
  modifies bytes(d)
  ensures back: seq(d) == cleared(old(seq(d)), len(d))
  inv [i:int] seq(d) == cleared(old(seq(d)), i) ++ from(old(seq(d)), i)
  inv [i:int] seq(d) == cleared(old(seq(d)), i+1) ++ from(old(seq(d)), i+1)
fn internal/protocol/http1.defaultHeaders.Exclude(d, key) ()
  modifies bytes(d)
  ensures first: seq(d) == excl(old(seq(d)), key)
  inv seq(d) == old(seq(d))
  inv [i:int] dfirst(seq(d), key, 0) == dfirst(seq(d), key, i)
  inv [i:int] dfirst(seq(d), key, 0) == dfirst(seq(d), key, i+1)
fn internal/protocol/http1.Serializer.renderHeaders(d, fields) ()
  requires fields: fields != nil
  modifies grow(d.buff), bytes(d.defaultHeaders)
  let h = seq(fields.Headers)
  let defs = exclall(seq(d.defaultHeaders), h, len(h))
  ensures lines: bytes(d.buff) == old(bytes(d.buff)) ++ hlines(h, len(h)) ++ dlines(defs, len(defs)) ++ "Content-Type: " ++ fields.ContentType ++ "\r\n" ++ (if fields.TransferEncoding != "" then "Transfer-Encoding: " ++ fields.TransferEncoding ++ "\r\n" else "")
  ensures marks: seq(d.defaultHeaders) == defs && d.defaultHeaders == old(d.defaultHeaders)
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ hlines(h, i) && seq(d.defaultHeaders) == exclall(old(seq(d.defaultHeaders)), h, i)
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ hlines(h, i+1) && seq(d.defaultHeaders) == exclall(old(seq(d.defaultHeaders)), h, i+1)
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ hlines(h, len(h)) ++ dlines(defs, i) && seq(d.defaultHeaders) == defs
  inv [i:int] bytes(d.buff) == old(bytes(d.buff)) ++ hlines(h, len(h)) ++ dlines(defs, i+1) && seq(d.defaultHeaders) == defs
  inv d.defaultHeaders == old(d.defaultHeaders)
extern io.Reader.Read(self, b) (n, err)
  event r post
  modifies bytes(b)
  ensures 0 <= n && n <= len(b)
sort Writes = tr:internal/protocol/http1.Writer.Write
sort Rds = tr:io.Reader.Read
def rdn(t: Rds, i: Int): Int = evfield("io.Reader.Read", t, i, 3)
def rdata(t: Rds, i: Int): String = upto(evfield("io.Reader.Read", t, i, 2), rdn(t, i))
rec catw(t: Writes): String = if len(t) <= 0 then "" else catw(upto(t, len(t)-1)) ++ evfield("internal/protocol/http1.Writer.Write", t, len(t)-1, 2)
rec catrd(t: Rds): String = if len(t) <= 0 then "" else catrd(upto(t, len(t)-1)) ++ rdata(t, len(t)-1)
def chunk(n: Int, data: String): String = if n > 0 then app("formatint", "String", n, 16) ++ "\r\n" ++ data ++ "\r\n" else ""
rec chunks(t: Rds): String = if len(t) <= 0 then "" else chunks(upto(t, len(t)-1)) ++ chunk(rdn(t, len(t)-1), rdata(t, len(t)-1))
rec okrds(t: Rds): Bool = len(t) <= 0 || (okrds(upto(t, len(t)-1)) && evfield("io.Reader.Read", t, len(t)-1, 4) == 0)
def toeof(t: Rds): Bool = len(t) > 0 && okrds(upto(t, len(t)-1)) && evfield("io.Reader.Read", t, len(t)-1, 4) == G("io.EOF").tag && evfield("io.Reader.Read", t, len(t)-1, 5) == G("io.EOF").data
fn internal/protocol/http1.Serializer.writePlainBody(d, r, writer) (err)
  requires live: r != nil && writer != nil
  modifies bytes(d.fileBuff), tr("io.Reader.Read"), tr("internal/protocol/http1.Writer.Write")
  ensures whole: err == nil ==> catw(tr("internal/protocol/http1.Writer.Write")) == catrd(tr("io.Reader.Read")) && toeof(tr("io.Reader.Read"))
  ensures broken: err != nil ==> err == G("http/status.ErrCloseConnection")
  inv catw(tr("internal/protocol/http1.Writer.Write")) == catrd(tr("io.Reader.Read"))
  inv okrds(tr("io.Reader.Read"))
fn internal/protocol/http1.Serializer.writeChunkedBody(d, r, writer) (err)
  requires live: r != nil && writer != nil
  requires buffer: len(d.fileBuff) >= 16 && len(d.fileBuff) < 4294967296 && ref(d.fileBuff) != ref(G("internal/protocol/http1.chunkedFinalizer"))
  modifies bytes(d.fileBuff), tr("io.Reader.Read"), tr("internal/protocol/http1.Writer.Write")
  ensures whole: err == nil ==> catw(tr("internal/protocol/http1.Writer.Write")) == chunks(tr("io.Reader.Read")) ++ "0\r\n\r\n" && toeof(tr("io.Reader.Read"))
  inv catw(tr("internal/protocol/http1.Writer.Write")) == chunks(tr("io.Reader.Read"))
  inv okrds(tr("io.Reader.Read"))
fn internal/protocol/http1.Serializer.clear(d) ()
  modifies d.buff, bytes(d.defaultHeaders)
  ensures cleared: len(d.buff) == 0 && ref(d.buff) == old(ref(d.buff)) && off(d.buff) == old(off(d.buff)) && cap(d.buff) == old(cap(d.buff)) && seq(d.defaultHeaders) == cleared(old(seq(d.defaultHeaders)), len(d.defaultHeaders))
def keepalive(p: Int, conn: String): Bool = if p == 2 then asciifold(conn, "keep-alive") else p == 4 && !asciifold(conn, "close")
fn internal/protocol/http1.isKeepAlive(protocol, req) (r)
  ensures def: r == keepalive(protocol, req.Connection)
def hdrs(h: Pairs, d: Defs, ct: String, te: String): String = hlines(h, len(h)) ++ dlines(d, len(d)) ++ "Content-Type: " ++ ct ++ "\r\n" ++ (if te != "" then "Transfer-Encoding: " ++ te ++ "\r\n" else "")
fn internal/protocol/http1.Serializer.PreWrite(d, protocol, response) ()
  opaque respline
  requires live: response != nil && response.fields != nil
  modifies grow(d.buff), bytes(d.defaultHeaders)
  let f = response.fields
  let defs = exclall(seq(d.defaultHeaders), seq(f.Headers), len(f.Headers))
  ensures head: bytes(d.buff) == old(bytes(d.buff)) ++ protostr(protocol) ++ respline(f.Code, f.Status) ++ hdrs(seq(f.Headers), defs, f.ContentType, f.TransferEncoding) ++ "\r\n"
fn internal/protocol/http1.Serializer.sendBody(d, fields) (err)
  aux
  opaque cookieline respline
  requires live: fields != nil && d.request != nil && d.writer != nil
  requires separate: ref(fields.Body) != ref(d.buff)
  modifies grow(d.buff), bytes(d.defaultHeaders), tr("internal/protocol/http1.Writer.Write")
  let gmt = ref(G("internal/protocol/http1.gmt"))
  let defs = exclall(seq(d.defaultHeaders), seq(fields.Headers), len(fields.Headers))
  let text = bytes(d.buff) ++ hdrs(seq(fields.Headers), defs, fields.ContentType, fields.TransferEncoding) ++ clines(seq(fields.Cookies), gmt, len(fields.Cookies)) ++ "Content-Length: " ++ app("itoa", "String", len(fields.Body)) ++ "\r\n\r\n" ++ (if d.request.Method == 2 then "" else bytes(fields.Body))
  ensures once: len(tr("internal/protocol/http1.Writer.Write")) == 1 && order() == "w" && evarg("internal/protocol/http1.Writer.Write", 0, "b") == text && evarg("internal/protocol/http1.Writer.Write", 0, "self") == d.writer && err == evarg("internal/protocol/http1.Writer.Write", 0, "err")
  ensures defs: d.defaultHeaders == old(d.defaultHeaders) && seq(d.defaultHeaders) == defs
fn internal/protocol/http1.Serializer.sendAttachment(d, request, response, writer) (err)
  opaque cookieline respline
  requires live: request != nil && response != nil && response.fields != nil && writer != nil && response.fields.Attachment.content != nil
  requires buffer: if len(d.fileBuff) == 0 then d.fileBuffSize >= 16 && d.fileBuffSize < 4294967296 else len(d.fileBuff) >= 16 && len(d.fileBuff) < 4294967296 && ref(d.fileBuff) != ref(G("internal/protocol/http1.chunkedFinalizer"))
  modifies grow(d.buff), bytes(d.defaultHeaders), d.fileBuff, bytes(d.fileBuff), response.fields.TransferEncoding, tr("internal/protocol/http1.Writer.Write"), tr("io.Reader.Read"), tr("io.Closer.Close")
  let f = response.fields
  let gmt = ref(G("internal/protocol/http1.gmt"))
  let defs = exclall(seq(d.defaultHeaders), seq(f.Headers), len(f.Headers))
  let size = f.Attachment.size
  let text = bytes(d.buff) ++ hdrs(seq(f.Headers), defs, f.ContentType, if size > 0 then f.TransferEncoding else "chunked") ++ (if size > 0 then "Content-Length: " ++ app("itoa", "String", size) ++ "\r\n" else "") ++ clines(seq(f.Cookies), gmt, len(f.Cookies)) ++ "\r\n"
  post sent = evarg("internal/protocol/http1.Writer.Write", 0, "err") == nil
  ensures head: len(tr("internal/protocol/http1.Writer.Write")) >= 1 && evarg("internal/protocol/http1.Writer.Write", 0, "b") == text
  ensures headonly: (request.Method == 2 || !sent) ==> len(tr("internal/protocol/http1.Writer.Write")) == 1 && len(tr("io.Reader.Read")) == 0
  ensures result: !sent ==> err == G("http/status.ErrCloseConnection")
  ensures result-head: sent && request.Method == 2 ==> err == nil
  ensures plain: err == nil && request.Method != 2 && size > 0 ==> catw(from(tr("internal/protocol/http1.Writer.Write"), 1)) == catrd(tr("io.Reader.Read")) && toeof(tr("io.Reader.Read"))
  ensures chunked: err == nil && request.Method != 2 && size <= 0 ==> catw(from(tr("internal/protocol/http1.Writer.Write"), 1)) == chunks(tr("io.Reader.Read")) ++ "0\r\n\r\n" && toeof(tr("io.Reader.Read"))
  ensures closed: len(tr("io.Closer.Close")) == (if implements(f.Attachment.content, "io.Closer") then 1 else 0) && (implements(f.Attachment.content, "io.Closer") ==> suffixof("C", order()))
  ensures defs: d.defaultHeaders == old(d.defaultHeaders) && seq(d.defaultHeaders) == defs
lemma dfirstrange(s: Defs, k: String, i: Int)
  requires 0 <= i
  measure len(s) - i
  use dfirstrange(s, k, i+1)
  ensures dfirst(s, k, i) >= 0-1 && dfirst(s, k, i) < len(s)
lemma clearedexcl(s: Defs, k: String, i: Int)
  requires 0 <= i && i <= len(s)
  measure i
  use clearedexcl(s, k, i-1)
  use dfirstrange(s, k, 0)
  ensures cleared(excl(s, k), i) == cleared(s, i) && len(excl(s, k)) == len(s)
lemma clearedall(s: Defs, p: Pairs, j: Int)
  requires 0 <= j
  measure j
  use clearedall(s, p, j-1)
  use clearedexcl(exclall(s, p, j-1), pkey(p, j-1), len(s))
  ensures cleared(exclall(s, p, j), len(s)) == cleared(s, len(s)) && len(exclall(s, p, j)) == len(s)
rec allon(s: Defs, i: Int): Bool = i <= 0 || (allon(s, i-1) && !dexcl(s, i-1))
lemma clearedon(s: Defs, i: Int)
  requires 0 <= i && i <= len(s) && allon(s, i)
  measure i
  use clearedon(s, i-1)
  ensures cleared(s, i) == upto(s, i)
fn internal/protocol/http1.Serializer.Write(d, protocol, response) (err)
  opaque cookieline respline
  requires live: d.request != nil && d.writer != nil && response != nil && response.fields != nil
  requires separate: ref(response.fields.Body) != ref(d.buff)
  requires buffer: if len(d.fileBuff) == 0 then d.fileBuffSize >= 16 && d.fileBuffSize < 4294967296 else len(d.fileBuff) >= 16 && len(d.fileBuff) < 4294967296 && ref(d.fileBuff) != ref(G("internal/protocol/http1.chunkedFinalizer"))
  modifies grow(d.buff), bytes(d.defaultHeaders), d.fileBuff, bytes(d.fileBuff), response.fields.TransferEncoding, tr("internal/protocol/http1.Writer.Write"), tr("io.Reader.Read"), tr("io.Closer.Close")
  let f = response.fields
  let gmt = ref(G("internal/protocol/http1.gmt"))
  let defs = exclall(seq(d.defaultHeaders), seq(f.Headers), len(f.Headers))
  let size = f.Attachment.size
  let att = f.Attachment.content != nil
  let head = bytes(d.buff) ++ protostr(protocol) ++ respline(f.Code, f.Status)
  let cookies = clines(seq(f.Cookies), gmt, len(f.Cookies))
  let whole = head ++ hdrs(seq(f.Headers), defs, f.ContentType, f.TransferEncoding) ++ cookies ++ "Content-Length: " ++ app("itoa", "String", len(f.Body)) ++ "\r\n\r\n" ++ (if d.request.Method == 2 then "" else bytes(f.Body))
  let atthead = head ++ hdrs(seq(f.Headers), defs, f.ContentType, if size > 0 then f.TransferEncoding else "chunked") ++ (if size > 0 then "Content-Length: " ++ app("itoa", "String", size) ++ "\r\n" else "") ++ cookies ++ "\r\n"
  let defs0 = seq(d.defaultHeaders)
  let close = !keepalive(protocol, d.request.Connection) && d.request.Upgrade == 0
  ensures body: !att ==> len(tr("internal/protocol/http1.Writer.Write")) == 1 && evarg("internal/protocol/http1.Writer.Write", 0, "b") == whole && order() == "w"
  ensures attachment-head: att ==> len(tr("internal/protocol/http1.Writer.Write")) >= 1 && evarg("internal/protocol/http1.Writer.Write", 0, "b") == atthead
  ensures attachment-plain: att && err == nil && d.request.Method != 2 && size > 0 ==> catw(from(tr("internal/protocol/http1.Writer.Write"), 1)) == catrd(tr("io.Reader.Read")) && toeof(tr("io.Reader.Read"))
  ensures attachment-chunked: att && err == nil && d.request.Method != 2 && size <= 0 ==> catw(from(tr("internal/protocol/http1.Writer.Write"), 1)) == chunks(tr("io.Reader.Read")) ++ "0\r\n\r\n" && toeof(tr("io.Reader.Read"))
  ensures head-request: att && d.request.Method == 2 ==> len(tr("internal/protocol/http1.Writer.Write")) == 1 && len(tr("io.Reader.Read")) == 0
  ensures closed: len(tr("io.Closer.Close")) == (if att && implements(f.Attachment.content, "io.Closer") then 1 else 0)
  ensures last: close ==> err == G("http/status.ErrCloseConnection")
  ensures result: !close && !att ==> err == evarg("internal/protocol/http1.Writer.Write", 0, "err")
  ensures result-attachment: !close && att && evarg("internal/protocol/http1.Writer.Write", 0, "err") != nil ==> err == G("http/status.ErrCloseConnection")
  ensures ready: len(d.buff) == 0 && d.defaultHeaders == old(d.defaultHeaders) && seq(d.defaultHeaders) == cleared(defs, len(d.defaultHeaders))
  ensures defaults-back: allon(defs0, len(defs0)) ==> seq(d.defaultHeaders) == defs0
  hint clearedall(defs0, seq(f.Headers), len(f.Headers))
  hint clearedon(defs0, len(defs0))
