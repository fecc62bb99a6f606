prop C22  # request bodies
extern internal/tcp.Client.Read(self) (data, err)
  event R
extern internal/tcp.Client.Unread(self, b) ()
  event U
extern github.com/indigo-web/chunkedbody.Parser.Parse(self, data, trailer) (chunk, extra, err)
  event P
fn internal/protocol/http1.plainBodyReader.init(p, request) ()
  requires request: request != nil && request.ContentLength >= 0
  modifies p.bytesLeft
  ensures length: p.bytesLeft == request.ContentLength
fn internal/protocol/http1.plainBodyReader.read(p) (body, err)
  requires client: p.client != nil && p.bytesLeft >= 0
  modifies p.bytesLeft, tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread")
  let n = p.bytesLeft
  post d = evarg("internal/tcp.Client.Read", 0, "data")
  post ok = n > 0 && evarg("internal/tcp.Client.Read", 0, "err") == nil
  ensures counts: len(tr("internal/tcp.Client.Read")) == (if n == 0 then 0 else 1) && len(tr("internal/tcp.Client.Unread")) == (if order() == "RU" then 1 else 0)
  ensures complete: n == 0 ==> err == G("io.EOF") && len(body) == 0 && order() == "" && p.bytesLeft == 0
  ensures reads-once: n > 0 ==> (order() == "R" || order() == "RU") && evarg("internal/tcp.Client.Read", 0, "self") == p.client
  ensures broken: n > 0 && !ok ==> err != nil && err != G("io.EOF") && (evarg("internal/tcp.Client.Read", 0, "err") != G("io.EOF") ==> err == evarg("internal/tcp.Client.Read", 0, "err")) && len(body) == 0 && order() == "R" && p.bytesLeft == n
  ensures limit: ok && n > p.maxBodyLen ==> err == G("http/status.ErrBodyTooLarge") && len(body) == 0 && order() == "R"
  ensures piece: ok && n <= p.maxBodyLen && len(d) < n ==> err == nil && bytes(body) == d && p.bytesLeft == n - len(d) && order() == "R"
  ensures last-piece: ok && n <= p.maxBodyLen && len(d) >= n ==> err == G("io.EOF") && bytes(body) == upto(d, n) && p.bytesLeft == 0 && order() == "RU" && evarg("internal/tcp.Client.Unread", 0, "b") == from(d, n) && evarg("internal/tcp.Client.Unread", 0, "self") == p.client
fn internal/protocol/http1.chunkedBodyReader.init(c, request) ()
  requires request: request != nil
  modifies c.encoding, c.received
  ensures reset: c.received == 0 && c.encoding.HasTrailer == request.Encoding.HasTrailer
fn internal/protocol/http1.chunkedBodyReader.read(c) (body, err)
  requires live: c.client != nil && c.parser != nil
  modifies c.received, tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  let n = c.received
  post rerr = evarg("internal/tcp.Client.Read", 0, "err")
  post perr = evarg("github.com/indigo-web/chunkedbody.Parser.Parse", 0, "err")
  post chunk = evarg("github.com/indigo-web/chunkedbody.Parser.Parse", 0, "chunk")
  ensures broken: rerr != nil ==> err != nil && err != G("io.EOF") && (rerr != G("io.EOF") ==> err == rerr) && len(body) == 0 && order() == "R" && c.received == n
  ensures counts: len(tr("internal/tcp.Client.Read")) == 1 && len(tr("github.com/indigo-web/chunkedbody.Parser.Parse")) == (if rerr == nil then 1 else 0)
  ensures parses: rerr == nil ==> (order() == "RP" || order() == "RPU") && evarg("github.com/indigo-web/chunkedbody.Parser.Parse", 0, "data") == evarg("internal/tcp.Client.Read", 0, "data")
  ensures malformed: rerr == nil && perr != nil && perr != G("io.EOF") ==> err == perr && len(body) == 0
  ensures limit: rerr == nil && (perr == nil || perr == G("io.EOF")) && n + len(chunk) > c.maxBodyLen ==> err == G("http/status.ErrBodyTooLarge") && len(body) == 0
  ensures piece: rerr == nil && (perr == nil || perr == G("io.EOF")) && n + len(chunk) <= c.maxBodyLen ==> err == perr && bytes(body) == chunk && c.received == n + len(chunk) && order() == "RPU" && evarg("internal/tcp.Client.Unread", 0, "b") == evarg("github.com/indigo-web/chunkedbody.Parser.Parse", 0, "extra")
fn internal/protocol/http1.adduint(x, y) (s, overflow)
  aux
  ensures flag: overflow <==> x + y > 18446744073709551615
  ensures sum: !overflow ==> s == x + y
sort Reads = tr:internal/tcp.Client.Read
sort Chunks = tr:github.com/indigo-web/chunkedbody.Parser.Parse
rec catr(t: Reads): String = if len(t) <= 0 then "" else catr(upto(t, len(t)-1)) ++ evfield("internal/tcp.Client.Read", t, len(t)-1, 2)
rec catc(t: Chunks): String = if len(t) <= 0 then "" else catc(upto(t, len(t)-1)) ++ evfield("github.com/indigo-web/chunkedbody.Parser.Parse", t, len(t)-1, 3)
fn internal/protocol/http1.Body.Init(b, request) ()
  requires live: request != nil && request.ContentLength >= 0 && b.Reader != nil
  modifies b.isChunked, b.contentLength, b.eof, b.fullBodyBuff, b.plain, b.chunked, b.Reader.pending, b.Reader.error
  ensures kind: b.isChunked == request.Encoding.Chunked && b.contentLength == request.ContentLength && !b.eof
  ensures plain: !b.isChunked ==> b.plain.bytesLeft == request.ContentLength && b.plain.client == old(b.plain.client) && b.plain.maxBodyLen == old(b.plain.maxBodyLen)
  ensures chunked: b.isChunked ==> b.chunked.received == 0 && b.chunked.client == old(b.chunked.client) && b.chunked.parser == old(b.chunked.parser) && b.chunked.maxBodyLen == old(b.chunked.maxBodyLen)
  ensures nothing-stashed: len(b.Reader.pending) == 0 && b.Reader.error == nil
  ensures no-stale-body: len(b.fullBodyBuff) == 0
fn internal/protocol/http1.Body.Retrieve(b) (data, err)
  requires live: b.plain.client != nil && b.chunked.client != nil && b.chunked.parser != nil && b.plain.bytesLeft >= 0
  modifies b.eof, b.plain.bytesLeft, b.chunked.received, tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  let n = b.plain.bytesLeft
  let max = b.plain.maxBodyLen
  let plain = !b.eof && !b.isChunked
  post d = evarg("internal/tcp.Client.Read", 0, "data")
  post ok = evarg("internal/tcp.Client.Read", 0, "err") == nil
  ensures sticky: old(b.eof) ==> err == G("io.EOF") && len(data) == 0 && order() == ""
  ensures end: b.eof <==> err == G("io.EOF")
  ensures left: b.plain.bytesLeft >= 0
  ensures reads: len(tr("internal/tcp.Client.Read")) == (if old(b.eof) || (plain && n == 0) then 0 else 1)
  ensures plain-empty: plain && n == 0 ==> err == G("io.EOF") && len(data) == 0
  ensures plain-broken: plain && n > 0 && !ok ==> err != nil && err != G("io.EOF") && len(data) == 0
  ensures plain-limit: plain && n > 0 && ok && n > max ==> err == G("http/status.ErrBodyTooLarge")
  ensures plain-piece: plain && n > 0 && ok && n <= max && len(d) < n ==> err == nil && bytes(data) == d && b.plain.bytesLeft == n - len(d)
  ensures plain-last: plain && n > 0 && ok && n <= max && len(d) >= n ==> err == G("io.EOF") && bytes(data) == upto(d, n) && b.plain.bytesLeft == 0 && len(tr("internal/tcp.Client.Unread")) == 1 && evarg("internal/tcp.Client.Unread", 0, "b") == from(d, n)
  ensures chunked: !old(b.eof) && b.isChunked && (err == nil || err == G("io.EOF")) ==> len(tr("github.com/indigo-web/chunkedbody.Parser.Parse")) == 1 && bytes(data) == evarg("github.com/indigo-web/chunkedbody.Parser.Parse", 0, "chunk")
fn internal/protocol/http1.Body.Discard(b) (err)
  requires live: b.plain.client != nil && b.chunked.client != nil && b.chunked.parser != nil && b.plain.bytesLeft >= 0
  modifies b.eof, b.plain.bytesLeft, b.chunked.received, tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  ensures drained: err == nil <==> b.eof
  ensures nothing-left: old(b.eof) ==> order() == ""
  inv b.plain.bytesLeft >= 0
  inv old(b.eof) ==> b.eof && order() == ""
  inv [e:error] e == nil
fn internal/protocol/http1.Body.Bytes(b) (r, err)
  requires live: b.plain.client != nil && b.chunked.client != nil && b.chunked.parser != nil && b.plain.bytesLeft >= 0
  requires sizes: 0 <= b.contentLength && b.contentLength <= 1099511627776
  modifies b.eof, b.plain.bytesLeft, b.chunked.received, b.fullBodyBuff, bytes(b.fullBodyBuff), tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  let n = b.plain.bytesLeft
  ensures again: old(b.eof) ==> err == nil && r == old(b.fullBodyBuff) && order() == ""
  ensures whole: err == nil ==> b.eof && r == b.fullBodyBuff
  ensures plain: err == nil && !old(b.eof) && !b.isChunked ==> bytes(r) == upto(catr(tr("internal/tcp.Client.Read")), n) && len(r) == n
  ensures chunked: err == nil && !old(b.eof) && b.isChunked ==> bytes(r) == catc(tr("github.com/indigo-web/chunkedbody.Parser.Parse"))
  inv b.plain.bytesLeft >= 0 && !b.eof
  inv !b.isChunked ==> bytes(b.fullBodyBuff) == catr(tr("internal/tcp.Client.Read")) && len(b.fullBodyBuff) + b.plain.bytesLeft == n
  inv b.isChunked ==> bytes(b.fullBodyBuff) == catc(tr("github.com/indigo-web/chunkedbody.Parser.Parse"))
  inv ref(b.fullBodyBuff) == old(ref(b.fullBodyBuff)) ==> off(b.fullBodyBuff) == old(off(b.fullBodyBuff)) && cap(b.fullBodyBuff) == old(cap(b.fullBodyBuff))
  inv ref(b.fullBodyBuff) != old(ref(b.fullBodyBuff)) ==> fresh(b.fullBodyBuff)
fn internal/protocol/http1.Body.String(b) (r, err)
  requires live: b.plain.client != nil && b.chunked.client != nil && b.chunked.parser != nil && b.plain.bytesLeft >= 0
  requires sizes: 0 <= b.contentLength && b.contentLength <= 1099511627776
  modifies b.eof, b.plain.bytesLeft, b.chunked.received, b.fullBodyBuff, bytes(b.fullBodyBuff), tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  let n = b.plain.bytesLeft
  ensures plain: err == nil && !old(b.eof) && !b.isChunked ==> r == upto(catr(tr("internal/tcp.Client.Read")), n) && len(r) == n
  ensures chunked: err == nil && !old(b.eof) && b.isChunked ==> r == catc(tr("github.com/indigo-web/chunkedbody.Parser.Parse"))
extern http.OnBodyCallback(self, data) (err)
  event C
sort Calls = tr:http.OnBodyCallback
rec catcb(t: Calls): String = if len(t) <= 0 then "" else catcb(upto(t, len(t)-1)) ++ evfield("http.OnBodyCallback", t, len(t)-1, 1)
fn internal/protocol/http1.Body.Callback(b, cb) (err)
  requires live: cb != nil && b.plain.client != nil && b.chunked.client != nil && b.chunked.parser != nil && b.plain.bytesLeft >= 0
  modifies b.eof, b.plain.bytesLeft, b.chunked.received, tr("http.OnBodyCallback"), tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("github.com/indigo-web/chunkedbody.Parser.Parse")
  let n = b.plain.bytesLeft
  ensures whole: err == nil ==> b.eof
  ensures plain: err == nil && !old(b.eof) && !b.isChunked ==> catcb(tr("http.OnBodyCallback")) == upto(catr(tr("internal/tcp.Client.Read")), n)
  ensures chunked: err == nil && !old(b.eof) && b.isChunked ==> catcb(tr("http.OnBodyCallback")) == catc(tr("github.com/indigo-web/chunkedbody.Parser.Parse"))
  inv b.plain.bytesLeft >= 0
  inv old(b.eof) || !b.eof
  inv !old(b.eof) && !b.isChunked ==> catcb(tr("http.OnBodyCallback")) == catr(tr("internal/tcp.Client.Read")) && len(catcb(tr("http.OnBodyCallback"))) + b.plain.bytesLeft == n
  inv !old(b.eof) && b.isChunked ==> catcb(tr("http.OnBodyCallback")) == catc(tr("github.com/indigo-web/chunkedbody.Parser.Parse"))
fn internal/protocol/http1.NewBody(client, chunkedParser, s) (b)
  ensures wired: b != nil && fresh(b) && b.plain.client == client && b.chunked.client == client && b.chunked.parser == chunkedParser && b.plain.maxBodyLen == s.MaxSize && b.chunked.maxBodyLen == s.MaxSize && b.Reader != nil
