prop C25  # request recycling
extern http.Body.Discard(self) (err)
  event D
extern internal/tcp.Client.Remote(self) (a)
  event A
fn http/query.New(underlying) (q)
  ensures blank: q != nil && fresh(q) && !q.parsed && len(q.raw) == 0 && q.params == underlying && q.err == nil
fn http/query.Query.Set(q, raw) ()
  requires live: q.params != nil
  modifies q.raw, q.parsed, q.params.pairs
  ensures set: q.raw == raw && !q.parsed
  ensures forgotten: old(q.parsed) ==> len(q.params.pairs) == 0
  ensures kept: !old(q.parsed) ==> q.params.pairs == old(q.params.pairs)
fn http/query.Query.Raw(q) (raw)
  ensures raw: raw == q.raw
fn http.NewRequest(cfg, hdrs, query, response, client, body, params) (r)
  requires live: client != nil
  modifies tr("internal/tcp.Client.Remote")
  ensures wired: r != nil && fresh(r) && r.Headers == hdrs && r.Query == query && r.response == response && r.client == client && r.Body == body && r.Params == params
  ensures blank: r.ContentLength == 0 && r.ContentType == "" && r.Connection == "" && r.Upgrade == 0 && r.Proto == 4 && !r.wasHijacked && r.Env.Error == nil && r.Env.AllowedMethods == "" && r.Env.AliasFrom == "" && r.Env.Encryption == 0 && r.Ctx == G("http.zeroContext") && !r.Encoding.Chunked && !r.Encoding.HasTrailer
  ensures remote: evarg("internal/tcp.Client.Remote", 0, "self") == client && r.Remote == evarg("internal/tcp.Client.Remote", 0, "a")
fn http.Request.Respond(r) (x)
  requires live: r.response != nil && r.response.fields != nil
  modifies r.response.fields.Code, r.response.fields.Status, r.response.fields.ContentType, r.response.fields.TransferEncoding, r.response.fields.Headers, r.response.fields.Body, r.response.fields.Cookies, r.response.fields.Attachment
  ensures blank: x == r.response && x.fields.Code == 200 && x.fields.Status == "" && x.fields.ContentType == "text/html" && x.fields.TransferEncoding == "" && len(x.fields.Headers) == 0 && len(x.fields.Body) == 0 && len(x.fields.Cookies) == 0 && x.fields.Attachment.content == nil
fn http.Request.WasHijacked(r) (h)
  ensures flag: h == r.wasHijacked
fn http.Request.Hijack(r) (c, err)
  requires live: r.Body != nil
  modifies r.wasHijacked, tr("http.Body.Discard")
  ensures drained: order() == "D" && evarg("http.Body.Discard", 0, "self") == r.Body
  ensures failed: evarg("http.Body.Discard", 0, "err") != nil ==> err == evarg("http.Body.Discard", 0, "err") && r.wasHijacked == old(r.wasHijacked) && c == nil
  ensures hijacked: evarg("http.Body.Discard", 0, "err") == nil ==> err == nil && r.wasHijacked && c == r.client
fn http.Request.Clear(r) (err)
  requires live: r.Body != nil && r.Query != nil && r.Query.params != nil && r.Params != nil && r.Headers != nil
  modifies r.ContentLength, r.Encoding, r.ContentType, r.Connection, r.Upgrade, r.Ctx, r.Env, r.Query.raw, r.Query.parsed, r.Query.params.pairs, r.Params.pairs, r.Headers.pairs, tr("http.Body.Discard")
  ensures drained: order() == "D" && evarg("http.Body.Discard", 0, "self") == r.Body && err == evarg("http.Body.Discard", 0, "err")
  ensures target: err == nil ==> len(r.Query.raw) == 0 && !r.Query.parsed && (old(r.Query.parsed) ==> len(r.Query.params.pairs) == 0) && len(r.Params.pairs) == 0
  ensures headers: err == nil ==> len(r.Headers.pairs) == 0 && r.ContentLength == 0 && r.ContentType == "" && r.Connection == "" && r.Upgrade == 0
  ensures encoding: err == nil ==> !r.Encoding.Chunked && !r.Encoding.HasTrailer && len(r.Encoding.Transfer) == 0 && len(r.Encoding.Content) == 0
  ensures context: err == nil ==> r.Ctx == G("http.zeroContext") && r.Env.Error == nil && r.Env.AllowedMethods == "" && r.Env.AliasFrom == ""
  ensures connection: r.Env.Encryption == old(r.Env.Encryption)
rec ckallok(v: Strs, i: Int): Bool = i < 0 || i >= len(v) || (ckok(at(v, i)) && ckallok(v, i+1))
rec ckall(v: Strs, i: Int): Pairs = if i <= 0 then emptyseq("Pairs") else ckall(v, i-1) ++ ckpairs(at(v, i-1))
fn http.Request.Cookies(r) (jar, err)
  opaque ckok ckpairs
  requires live: r.cfg != nil && r.Headers != nil && r.jar != r.Headers && 0 <= r.cfg.Headers.CookiesPreAllocate && r.cfg.Headers.CookiesPreAllocate <= 1099511627776
  modifies r.jar, r.jar.pairs, anymem("internal/keyvalue.Pair"), r.Headers.valuesBuff, anymem("string")
  let vs = vals(seq(r.Headers.pairs), "cookie", len(r.Headers.pairs))
  ensures accepts: err == nil <==> ckallok(vs, 0)
  ensures rejects-with: err != nil ==> err == G("http/cookie.ErrBadCookie") && jar == nil
  ensures pairs: err == nil ==> jar == r.jar && jar != nil && seq(jar.pairs) == ckall(vs, len(vs))
  inv [i:int] ckallok(vs, 0) == ckallok(vs, i) && seq(r.jar.pairs) == ckall(vs, i)
  inv [i:int] ckallok(vs, 0) == ckallok(vs, i+1) && seq(r.jar.pairs) == ckall(vs, i+1)
