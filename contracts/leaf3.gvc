prop C06  # stash reader
extern internal/stash.Retriever(self) (data, err)
  event R
fn internal/stash.New(source) (r)
  ensures source: r != nil && r.source == source && fresh(r)
  ensures empty: len(r.pending) == 0 && r.error == nil
fn internal/stash.Reader.Reset(r) ()
  modifies r.pending, r.error
  ensures dropped: len(r.pending) == 0 && r.error == nil
fn internal/stash.Reader.Read(r, b) (n, err)
  requires source: r.source != nil
  let called = old(len(r.pending)) == 0 && old(r.error) == nil
  post data = if called then evarg("internal/stash.Retriever", 0, "data") else old(bytes(r.pending))
  post m = if len(b) < len(data) then len(b) else len(data)
  modifies r.pending, r.error, bytes(b), tr("internal/stash.Retriever")
  ensures asks-source-only-when-drained: order() == (if called then "R" else "")
  ensures asks-own-source: called ==> evarg("internal/stash.Retriever", 0, "self") == r.source
  ensures count: n == m
  ensures delivers: bytes(upto(b, n)) == upto(data, n)
  ensures keeps-rest: !called ==> ref(r.pending) == old(ref(r.pending)) && off(r.pending) == old(off(r.pending)) + n && len(r.pending) == old(len(r.pending)) - n
  ensures rest-length: len(r.pending) == len(data) - n
  ensures rest-content: nooverlap(b, r.pending) ==> bytes(r.pending) == from(data, n)
  ensures stored-error: r.error == (if called then evarg("internal/stash.Retriever", 0, "err") else old(r.error))
  inv [i:int] 0 <= i && i <= len(b) && i <= len(r.pending)
  inv [i:int] bytes(upto(b, i)) == upto(if called then evarg("internal/stash.Retriever", 0, "data") else old(bytes(r.pending)), i)
  inv [i:int] nooverlap(b, r.pending) ==> bytes(r.pending) == (if called then evarg("internal/stash.Retriever", 0, "data") else old(bytes(r.pending)))
  ensures error-when-drained: err == (if len(r.pending) == 0 then r.error else nil)

prop C08  # in-memory client
fn internal/tcp/dummy.NewCircularClient(data) (c)
  ensures fields: c != nil && c.data == data && c.pointer == 0 && !c.closed && !c.oneTime && len(c.tmp) == 0 && fresh(c)
fn internal/tcp/dummy.CircularClient.Read(c) (data, err)
  requires chunks: len(c.data) > 0
  requires pointer: 0 <= c.pointer
  let i = if old(c.pointer) >= len(c.data) then 0 else old(c.pointer)
  modifies c.closed, c.tmp, c.pointer
  ensures eof: old(c.closed) ==> err == G("io.EOF") && len(data) == 0 && c.tmp == old(c.tmp) && c.pointer == old(c.pointer)
  ensures ok: !old(c.closed) ==> err == nil
  ensures one-time: c.closed == (old(c.closed) || c.oneTime)
  ensures unread-first: !old(c.closed) && old(len(c.tmp)) > 0 ==> data == old(c.tmp) && len(c.tmp) == 0 && c.pointer == old(c.pointer)
  ensures next-chunk: !old(c.closed) && old(len(c.tmp)) == 0 ==> data == at(c.data, i) && c.pointer == i + 1 && len(c.tmp) == 0
fn internal/tcp/dummy.CircularClient.Unread(c, takeback) ()
  modifies c.tmp
  ensures stored: c.tmp == takeback
fn internal/tcp/dummy.CircularClient.Close(c) (err)
  modifies c.closed
  ensures closed: c.closed && err == nil
fn internal/tcp/dummy.CircularClient.OneTime(c) (r)
  modifies c.oneTime
  ensures armed: r == c && c.oneTime
fn internal/tcp/dummy.SinkholeWriter.Write(s, b) (err)
  modifies s.Data, bytes(s.Data)
  ensures records: err == nil && bytes(s.Data) == old(bytes(s.Data)) ++ old(bytes(b))

prop C05  # length-bucketed map
sort Entries = internal/strlenmap.buckEntry
rec findin(b: Entries, k: String, i: Int): Int = if i >= len(b) || i < 0 then 0-1 else if as(at(b, i), "internal/strlenmap.buckEntry").Key == k then i else findin(b, k, i+1)
lemma findapp(b: Entries, e: Entries, k: String, i: Int)
  requires len(e) == 1 && 0 <= i
  measure len(b) - i
  use findapp(b, e, k, i+1)
  ensures findin(b ++ e, k, i) == (if findin(b, k, i) >= 0 then findin(b, k, i) else if as(at(e, 0), "internal/strlenmap.buckEntry").Key == k && i <= len(b) then len(b) else 0-1)
fn internal/strlenmap.New() (m)
  ensures empty: m != nil && len(m.buckets) == 0 && fresh(m)
fn internal/strlenmap.Map.Get(m, key) (v, found)
  let none = len(key) >= len(m.buckets)
  let b = if none then emptyseq("Entries") else seq(at(m.buckets, len(key)))
  ensures none: none ==> !found
  ensures found: !none ==> (found <==> findin(b, key, 0) >= 0)
  ensures first: !none && found ==> v == as(at(b, findin(b, key, 0)), "internal/strlenmap.buckEntry").Value
  inv [i:int] findin(b, key, 0) == findin(b, key, i+1)
  inv [i:int] findin(b, key, 0) == findin(b, key, i)
fn internal/strlenmap.Map.Insert(m, key, value) ()
  requires separate: (forall i: Int :: (forall j: Int :: 0 <= i && i < j && j < len(m.buckets) ==> cap(at(m.buckets, i)) == 0 || cap(at(m.buckets, j)) == 0 || ref(at(m.buckets, i)) != ref(at(m.buckets, j))))
  modifies m.buckets, seq(m.buckets), anymem("internal/strlenmap.buckEntry")
  inst len(key)
  let had = len(key) < len(m.buckets)
  let b = if had then seq(at(m.buckets, len(key))) else emptyseq("Entries")
  ensures covered: len(m.buckets) > len(key) && len(m.buckets) >= old(len(m.buckets))
  ensures appended: (let n = seq(at(m.buckets, len(key))) in len(n) == len(b) + 1 && upto(n, len(b)) == b && as(at(n, len(b)), "internal/strlenmap.buckEntry").Key == key && as(at(n, len(b)), "internal/strlenmap.buckEntry").Value == value)
  ensures others: (forall l: Int :: 0 <= l && l < len(m.buckets) && l != len(key) ==> seq(at(m.buckets, l)) == (if l < old(len(m.buckets)) then old(seq(at(m.buckets, l))) else emptyseq("Entries")))
  ensures separate: (forall i: Int :: (forall j: Int :: 0 <= i && i < j && j < len(m.buckets) ==> cap(at(m.buckets, i)) == 0 || cap(at(m.buckets, j)) == 0 || ref(at(m.buckets, i)) != ref(at(m.buckets, j))))

prop C10  # content codings
extern http/coding.Constructor(self, buff) (c)
  event K
  ensures c != nil
extern http/coding.Coding.Token(self) (t)
  ensures t == app("token", "String", self)
extern http/coding.Coding.Encode(self, input) (output, err)
  event E
extern http/coding.Coding.Decode(self, input) (output, err)
  event D
fn http/coding.NewManager(buffSize) (m)
  ensures empty: m.codings != nil && m.buffSize == buffSize
  ensures no-codings: (forall k: String :: !maphas(m.codings, k))
fn http/coding.Manager.AddCoding(m, constructor) ()
  requires live: m.codings != nil && constructor != nil && 0 <= m.buffSize && m.buffSize <= 1099511627776
  modifies map(m.codings), tr("http/coding.Constructor")
  post c = evarg("http/coding.Constructor", 0, "c")
  post tok = app("token", "String", c)
  post alias = if tok == "gzip" then "x-gzip" else if tok == "compress" then "x-compress" else tok
  ensures constructs-once: order() == "K" && evarg("http/coding.Constructor", 0, "self") == constructor && len(evarg("http/coding.Constructor", 0, "buff")) == m.buffSize
  ensures registered: maphas(m.codings, tok) && mapget(m.codings, tok) == c
  ensures alias: maphas(m.codings, alias) && mapget(m.codings, alias) == c
  ensures others: (forall k: String :: k != tok && k != alias ==> (maphas(m.codings, k) <==> old(maphas(m.codings, k))) && mapraw(m.codings, k) == old(mapraw(m.codings, k)))
fn http/coding.Manager.Encode(m, token, input) (output, err)
  requires values: (forall k: String :: maphas(m.codings, k) ==> mapget(m.codings, k) != nil)
  inst token
  modifies tr("http/coding.Coding.Encode")
  let pass = token == "identity" || len(input) == 0
  ensures passthrough: pass ==> output == input && err == nil && order() == ""
  ensures unknown: !pass && !maphas(m.codings, token) ==> len(output) == 0 && err == G("http/coding.ErrUnknownToken") && order() == ""
  ensures encodes: !pass && maphas(m.codings, token) ==> order() == "E" && evarg("http/coding.Coding.Encode", 0, "self") == mapget(m.codings, token) && evarg("http/coding.Coding.Encode", 0, "input") == bytes(input) && bytes(output) == evarg("http/coding.Coding.Encode", 0, "output") && err == evarg("http/coding.Coding.Encode", 0, "err")
fn http/coding.Manager.Decode(m, token, input) (output, err)
  requires values: (forall k: String :: maphas(m.codings, k) ==> mapget(m.codings, k) != nil)
  inst token
  modifies tr("http/coding.Coding.Decode")
  let pass = token == "identity" || len(input) == 0
  ensures passthrough: pass ==> output == input && err == nil && order() == ""
  ensures unknown: !pass && !maphas(m.codings, token) ==> len(output) == 0 && err == G("http/coding.ErrUnknownToken") && order() == ""
  ensures decodes: !pass && maphas(m.codings, token) ==> order() == "D" && evarg("http/coding.Coding.Decode", 0, "self") == mapget(m.codings, token) && evarg("http/coding.Coding.Decode", 0, "input") == bytes(input) && bytes(output) == evarg("http/coding.Coding.Decode", 0, "output") && err == evarg("http/coding.Coding.Decode", 0, "err")
