extern github.com/indigo-web/utils/uf.B2S(b) (s)
  ensures s == bytes(b)

prop C15  # header value parameters
def paramof(s: String, sub: String, or: String): String = if contains(s, sub) then (let rest = from(s, indexof(s, sub) + len(sub)) in if contains(rest, ";") then upto(rest, indexof(rest, ";")) else rest) else or
extern strconv.Atoi(s) (n, err)
  ensures n == app("atoiv", "Int", s)
  ensures err == nil <==> app("isint", "Bool", s)
fn http/headers.ValueOf(str) (r)
  ensures def: r == (if contains(str, ";") then upto(str, indexof(str, ";")) else str)
fn http/headers.ParamOfOr(str, key, or) (r)
  ensures def: r == paramof(str, ";" ++ key ++ "=", or)
fn http/headers.ParamOf(str, key) (r)
  ensures def: r == paramof(str, ";" ++ key ++ "=", "")
fn http/headers.CharsetOf(str) (r)
  ensures def: r == paramof(str, ";charset=", "iso-8859-1")
fn http/headers.QualityOf(str) (q)
  let p = paramof(str, ";q=0.", "9")
  ensures def: q == (if app("isint", "Bool", p) then app("atoiv", "Int", p) else 9)
fn http/headers.getParam(str, substr, or) (r)
  aux
  ensures def: r == paramof(str, substr, or)

prop C16  # protocol versions
def protoof(s: String): Int = if s == "HTTP/1.0" then 2 else if s == "HTTP/1.1" then 4 else if s == "HTTP/2.0" then 8 else 0
def upof(s: String): Int = if s == "http/1.0" || s == "HTTP/1.0" then 2 else if s == "http/1.1" || s == "HTTP/1.1" then 4 else if s == "h2c" || s == "H2C" then 8 else 0
extern strings.TrimSpace(s) (r)
  ensures r == app("trimspace", "String", s)
rec choose(s: String): Int = if s == "" then 0 else if contains(s, ",") then (let p = upof(app("trimspace", "String", upto(s, indexof(s, ",")))) in if p != 0 then p else choose(from(s, indexof(s, ",")+1))) else upof(app("trimspace", "String", s))
fn http/proto.FromBytes(raw) (p)
  ensures exact: p == protoof(bytes(raw))
fn http/proto.Parse(major, minor) (p)
  ensures def: p == (if major == 1 && minor == 0 then 2 else if major == 1 && minor == 1 then 4 else if major == 2 && minor == 0 then 8 else 0)
fn http/proto.Proto.String(p) (s)
  ensures def: s == (if p == 2 then "HTTP/1.0 " else if p == 4 then "HTTP/1.1 " else if p == 8 then "HTTP/2 " else "")
fn http/proto.ChooseUpgrade(line) (p)
  ensures first-supported: p == choose(line)
  inv [s:string] choose(s) == choose(line)
fn http/proto.cutbyte(str, sep) (prefix, postfix)
  aux
  ensures def: prefix == (if contains(str, chr(sep)) then upto(str, indexof(str, chr(sep))) else str)
  ensures rest: postfix == (if contains(str, chr(sep)) then from(str, indexof(str, chr(sep))+1) else "")
  inv [i:int] !contains(upto(str, i), chr(sep))

prop C17  # escaping for logs
def printable(c: Int): Bool = c >= 32 && c <= 126
def escch(c: Int): Int = if c == 0 then '0' else if c == 7 then 'a' else if c == 8 then 'b' else if c == 9 then 't' else if c == 10 then 'n' else if c == 11 then 'v' else if c == 12 then 'f' else if c == 13 then 'r' else '?'
rec esc(s: String, i: Int): String = if i <= 0 then "" else esc(s, i-1) ++ (if printable(at(s, i-1)) then chr(at(s, i-1)) else "\\" ++ chr(escch(at(s, i-1))))
fn http.Escape(p) (r)
  ensures escaped: r == esc(p, len(p))
  inv [b:bytes, o:int, i:int] bytes(b) ++ substr(p, o, i-o) == esc(p, i)
  inv [o:int, i:int] 0 <= o && o <= i
  inv [b:bytes, o:int] o > 0 ==> len(b) > 0
fn http.escapeByte(b) (r)
  aux
  ensures def: !printable(b) ==> r == escch(b)

prop C19  # static paths
def sepof(s: String): String = if contains(s, "/") && (!contains(s, "\\") || indexof(s, "/") < indexof(s, "\\")) then "/" else if contains(s, "\\") then "\\" else "/"
def withsep(s: String): String = if suffixof(sepof(s), s) then s else s ++ sepof(s)
fn internal/pathlib.NewPath(prefix, replaceWith) (p)
  requires nonempty: len(prefix) > 0 && len(replaceWith) > 0
  ensures fields: p != nil && fresh(p) && p.prefix == withsep(prefix) && p.replaceWith == withsep(replaceWith) && p.maxPrefixLen == (if len(p.prefix) > len(p.replaceWith) then len(p.prefix) else len(p.replaceWith)) && p.buffLen == 0 && len(p.buff) == 0
fn internal/pathlib.usingSeparator(path) (c)
  aux
  ensures def: chr(c) == sepof(path)
  inv [i:int] !contains(upto(path, i), "/") && !contains(upto(path, i), "\\")
fn internal/pathlib.Path.Set(p, path) ()
  requires rep: p.maxPrefixLen == (if len(p.prefix) > len(p.replaceWith) then len(p.prefix) else len(p.replaceWith))
  modifies p.buff, p.buffLen, bytes(p.buff)
  let o = p.maxPrefixLen - len(p.prefix)
  ensures stored: 0 <= p.buffLen && p.buffLen <= len(p.buff) && p.buffLen == o + len(path) && substr(bytes(p.buff), o, len(path)) == path
fn internal/pathlib.Path.Relative(p) (r)
  requires rep: p.maxPrefixLen == (if len(p.prefix) > len(p.replaceWith) then len(p.prefix) else len(p.replaceWith)) && p.buffLen <= len(p.buff) && p.maxPrefixLen <= p.buffLen
  modifies bytes(p.buff)
  ensures replaced: r == p.replaceWith ++ old(substr(bytes(p.buff), p.maxPrefixLen, p.buffLen - p.maxPrefixLen))
fn router/inbuilt.isSafe(path) (r)
  ensures no-parent: r ==> !contains(path, "..")
  ensures only-that: !contains(path, "..") ==> r
  inv [s:string] contains(s, "..") <==> contains(path, "..")

prop C20  # request cookies
def strip1(s: String): String = if prefixof(" ", s) then from(s, 1) else s
rec ckok(s: String): Bool = s == "" || (indexof(s, "=") > 0 && (let v = from(s, indexof(s, "=")+1) in !contains(v, ";") || ckok(strip1(from(v, indexof(v, ";")+1)))))
rec ckpairs(s: String): Pairs = if contains(s, "=") then (let k = upto(s, indexof(s, "=")) in let v = from(s, indexof(s, "=")+1) in if contains(v, ";") then onepair(k, upto(v, indexof(v, ";"))) ++ ckpairs(strip1(from(v, indexof(v, ";")+1))) else onepair(k, v)) else emptyseq("Pairs")
fn http/cookie.Parse(jar, data) (err)
  modifies grow(jar.pairs)
  requires jar: jar != nil
  ensures accepts: err == nil <==> ckok(data)
  ensures rejects-with: err != nil ==> err == G("http/cookie.ErrBadCookie")
  ensures pairs: err == nil ==> seq(jar.pairs) == old(seq(jar.pairs)) ++ ckpairs(data)
  inv [s:string] ckok(s) == ckok(data)
  inv [s:string] ckok(data) ==> seq(jar.pairs) ++ ckpairs(s) == old(seq(jar.pairs)) ++ ckpairs(data)
fn http/cookie.New(name, value) (c)
  ensures fields: c.Name == name && c.Value == value && c.Path == "" && c.Domain == "" && c.MaxAge == 0 && c.SameSite == "" && !c.Secure && !c.HttpOnly
fn http/cookie.Build(name, value) (b)
  ensures fields: b.cookie.Name == name && b.cookie.Value == value && b.cookie.Path == "" && b.cookie.Domain == "" && b.cookie.MaxAge == 0 && b.cookie.SameSite == "" && !b.cookie.Secure && !b.cookie.HttpOnly
fn http/cookie.Builder.Path(b, x) (r)
  ensures only-path: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == x && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.Domain(b, x) (r)
  ensures only-domain: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == x && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.Expires(b, x) (r)
  ensures only-expires: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == x && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.MaxAge(b, x) (r)
  ensures only-maxage: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == x && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.SameSite(b, x) (r)
  ensures only-samesite: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == x && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.Secure(b, x) (r)
  ensures only-secure: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == x && r.cookie.HttpOnly == b.cookie.HttpOnly
fn http/cookie.Builder.HttpOnly(b, x) (r)
  ensures only-httponly: r.cookie.Name == b.cookie.Name && r.cookie.Value == b.cookie.Value && r.cookie.Path == b.cookie.Path && r.cookie.Domain == b.cookie.Domain && r.cookie.Expires == b.cookie.Expires && r.cookie.MaxAge == b.cookie.MaxAge && r.cookie.SameSite == b.cookie.SameSite && r.cookie.Secure == b.cookie.Secure && r.cookie.HttpOnly == x
fn http/cookie.Builder.Cookie(b) (c)
  ensures built: c == b.cookie
fn http/cookie.NewJar() (j)
  ensures empty: j != nil && fresh(j) && len(j.pairs) == 0
fn http/cookie.NewJarPreAlloc(n) (j)
  requires size: 0 <= n && n <= 1099511627776
  ensures empty: j != nil && fresh(j) && len(j.pairs) == 0

prop C18  # query string
rec plusn(s: String, i: Int): String = if i <= 0 then "" else plusn(s, i-1) ++ (if at(s, i-1) == '+' then " " else chr(at(s, i-1)))
rec kend(s: String, i: Int): Int = if i < 0 || i >= len(s) then i else if at(s, i) == '=' || at(s, i) == '&' then i else kend(s, i+1)
rec vend(s: String, i: Int): Int = if i < 0 || i >= len(s) then i else if at(s, i) == '&' then i else vend(s, i+1)
rec qok(s: String): Bool = s == "" || (let k = kend(s, 0) in decok(plusn(s, k)) && (k < len(s) ==> (if at(s, k) == '=' then k > 0 && (let v = from(s, k+1) in let m = vend(v, 0) in decok(plusn(v, m)) && (m < len(v) ==> qok(from(v, m+1)))) else qok(from(s, k+1)))))
rec qacc(p: Pairs, s: String): Pairs = if s == "" then p else (let k = kend(s, 0) in if k < len(s) then (if at(s, k) == '=' then (let v = from(s, k+1) in let m = vend(v, 0) in if m < len(v) then qacc(p ++ onepair(dec(plusn(s, k)), dec(plusn(v, m))), from(v, m+1)) else p ++ onepair(dec(plusn(s, k)), dec(plusn(v, m)))) else qacc(p ++ onepair(dec(plusn(s, k)), "1"), from(s, k+1))) else p ++ onepair(dec(plusn(s, k)), "1"))
fn http/query/internal.decode(data) (s, err)
  aux
  modifies bytes(data)
  ensures accepts: err == nil <==> decok(old(bytes(data)))
  ensures rejects-with: err != nil ==> err == G("http/status.ErrURIDecoding")
  ensures decodes: err == nil ==> s == dec(old(bytes(data)))
  ensures rest-kept: bytes(tail(data)) == old(bytes(tail(data)))
fn http/query/internal.Parse(data, params) (err)
  opaque dec decok plusn
  guide qok qacc
  requires params: params != nil
  modifies bytes(data), grow(params.pairs)
  ensures accepts: err == nil <==> qok(old(bytes(data)))
  ensures rejects-with: err != nil ==> err == G("http/status.ErrBadQuery") || err == G("http/status.ErrURIDecoding")
  ensures pairs: err == nil ==> seq(params.pairs) == qacc(old(seq(params.pairs)), old(bytes(data)))
  inv [s:bytes] qok(bytes(s)) == qok(old(bytes(data)))
  inv [s:bytes] qacc(seq(params.pairs), bytes(s)) == qacc(old(seq(params.pairs)), old(bytes(data)))
  inv [s:^bytes, i:int] bytes(upto(s, i+1)) == plusn(entry(bytes(s)), i+1)
  inv [s:^bytes, i:int] bytes(from(s, i+1)) == from(entry(bytes(s)), i+1)
  inv [s:^bytes, i:int] kend(entry(bytes(s)), 0) == kend(entry(bytes(s)), i+1)
  inv [s:^bytes, i:int] vend(entry(bytes(s)), 0) == vend(entry(bytes(s)), i+1)
  inv [s:^bytes, i:int] 0-1 <= i && i < len(s)
fn http/query.Query.parse(q) (err)
  opaque qok qacc
  requires live: q.params != nil
  requires apart: ref(q.buff) == 0 || ref(q.buff) != ref(q.raw)
  modifies q.parsed, q.err, q.buff, grow(q.buff), grow(q.params.pairs)
  ensures lazy: old(q.parsed) ==> err == old(q.err) && seq(q.params.pairs) == old(seq(q.params.pairs))
  ensures parsed: q.parsed && q.err == err
  ensures accepts: !old(q.parsed) ==> (err == nil <==> qok(old(bytes(q.raw))))
  ensures rejects-with: !old(q.parsed) && err != nil ==> err == G("http/status.ErrBadQuery") || err == G("http/status.ErrURIDecoding")
  ensures pairs: !old(q.parsed) && err == nil ==> seq(q.params.pairs) == qacc(old(seq(q.params.pairs)), old(bytes(q.raw)))
  ensures raw-kept: q.raw == old(q.raw) && bytes(q.raw) == old(bytes(q.raw))
fn http/query.Query.Get(q, key) (value, err)
  opaque qok qacc first
  requires live: q.params != nil
  requires apart: ref(q.buff) == 0 || ref(q.buff) != ref(q.raw)
  modifies q.parsed, q.err, q.buff, grow(q.buff), grow(q.params.pairs)
  let ok = if old(q.parsed) then old(q.err) == nil else qok(old(bytes(q.raw)))
  let all = if old(q.parsed) then old(seq(q.params.pairs)) else qacc(old(seq(q.params.pairs)), old(bytes(q.raw)))
  ensures invalid: !ok ==> err != nil && value == ""
  ensures found: ok && first(all, key, 0) >= 0 ==> err == nil && seq(q.params.pairs) == all && value == pval(seq(q.params.pairs), first(seq(q.params.pairs), key, 0))
  ensures absent: ok && first(all, key, 0) < 0 ==> err == G("http/query.ErrNoSuchKey") && value == ""
  ensures raw-kept: q.raw == old(q.raw) && bytes(q.raw) == old(bytes(q.raw))
fn http/query.Query.Unwrap(q) (p, err)
  opaque qok qacc
  requires live: q.params != nil
  requires apart: ref(q.buff) == 0 || ref(q.buff) != ref(q.raw)
  modifies q.parsed, q.err, q.buff, grow(q.buff), grow(q.params.pairs)
  let ok = if old(q.parsed) then old(q.err) == nil else qok(old(bytes(q.raw)))
  let all = if old(q.parsed) then old(seq(q.params.pairs)) else qacc(old(seq(q.params.pairs)), old(bytes(q.raw)))
  ensures invalid: !ok <==> err != nil
  ensures none: err != nil ==> p == nil
  ensures all: ok ==> p == q.params && p == old(q.params) && seq(p.pairs) == all
  ensures raw-kept: q.raw == old(q.raw) && bytes(q.raw) == old(bytes(q.raw))
