prop C02  # path normalisation
fn router/inbuilt/uri.Normalize(path) (res)
  ensures prefix: prefixof(res, path)
  ensures cut-only-slashes: in_re(from(path, len(res)), "(re.* (str.to_re \"/\"))")
  ensures keeps-first: len(path) > 0 ==> len(res) > 0
  ensures no-trailing-slash: len(res) > 1 ==> at(res, len(res)-1) != '/'
  inv [i:int] in_re(from(path, i+1), "(re.* (str.to_re \"/\"))")
  inv [i:int] in_re(from(path, i), "(re.* (str.to_re \"/\"))")
  inv [i:int] len(path) > 0 ==> i >= 1
  inv [p:string] prefixof(p, path)
  inv [p:string] in_re(from(path, len(p)), "(re.* (str.to_re \"/\"))")
  inv [p:string] len(path) > 0 ==> len(p) >= 1

prop C03  # domain normalisation
fn router/virtual/internal/domain.Normalize(domain) (res)
  let d = if prefixof("www.", domain) then from(domain, 4) else domain
  ensures def: res == (if suffixof(":80", d) then upto(d, len(d)-3) else if suffixof(":443", d) then upto(d, len(d)-4) else d)
  inv [i:int] !contains(from(d, i+1), ":") && !contains(from(d, i+1), ".")
fn router/virtual/internal/domain.TrimPort(domain) (res)
  ensures def: res == (if contains(domain, ":") then upto(domain, indexof(domain, ":")) else domain)
  inv [i:int] !contains(upto(domain, i), ":")
  inv [i:int] !contains(upto(domain, i+1), ":")

prop C04  # listen address
fn internal/address.Normalize(addr) (res)
  let host = if contains(addr, ":") then upto(addr, indexof(addr, ":")) else addr
  inv [i:int] !contains(upto(addr, i), ":")
  inv [i:int] !contains(upto(addr, i+1), ":")
  ensures def: res == (if len(host) == 0 then "0.0.0.0" ++ addr else addr)
fn internal/address.IsLocalhost(addr) (res)
  let host = if contains(addr, ":") then upto(addr, indexof(addr, ":")) else addr
  inv [i:int] !contains(upto(addr, i), ":")
  inv [i:int] !contains(upto(addr, i+1), ":")
  ensures def: res == eqfold(host, "localhost")
extern net.ParseIP(s) (ip)
  ensures ref(ip) != 0 <==> app("isip", "Bool", s)
fn internal/address.IsIP(addr) (res)
  let host = if contains(addr, ":") then upto(addr, indexof(addr, ":")) else addr
  inv [i:int] !contains(upto(addr, i), ":")
  inv [i:int] !contains(upto(addr, i+1), ":")
  ensures def: res == app("isip", "Bool", host)
fn internal/address.stripPort(addr) (res)
  aux
  ensures def: res == (if contains(addr, ":") then upto(addr, indexof(addr, ":")) else addr)

prop C11  # request methods
def methodname(m: Int): String = if m == 1 then "GET" else if m == 2 then "HEAD" else if m == 3 then "POST" else if m == 4 then "PUT" else if m == 5 then "DELETE" else if m == 6 then "CONNECT" else if m == 7 then "OPTIONS" else if m == 8 then "TRACE" else if m == 9 then "PATCH" else ""
def methodof(s: String): Int = if s == "GET" then 1 else if s == "HEAD" then 2 else if s == "POST" then 3 else if s == "PUT" then 4 else if s == "DELETE" then 5 else if s == "CONNECT" then 6 else if s == "OPTIONS" then 7 else if s == "TRACE" then 8 else if s == "PATCH" then 9 else 0
lemma methodroundtrip(m: Int)
  requires 1 <= m && m <= 9
  ensures methodof(methodname(m)) == m
lemma methodinjective(s: String)
  requires methodof(s) != 0
  ensures methodname(methodof(s)) == s
fn http/method.Parse(str) (m)
  ensures def: m == methodof(str)
  ensures list: seq(G("http/method.List")) == chr(1) ++ chr(2) ++ chr(3) ++ chr(4) ++ chr(5) ++ chr(6) ++ chr(7) ++ chr(8) ++ chr(9)
fn http/method.Method.String(m) (s)
  ensures name: 1 <= m && m <= 9 ==> s == methodname(m)
  ensures not-a-method: m == 0 || m > 9 ==> methodof(s) == 0
