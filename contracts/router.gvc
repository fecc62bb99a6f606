prop C28  # virtual hosting
sort Virts = router/virtual.virtualRouter
def dnorm0(d: String): String = if suffixof(":80", d) then upto(d, len(d)-3) else if suffixof(":443", d) then upto(d, len(d)-4) else d
def dnorm(s: String): String = dnorm0(if prefixof("www.", s) then from(s, 4) else s)
rec vfirst(v: Virts, h: String, i: Int): Int = if i >= len(v) || i < 0 then 0-1 else if asciifold(as(at(v, i), "router/virtual.virtualRouter").Domain, h) then i else vfirst(v, h, i+1)
fn router/virtual.runtimeRouter.getRouter(r, request) (rt, resp)
  opaque vals
  requires live: request != nil && request.Headers != nil && request.response != nil && request.response.fields != nil
  modifies request.Headers.valuesBuff, anymem("string"), request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment
  let hs = vals(old(seq(request.Headers.pairs)), "host", old(len(request.Headers.pairs)))
  let i0 = vfirst(seq(r.routers), dnorm(at(hs, 0)), 0)
  ensures no-host: len(hs) == 0 ==> rt == r.defaultRouter && resp == request.response && resp.fields.Code == 400
  ensures several-hosts: len(hs) > 1 ==> rt == nil && resp == request.response && resp.fields.Code == 400
  ensures match: len(hs) == 1 && i0 >= 0 ==> rt == as(at(seq(r.routers), i0), "router/virtual.virtualRouter").Router && resp == nil
  ensures misdirected: len(hs) == 1 && i0 < 0 ==> rt == r.defaultRouter && resp == request.response && resp.fields.Code == 421
  inv [i:int] vfirst(seq(r.routers), dnorm(at(hs, 0)), 0) == vfirst(seq(r.routers), dnorm(at(hs, 0)), i)
  inv [i:int] vfirst(seq(r.routers), dnorm(at(hs, 0)), 0) == vfirst(seq(r.routers), dnorm(at(hs, 0)), i+1)
fn router/virtual.runtimeRouter.OnRequest(r, request) (x)
  opaque vals
  requires live: request != nil && request.Headers != nil && request.response != nil && request.response.fields != nil
  modifies request.Upgrade, request.Proto, request.wasHijacked, request.Headers.valuesBuff, anymem("string"), request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, tr("router.Router.OnRequest")
  let hs = vals(old(seq(request.Headers.pairs)), "host", old(len(request.Headers.pairs)))
  let i0 = vfirst(seq(r.routers), dnorm(at(hs, 0)), 0)
  let own = len(hs) == 1 && i0 >= 0
  let target = if own then as(at(seq(r.routers), i0), "router/virtual.virtualRouter").Router else r.defaultRouter
  ensures routed: len(hs) <= 1 && target != nil ==> order() == "Q" && evarg("router.Router.OnRequest", 0, "self") == target && evarg("router.Router.OnRequest", 0, "request") == request && x == evarg("router.Router.OnRequest", 0, "resp")
  ensures refused: len(hs) > 1 || (!own && r.defaultRouter == nil) ==> order() == "" && x == request.response && x.fields.Code == (if len(hs) == 1 then 421 else 400)
fn router/virtual.runtimeRouter.OnError(r, request, err) (x)
  opaque vals
  requires live: request != nil && request.Headers != nil && request.response != nil && request.response.fields != nil
  modifies request.Upgrade, request.Proto, request.wasHijacked, request.Headers.valuesBuff, anymem("string"), request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, tr("router.Router.OnError")
  let hs = vals(old(seq(request.Headers.pairs)), "host", old(len(request.Headers.pairs)))
  let i0 = vfirst(seq(r.routers), dnorm(at(hs, 0)), 0)
  let own = len(hs) == 1 && i0 >= 0
  let target = if own then as(at(seq(r.routers), i0), "router/virtual.virtualRouter").Router else r.defaultRouter
  ensures routed: len(hs) <= 1 && target != nil ==> order() == "E" && evarg("router.Router.OnError", 0, "self") == target && evarg("router.Router.OnError", 0, "request") == request && evarg("router.Router.OnError", 0, "err") == err && x == evarg("router.Router.OnError", 0, "resp")
  ensures refused: len(hs) > 1 || (!own && r.defaultRouter == nil) ==> order() == "" && x == request.response && x.fields.Code == (if len(hs) == 1 then 421 else 400)
sort Fabs = router/virtual.virtualFabric
fn router/virtual.New() (r)
  ensures empty: r != nil && fresh(r) && len(r.routers) == 0 && r.defaultRouter == nil
fn router/virtual.Router.Default(r, def) (x)
  modifies r.defaultRouter
  ensures set: x == r && r.defaultRouter == def
fn router/virtual.Router.Host(r, host, other) (x)
  modifies r.routers, grow(r.routers), r.defaultRouter
  let h = dnorm(host)
  let any = (if contains(h, ":") then upto(h, indexof(h, ":")) else h) == "0.0.0.0"
  ensures chain: x == r
  ensures default: any ==> r.defaultRouter == other && seq(r.routers) == old(seq(r.routers))
  ensures added: !any ==> r.defaultRouter == old(r.defaultRouter) && len(r.routers) == old(len(r.routers)) + 1 && upto(seq(r.routers), old(len(r.routers))) == old(seq(r.routers)) && as(at(seq(r.routers), old(len(r.routers))), "router/virtual.virtualFabric").Domain == h && as(at(seq(r.routers), old(len(r.routers))), "router/virtual.virtualFabric").Router == other
extern router.Fabric.Initialize(self) (rt)
  event F
fn router/virtual.Router.Initialize(r) (x)
  requires live: (forall i: Int :: 0 <= i && i < len(r.routers) ==> at(r.routers, i).Router != nil)
  modifies tr("router.Fabric.Initialize")
  let n = len(r.routers)
  ensures kind: typeis(x, "*router/virtual.runtimeRouter") && (let z = unbox(x, "*router/virtual.runtimeRouter") in z != nil && fresh(z))
  ensures all: (let z = unbox(x, "*router/virtual.runtimeRouter") in len(z.routers) == n && len(tr("router.Fabric.Initialize")) == n + (if r.defaultRouter != nil then 1 else 0))
  ensures hosts: (let z = unbox(x, "*router/virtual.runtimeRouter") in (forall i: Int :: 0 <= i && i < n ==> at(z.routers, i).Domain == at(r.routers, i).Domain && at(z.routers, i).Router == evarg("router.Fabric.Initialize", i, "rt") && evarg("router.Fabric.Initialize", i, "self") == at(r.routers, i).Router))
  ensures default: (let z = unbox(x, "*router/virtual.runtimeRouter") in if r.defaultRouter == nil then z.defaultRouter == nil else z.defaultRouter == evarg("router.Fabric.Initialize", n, "rt") && evarg("router.Fabric.Initialize", n, "self") == r.defaultRouter)
  inv [i:int] len(tr("router.Fabric.Initialize")) == i
  inv [i:int] len(tr("router.Fabric.Initialize")) == i + 1
  inv [v:^slice] len(v) == len(r.routers)
  inv [v:^slice] (forall i: Int :: 0 <= i && i < len(tr("router.Fabric.Initialize")) ==> at(v, i).Domain == at(r.routers, i).Domain && at(v, i).Router == evarg("router.Fabric.Initialize", i, "rt") && evarg("router.Fabric.Initialize", i, "self") == at(r.routers, i).Router)

prop C29  # dispatch of the built-in router
extern router/inbuilt/internal/types.Handler(self, request) (resp)
  event H
fn router/inbuilt.getHandler(reqMethod, methodsMap) (h)
  requires known: reqMethod <= 9
  ensures own: at(methodsMap, reqMethod) != nil ==> h == at(methodsMap, reqMethod)
  ensures head: at(methodsMap, reqMethod) == nil && reqMethod == 2 ==> h == at(methodsMap, 1)
  ensures none: at(methodsMap, reqMethod) == nil && reqMethod != 2 ==> h == nil
fn router/inbuilt.runtimeRouter.retrieveErrorHandler(r, code) (h)
  ensures own: maphas(r.errHandlers, code) ==> h == mapget(r.errHandlers, code)
  ensures all: !maphas(r.errHandlers, code) ==> h == (if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil)
rec hlines(p: Pairs, i: Int): String = if i <= 0 then "" else hlines(p, i-1) ++ pkey(p, i-1) ++ ": " ++ pval(p, i-1) ++ "\r\n"
fn router/inbuilt.requestHeaders(hdrs, buff) (r)
  aux
  requires live: hdrs != nil
  modifies bytes(buff)
  ensures lines: bytes(r) == old(bytes(buff)) ++ hlines(seq(hdrs.pairs), len(hdrs.pairs))
  inv [b:bytes, i:int] bytes(b) == old(bytes(buff)) ++ hlines(seq(hdrs.pairs), i)
  inv [b:bytes, i:int] bytes(b) == old(bytes(buff)) ++ hlines(seq(hdrs.pairs), i+1)
fn router/inbuilt.requestURI(request, buff) (r)
  aux
  requires live: request != nil && request.Query != nil
  requires apart: ref(buff) == 0 || ref(buff) != ref(request.Query.raw)
  modifies bytes(buff)
  ensures uri: bytes(r) == old(bytes(buff)) ++ request.Path ++ (if len(request.Query.raw) > 0 then "?" ++ old(bytes(request.Query.raw)) else "")
  ensures fresh-or-same: ref(r) == ref(buff) || fresh(r)
fn router/inbuilt.traceResponse(respond, messageBody) (x)
  requires live: respond.fields != nil
  modifies respond.fields.ContentType, respond.fields.TransferEncoding, grow(respond.fields.Headers), respond.fields.Body
  ensures chain: x == respond && x.fields.Body == messageBody && x.fields.ContentType == "message/http" && seq(x.fields.Headers) == old(seq(x.fields.Headers)) && x.fields.TransferEncoding == old(x.fields.TransferEncoding)
extern router/inbuilt/internal/types.Mutator(self, request) ()
  event U
  modifies request.Path, request.Method, request.Env.AliasFrom
  ensures request.Method <= 9
view router/inbuilt.renderHTTPRequest(request, buff) (r)
  event T
view router/inbuilt/internal/radix.Node.Match(n, path, params) (ep)
  event M
sort Catchers = router/inbuilt.Catcher
rec cfirst(c: Catchers, p: String, i: Int): Int = if i >= len(c) || i < 0 then 0-1 else if prefixof(as(at(c, i), "router/inbuilt.Catcher").Prefix, p) then i else cfirst(c, p, i+1)
fn router/inbuilt.runtimeRouter.runMutators(r, request) ()
  requires live: request != nil && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> at(r.mutators, i) != nil)
  modifies request.Path, request.Method, request.Env.AliasFrom, tr("router/inbuilt/internal/types.Mutator")
  ensures method: old(request.Method) <= 9 ==> request.Method <= 9
  ensures only: in_re(order(), "(re.* (str.to_re \"U\"))")
  inv in_re(order(), "(re.* (str.to_re \"U\"))")
  inv old(request.Method) <= 9 ==> request.Method <= 9
  ensures each: len(tr("router/inbuilt/internal/types.Mutator")) == len(r.mutators) && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> evarg("router/inbuilt/internal/types.Mutator", i, "self") == at(r.mutators, i) && evarg("router/inbuilt/internal/types.Mutator", i, "request") == request)
  inv [i:int] len(tr("router/inbuilt/internal/types.Mutator")) == i
  inv [i:int] len(tr("router/inbuilt/internal/types.Mutator")) == i + 1
  inv (forall i: Int :: 0 <= i && i < len(tr("router/inbuilt/internal/types.Mutator")) ==> evarg("router/inbuilt/internal/types.Mutator", i, "self") == at(r.mutators, i) && evarg("router/inbuilt/internal/types.Mutator", i, "request") == request)
fn router/inbuilt.runtimeRouter.onError(r, request, err) (x)
  views
  requires live: request != nil && request.response != nil && request.response.fields != nil
  requires handlers: (forall i: Int :: 0 <= i && i < len(r.catchers) ==> at(r.catchers, i).Handler != nil)
  modifies request.Env.Error, request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair"), tr("router/inbuilt/internal/types.Handler"), tr("view:router/inbuilt.renderHTTPRequest")
  let traced = old(request.Method) == 8 && err == G("http/status.ErrMethodNotAllowed")
  let c0 = cfirst(seq(r.catchers), old(request.Path), 0)
  let caught = !traced && err == G("http/status.ErrNotFound") && c0 >= 0
  let ishttp = typeis(err, "http/status.HTTPError")
  let code = unbox(err, "http/status.HTTPError").Code
  let h = if maphas(r.errHandlers, code) then mapget(r.errHandlers, code) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  ensures traced: traced ==> order() == "T" && evarg("view:router/inbuilt.renderHTTPRequest", 0, "request") == request && x == request.response && x.fields.Code == 200 && x.fields.ContentType == "message/http"
  ensures caught: caught ==> order() == "H" && evarg("router/inbuilt/internal/types.Handler", 0, "self") == as(at(seq(r.catchers), c0), "router/inbuilt.Catcher").Handler && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")
  ensures foreign: !traced && !caught && !ishttp ==> order() == "" && x == request.response && x.fields.Code == 500
  ensures default: !traced && !caught && ishttp && h == nil ==> order() == "" && x == request.response && x.fields.Code == code && bytes(x.fields.Body) == unbox(err, "http/status.HTTPError").Message
  ensures handled: !traced && !caught && ishttp && h != nil ==> order() == "H" && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == err
  inv [i:int] cfirst(seq(r.catchers), request.Path, 0) == cfirst(seq(r.catchers), request.Path, i)
  inv [i:int] cfirst(seq(r.catchers), request.Path, 0) == cfirst(seq(r.catchers), request.Path, i+1)
fn router/inbuilt.runtimeRouter.OnError(r, request, err) (x)
  views
  requires live: request != nil && request.response != nil && request.response.fields != nil
  requires handlers: (forall i: Int :: 0 <= i && i < len(r.catchers) ==> at(r.catchers, i).Handler != nil) && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> at(r.mutators, i) != nil)
  modifies request.Path, request.Method, request.Env.AliasFrom, request.Env.Error, request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair"), tr("router/inbuilt/internal/types.Handler"), tr("router/inbuilt/internal/types.Mutator"), tr("view:router/inbuilt.renderHTTPRequest")
  ensures mutated: len(tr("router/inbuilt/internal/types.Mutator")) == len(r.mutators) && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> evarg("router/inbuilt/internal/types.Mutator", i, "self") == at(r.mutators, i) && evarg("router/inbuilt/internal/types.Mutator", i, "request") == request)
  post traced = request.Method == 8 && err == G("http/status.ErrMethodNotAllowed")
  post c0 = cfirst(seq(r.catchers), request.Path, 0)
  post caught = !traced && err == G("http/status.ErrNotFound") && c0 >= 0
  post ishttp = typeis(err, "http/status.HTTPError")
  post code = unbox(err, "http/status.HTTPError").Code
  post h = if maphas(r.errHandlers, code) then mapget(r.errHandlers, code) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  ensures traced: traced ==> suffixof("T", order()) && evarg("view:router/inbuilt.renderHTTPRequest", 0, "request") == request && x == request.response && x.fields.Code == 200 && x.fields.ContentType == "message/http"
  ensures caught: caught ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == as(at(seq(r.catchers), c0), "router/inbuilt.Catcher").Handler && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")
  ensures foreign: !traced && !caught && !ishttp ==> !contains(order(), "H") && x == request.response && x.fields.Code == 500
  ensures default: !traced && !caught && ishttp && h == nil ==> !contains(order(), "H") && x == request.response && x.fields.Code == code && bytes(x.fields.Body) == unbox(err, "http/status.HTTPError").Message
  ensures handled: !traced && !caught && ishttp && h != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == err
fn router/inbuilt.runtimeRouter.onRequest(r, request) (x)
  views
  requires live: request != nil && request.response != nil && request.response.fields != nil && request.Params != nil
  requires method: request.Method <= 9
  requires handlers: (forall i: Int :: 0 <= i && i < len(r.catchers) ==> at(r.catchers, i).Handler != nil)
  requires tree: r.isStatic || r.tree != nil
  modifies request.Env.AllowedMethods, request.Env.Error, request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair"), tr("router/inbuilt/internal/types.Handler"), tr("view:router/inbuilt.renderHTTPRequest"), tr("view:router/inbuilt/internal/radix.Node.Match")
  post ep = evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "ep")
  let m = old(request.Method)
  post found = if r.isStatic then maphas(r.routesMap, old(request.Path)) else ep != nil
  ensures matched: len(tr("view:router/inbuilt/internal/radix.Node.Match")) == (if r.isStatic then 0 else 1)
  ensures missing: !found && cfirst(seq(r.catchers), old(request.Path), 0) >= 0 ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == as(at(seq(r.catchers), cfirst(seq(r.catchers), old(request.Path), 0)), "router/inbuilt.Catcher").Handler && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")
  ensures static: r.isStatic && found ==> (let e = mapget(r.routesMap, old(request.Path)) in request.Env.AllowedMethods == e.allow && (let h = (if at(e.methodsMap, m) == nil && m == 2 then at(e.methodsMap, 1) else at(e.methodsMap, m)) in h != nil ==> order() == "H" && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")))
  ensures dynamic: !r.isStatic && found ==> request.Env.AllowedMethods == ep.Allow && (let h = (if at(ep.MethodsMap, m) == nil && m == 2 then at(ep.MethodsMap, 1) else at(ep.MethodsMap, m)) in h != nil ==> order() == "MH" && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp"))
  ensures looked-up: !r.isStatic ==> evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "n") == r.tree && evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "path") == old(request.Path) && evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "params") == request.Params
  let eh404 = if maphas(r.errHandlers, 404) then mapget(r.errHandlers, 404) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  let eh405 = if maphas(r.errHandlers, 405) then mapget(r.errHandlers, 405) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  post nf = !found && cfirst(seq(r.catchers), old(request.Path), 0) < 0
  post mm = if r.isStatic then (let e = mapget(r.routesMap, old(request.Path)) in (if at(e.methodsMap, m) == nil && m == 2 then at(e.methodsMap, 1) else at(e.methodsMap, m))) else (if at(ep.MethodsMap, m) == nil && m == 2 then at(ep.MethodsMap, 1) else at(ep.MethodsMap, m))
  ensures not-found: nf && eh404 == nil ==> !contains(order(), "H") && x == request.response && x.fields.Code == 404
  ensures not-found-handled: nf && eh404 != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == eh404 && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == G("http/status.ErrNotFound")
  ensures not-allowed: found && mm == nil && m != 8 && eh405 == nil ==> !contains(order(), "H") && x == request.response && x.fields.Code == 405
  ensures not-allowed-handled: found && mm == nil && m != 8 && eh405 != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == eh405 && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == G("http/status.ErrMethodNotAllowed")
  ensures traced: found && mm == nil && m == 8 ==> suffixof("T", order()) && x == request.response && x.fields.Code == 200 && x.fields.ContentType == "message/http"
fn router/inbuilt.runtimeRouter.OnRequest(r, request) (x)
  views
  requires live: request != nil && request.response != nil && request.response.fields != nil && request.Params != nil
  requires method: request.Method <= 9
  requires handlers: (forall i: Int :: 0 <= i && i < len(r.catchers) ==> at(r.catchers, i).Handler != nil) && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> at(r.mutators, i) != nil)
  requires tree: r.isStatic || r.tree != nil
  modifies request.Path, request.Method, request.Env.AliasFrom, request.Env.AllowedMethods, request.Env.Error, request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair"), tr("router/inbuilt/internal/types.Handler"), tr("router/inbuilt/internal/types.Mutator"), tr("view:router/inbuilt.renderHTTPRequest"), tr("view:router/inbuilt/internal/radix.Node.Match")
  post ep = evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "ep")
  post m = request.Method
  post found = if r.isStatic then maphas(r.routesMap, request.Path) else ep != nil
  ensures matched: len(tr("view:router/inbuilt/internal/radix.Node.Match")) == (if r.isStatic then 0 else 1)
  ensures missing: !found && cfirst(seq(r.catchers), request.Path, 0) >= 0 ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == as(at(seq(r.catchers), cfirst(seq(r.catchers), request.Path, 0)), "router/inbuilt.Catcher").Handler && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")
  ensures static: r.isStatic && found ==> (let e = mapget(r.routesMap, request.Path) in request.Env.AllowedMethods == e.allow && (let h = (if at(e.methodsMap, m) == nil && m == 2 then at(e.methodsMap, 1) else at(e.methodsMap, m)) in h != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp")))
  ensures dynamic: !r.isStatic && found ==> request.Env.AllowedMethods == ep.Allow && (let h = (if at(ep.MethodsMap, m) == nil && m == 2 then at(ep.MethodsMap, 1) else at(ep.MethodsMap, m)) in h != nil ==> suffixof("MH", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == h && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp"))
  post eh404 = if maphas(r.errHandlers, 404) then mapget(r.errHandlers, 404) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  post eh405 = if maphas(r.errHandlers, 405) then mapget(r.errHandlers, 405) else if maphas(r.errHandlers, 0) then mapget(r.errHandlers, 0) else nil
  post nf = !found && cfirst(seq(r.catchers), request.Path, 0) < 0
  post mm = if r.isStatic then (let e = mapget(r.routesMap, request.Path) in (if at(e.methodsMap, m) == nil && m == 2 then at(e.methodsMap, 1) else at(e.methodsMap, m))) else (if at(ep.MethodsMap, m) == nil && m == 2 then at(ep.MethodsMap, 1) else at(ep.MethodsMap, m))
  ensures not-found: nf && eh404 == nil ==> !contains(order(), "H") && x == request.response && x.fields.Code == 404
  ensures not-found-handled: nf && eh404 != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == eh404 && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == G("http/status.ErrNotFound")
  ensures not-allowed: found && mm == nil && m != 8 && eh405 == nil ==> !contains(order(), "H") && x == request.response && x.fields.Code == 405
  ensures not-allowed-handled: found && mm == nil && m != 8 && eh405 != nil ==> suffixof("H", order()) && evarg("router/inbuilt/internal/types.Handler", 0, "self") == eh405 && evarg("router/inbuilt/internal/types.Handler", 0, "request") == request && x == evarg("router/inbuilt/internal/types.Handler", 0, "resp") && request.Env.Error == G("http/status.ErrMethodNotAllowed")
  ensures traced: found && mm == nil && m == 8 ==> suffixof("T", order()) && x == request.response && x.fields.Code == 200 && x.fields.ContentType == "message/http"
  ensures mutated: len(tr("router/inbuilt/internal/types.Mutator")) == len(r.mutators) && (forall i: Int :: 0 <= i && i < len(r.mutators) ==> evarg("router/inbuilt/internal/types.Mutator", i, "self") == at(r.mutators, i) && evarg("router/inbuilt/internal/types.Mutator", i, "request") == request)
  ensures normalised: len(request.Path) > 1 ==> at(request.Path, len(request.Path)-1) != '/'
  ensures looked-up: !r.isStatic ==> len(tr("view:router/inbuilt/internal/radix.Node.Match")) == 1 && evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "path") == request.Path && evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "n") == r.tree && evarg("view:router/inbuilt/internal/radix.Node.Match", 0, "params") == request.Params
sort Ents = router/inbuilt/internal/radix.segmentEntry
rec efirst(c: Ents, k: String, i: Int): Int = if i >= len(c) || i < 0 then 0-1 else if as(at(c, i), "router/inbuilt/internal/radix.segmentEntry").Key == k then i else efirst(c, k, i+1)
fn router/inbuilt/internal/radix.arrMap.Lookup(a, key) (n)
  let i0 = efirst(seq(a.arr), key, 0)
  ensures listed: !a.arrOverflow ==> n == (if i0 >= 0 then as(at(seq(a.arr), i0), "router/inbuilt/internal/radix.segmentEntry").Node else nil)
  ensures mapped: a.arrOverflow ==> n == (if maphas(a.m, key) then mapget(a.m, key) else nil)
  inv [i:int] efirst(seq(a.arr), key, 0) == efirst(seq(a.arr), key, i)
  inv [i:int] efirst(seq(a.arr), key, 0) == efirst(seq(a.arr), key, i+1)
fn router/inbuilt/internal/radix.processSegment(params, segment, node) (next, ok)
  requires live: params != nil && node != nil
  modifies params.pairs, grow(params.pairs)
  let i0 = efirst(seq(node.statics.arr), segment, 0)
  let st = if node.statics.arrOverflow then (if maphas(node.statics.m, segment) then mapget(node.statics.m, segment) else nil) else if i0 >= 0 then as(at(seq(node.statics.arr), i0), "router/inbuilt/internal/radix.segmentEntry").Node else nil
  let hasst = if node.statics.arrOverflow then st != nil else i0 >= 0
  ensures static-first: hasst ==> ok && next == st && seq(params.pairs) == old(seq(params.pairs))
  ensures none: !hasst && (!node.isWildcard || len(segment) == 0) ==> !ok && seq(params.pairs) == old(seq(params.pairs))
  ensures wildcard: !hasst && node.isWildcard && len(segment) > 0 ==> ok && next == node.next
  ensures unnamed: !hasst && node.isWildcard && len(segment) > 0 && len(node.wildcard) == 0 ==> seq(params.pairs) == old(seq(params.pairs))
  ensures named: !hasst && node.isWildcard && len(segment) > 0 && len(node.wildcard) > 0 ==> len(params.pairs) == old(len(params.pairs)) + 1 && upto(seq(params.pairs), old(len(params.pairs))) == old(seq(params.pairs)) && pkey(seq(params.pairs), old(len(params.pairs))) == node.wildcard && pval(seq(params.pairs), old(len(params.pairs))) == segment
  inv [i:int] efirst(seq(node.statics.arr), segment, 0) == efirst(seq(node.statics.arr), segment, i)
  inv [i:int] efirst(seq(node.statics.arr), segment, 0) == efirst(seq(node.statics.arr), segment, i+1)
view router/inbuilt/internal/radix.processSegment(params, segment, node) (next, ok)
  event S
  ensures ok ==> next != nil
sort TrS = tr:view:router/inbuilt/internal/radix.processSegment
def sseg(t: TrS, i: Int): String = evfield("view:router/inbuilt/internal/radix.processSegment", t, i, 1)
rec joined(t: TrS): String = if len(t) <= 0 then "" else joined(upto(t, len(t)-1)) ++ "/" ++ sseg(t, len(t)-1)
fn router/inbuilt/internal/radix.Node.Match(n, path, params) (ep)
  views
  requires live: n != nil && len(path) >= 1
  modifies tr("view:router/inbuilt/internal/radix.processSegment")
  post t = tr("view:router/inbuilt/internal/radix.processSegment")
  post k = len(t)
  post good = k == 0 || evarg("view:router/inbuilt/internal/radix.processSegment", k-1, "ok")
  ensures relative: at(path, 0) != '/' ==> ep == nil && k == 0
  ensures walk: (forall i: Int :: 0 <= i && i < k ==> evarg("view:router/inbuilt/internal/radix.processSegment", i, "params") == params && !contains(evarg("view:router/inbuilt/internal/radix.processSegment", i, "segment"), "/") && (i+1 < k ==> evarg("view:router/inbuilt/internal/radix.processSegment", i, "ok") && evarg("view:router/inbuilt/internal/radix.processSegment", i+1, "node") == evarg("view:router/inbuilt/internal/radix.processSegment", i, "next")))
  ensures start: k > 0 ==> evarg("view:router/inbuilt/internal/radix.processSegment", 0, "node") == n
  ensures whole: at(path, 0) == '/' && good ==> path == joined(t) || path == joined(t) ++ "/"
  ensures prefix: at(path, 0) == '/' ==> prefixof(joined(t), path)
  ensures found: at(path, 0) == '/' && good ==> ep == (if k == 0 then n.payload else evarg("view:router/inbuilt/internal/radix.processSegment", k-1, "next").payload)
  ensures missing: k > 0 && !evarg("view:router/inbuilt/internal/radix.processSegment", k-1, "ok") ==> ep == nil
  inv [p:string] path == joined(tr("view:router/inbuilt/internal/radix.processSegment")) ++ "/" ++ p || (p == "" && path == joined(tr("view:router/inbuilt/internal/radix.processSegment")))
  inv [m:ptr] m == (if len(tr("view:router/inbuilt/internal/radix.processSegment")) == 0 then n else evarg("view:router/inbuilt/internal/radix.processSegment", len(tr("view:router/inbuilt/internal/radix.processSegment"))-1, "next")) && m != nil
  inv (forall i: Int :: 0 <= i && i < len(tr("view:router/inbuilt/internal/radix.processSegment")) ==> evarg("view:router/inbuilt/internal/radix.processSegment", i, "ok") && evarg("view:router/inbuilt/internal/radix.processSegment", i, "params") == params && !contains(evarg("view:router/inbuilt/internal/radix.processSegment", i, "segment"), "/") && (i+1 < len(tr("view:router/inbuilt/internal/radix.processSegment")) ==> evarg("view:router/inbuilt/internal/radix.processSegment", i+1, "node") == evarg("view:router/inbuilt/internal/radix.processSegment", i, "next")))
  inv len(tr("view:router/inbuilt/internal/radix.processSegment")) > 0 ==> evarg("view:router/inbuilt/internal/radix.processSegment", 0, "node") == n
sort Segs = router/inbuilt/internal/radix.Segment
def tseg(s: Segs, i: Int): String = if as(at(s, i), "router/inbuilt/internal/radix.Segment").IsWildcard then "{" ++ as(at(s, i), "router/inbuilt/internal/radix.Segment").Payload ++ "}" else as(at(s, i), "router/inbuilt/internal/radix.Segment").Payload
rec tjoin(s: Segs): String = if len(s) <= 0 then "" else tjoin(upto(s, len(s)-1)) ++ "/" ++ tseg(s, len(s)-1)
rec dsl(s: String, i: Int): Bool = if i <= 1 then false else dsl(s, i-1) || (at(s, i-1) == '/' && at(s, i-2) == '/')
fn router/inbuilt/internal/radix.Parse(tmpl) (t, err)
  ensures empty: tmpl == "" ==> err != nil
  ensures relative: tmpl != "" && at(tmpl, 0) != '/' ==> err != nil
  ensures root: tmpl == "/" ==> err == nil && len(t.segments) == 0
  ensures whole: err == nil && !dsl(tmpl, len(tmpl)) ==> tmpl == tjoin(seq(t.segments)) || tmpl == tjoin(seq(t.segments)) ++ "/"
  inv [g:^ptr, i:int, o:int, s:int] s == 2 ==> at(tmpl, i-1) == '/'
  inv [g:^ptr, i:int, o:int, s:int] i == 1 ==> s == 2 && len(g.segments) == 0
  inv [g:^ptr, i:int, o:int, s:int] 1 <= i && i <= len(tmpl) && 1 <= o && o <= i && 1 <= s && s <= 4
  inv [g:^ptr, i:int, o:int, s:int] s == 1 ==> o < i && (dsl(tmpl, i) || upto(tmpl, i) == tjoin(seq(g.segments)) ++ "/" ++ substr(tmpl, o, i-o))
  inv [g:^ptr, i:int, o:int, s:int] s == 2 ==> dsl(tmpl, i) || (o == i && upto(tmpl, i) == tjoin(seq(g.segments)) ++ "/")
  inv [g:^ptr, i:int, o:int, s:int] s == 3 ==> dsl(tmpl, i) || upto(tmpl, i) == tjoin(seq(g.segments)) ++ "/{" ++ substr(tmpl, o, i-o)
  inv [g:^ptr, i:int, o:int, s:int] s == 4 ==> dsl(tmpl, i) || upto(tmpl, i) == tjoin(seq(g.segments))
extern fmt.Errorf(format, a) (err)
  ensures err != nil
fn router/inbuilt.defaultAllErrorsHandler(request) (x)
  requires live: request != nil && request.response != nil && request.response.fields != nil
  modifies request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair")
  ensures own: x == request.response
  ensures code: typeis(request.Env.Error, "http/status.HTTPError") ==> x.fields.Code == unbox(request.Env.Error, "http/status.HTTPError").Code
fn router/inbuilt.defaultMethodNotAllowedHandler(request) (x)
  requires live: request != nil && request.response != nil && request.response.fields != nil
  modifies request.response.fields.Code, request.response.fields.Status, request.response.fields.ContentType, request.response.fields.TransferEncoding, request.response.fields.Headers, request.response.fields.Body, request.response.fields.Cookies, request.response.fields.Attachment, anymem("internal/keyvalue.Pair")
  ensures own: x == request.response && x.fields.Code == 405
  ensures allow: len(x.fields.Headers) == 1 && pkey(seq(x.fields.Headers), 0) == "Allow" && pval(seq(x.fields.Headers), 0) == request.Env.AllowedMethods
fn router/inbuilt.Router.Use(r, middlewares) (x)
  modifies r.middlewares, grow(r.middlewares)
  ensures appended: x == r && seq(r.middlewares) == old(seq(r.middlewares)) ++ old(seq(middlewares))
fn router/inbuilt.Router.Mutator(r, mutator) (x)
  modifies r.mutators, grow(r.mutators)
  ensures appended: x == r && len(r.mutators) == old(len(r.mutators)) + 1 && upto(seq(r.mutators), old(len(r.mutators))) == old(seq(r.mutators)) && at(seq(r.mutators), old(len(r.mutators))) == mutator
fn router/inbuilt/internal/radix.New() (n)
  ensures blank: n != nil && fresh(n) && n.payload == nil && n.next == nil && !n.isWildcard && len(n.statics.arr) == 0 && !n.statics.arrOverflow
rec anywild(s: Segs, i: Int): Bool = if i >= len(s) || i < 0 then false else as(at(s, i), "router/inbuilt/internal/radix.Segment").IsWildcard || anywild(s, i+1)
fn router/inbuilt/internal/radix.Template.IsStatic(t) (r)
  ensures def: r <==> !anywild(seq(t.segments), 0)
  inv [k:int] anywild(seq(t.segments), 0) <==> anywild(seq(t.segments), k)
  inv [k:int] anywild(seq(t.segments), 0) <==> anywild(seq(t.segments), k+1)
rec elast(c: Ents, k: String, n: Int): Int = if n <= 0 then 0-1 else if as(at(c, n-1), "router/inbuilt/internal/radix.segmentEntry").Key == k then n-1 else elast(c, k, n-1)
fn router/inbuilt/internal/radix.arrMap.Add(a, key, node) ()
  requires made: a.arrOverflow ==> a.m != nil
  modifies a.arr, grow(a.arr), a.arrOverflow, a.m, map(a.m)
  ensures listed: !old(a.arrOverflow) && old(len(a.arr)) < 30 ==> !a.arrOverflow && len(a.arr) == old(len(a.arr)) + 1 && upto(seq(a.arr), old(len(a.arr))) == old(seq(a.arr)) && at(a.arr, old(len(a.arr))).Key == key && at(a.arr, old(len(a.arr))).Node == node
  ensures moved: !old(a.arrOverflow) && old(len(a.arr)) >= 30 ==> (forall k: String :: k != key ==> (let e = elast(old(seq(a.arr)), k, old(len(a.arr))) in (maphas(a.m, k) <==> e >= 0) && (e >= 0 ==> mapget(a.m, k) == as(at(old(seq(a.arr)), e), "router/inbuilt/internal/radix.segmentEntry").Node)))
  ensures kept: old(a.arrOverflow) ==> (forall k: String :: k != key ==> (maphas(a.m, k) <==> old(maphas(a.m, k))) && mapget(a.m, k) == old(mapget(a.m, k)))
  ensures mapped: old(a.arrOverflow) || old(len(a.arr)) >= 30 ==> a.arrOverflow && maphas(a.m, key) && mapget(a.m, key) == node
fn router/inbuilt/internal/radix.arrMap.escapeToMap(a) ()
  modifies a.m
  ensures made: a.m != nil && fresh(a.m)
  ensures all: (forall k: String :: let e = elast(seq(a.arr), k, len(a.arr)) in (maphas(a.m, k) <==> e >= 0) && (e >= 0 ==> mapget(a.m, k) == as(at(seq(a.arr), e), "router/inbuilt/internal/radix.segmentEntry").Node))
  inv [i:int] (forall k: String :: let e = elast(seq(a.arr), k, i) in (maphas(a.m, k) <==> e >= 0) && (e >= 0 ==> mapget(a.m, k) == as(at(seq(a.arr), e), "router/inbuilt/internal/radix.segmentEntry").Node))
  inv [i:int] (forall k: String :: let e = elast(seq(a.arr), k, i+1) in (maphas(a.m, k) <==> e >= 0) && (e >= 0 ==> mapget(a.m, k) == as(at(seq(a.arr), e), "router/inbuilt/internal/radix.segmentEntry").Node))
