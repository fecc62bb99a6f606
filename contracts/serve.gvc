prop C26  # serving loop
extern router.Router.OnRequest(self, request) (resp)
  event Q
  modifies request.Upgrade, request.Proto, request.wasHijacked
extern router.Router.OnError(self, request, err) (resp)
  event E
  modifies request.Upgrade, request.Proto, request.wasHijacked
extern http.Body.Init(self, request) ()
  event I
view internal/protocol/http1.Parser.Parse(p, data) (state, extra, err)
  event P
  modifies p.request.Upgrade, p.request.Proto
  ensures 1 <= state && state <= 3
view internal/protocol/http1.Serializer.PreWrite(d, protocol, response) ()
  event p
view internal/protocol/http1.Serializer.Write(d, protocol, response) (err)
  event W
view http.Request.Clear(r) (err)
  event c
  modifies r.Upgrade
view http.Request.WasHijacked(r) (h)
  event h
sort TrR = tr:internal/tcp.Client.Read
sort TrP = tr:view:internal/protocol/http1.Parser.Parse
sort TrU = tr:internal/tcp.Client.Unread
sort TrQ = tr:router.Router.OnRequest
sort TrE = tr:router.Router.OnError
sort TrW = tr:view:internal/protocol/http1.Serializer.Write
sort TrC = tr:view:http.Request.Clear
sort TrH = tr:view:http.Request.WasHijacked
def rdat(t: TrR, i: Int): String = evfield("internal/tcp.Client.Read", t, i, 2)
def rerr(t: TrR, i: Int): Bool = evfield("internal/tcp.Client.Read", t, i, 3) != 0
def pdat(t: TrP, i: Int): String = evfield("view:internal/protocol/http1.Parser.Parse", t, i, 1)
def pstate(t: TrP, i: Int): Int = evfield("view:internal/protocol/http1.Parser.Parse", t, i, 2)
def pextra(t: TrP, i: Int): String = evfield("view:internal/protocol/http1.Parser.Parse", t, i, 3)
def werr(t: TrW, i: Int): Bool = evfield("view:internal/protocol/http1.Serializer.Write", t, i, 3) != 0
def wresp(t: TrW, i: Int): Int = evfield("view:internal/protocol/http1.Serializer.Write", t, i, 2)
def qresp(t: TrQ, i: Int): Int = evfield("router.Router.OnRequest", t, i, 3)
def cerr(t: TrC, i: Int): Bool = evfield("view:http.Request.Clear", t, i, 1) != 0
def hij(t: TrH, i: Int): Bool = evfield("view:http.Request.WasHijacked", t, i, 1)
def unr(t: TrU, i: Int): String = evfield("internal/tcp.Client.Unread", t, i, 2)
rec extras(t: TrP): Strs = if len(t) <= 0 then emptyseq("Strs") else if pstate(t, len(t)-1) == 2 then extras(upto(t, len(t)-1)) ++ unit(pextra(t, len(t)-1)) else extras(upto(t, len(t)-1))
rec unreads(t: TrU): Strs = if len(t) <= 0 then emptyseq("Strs") else unreads(upto(t, len(t)-1)) ++ unit(unr(t, len(t)-1))
fn internal/protocol/http1.Suit.serve(s, once) (ok)
  views
  requires live: s.Parser != nil && s.Serializer != nil && s.client != nil && s.router != nil && s.Parser.request != nil && s.Parser.request.Body != nil && s.upgradePreResp != nil && s.upgradePreResp.fields != nil && s.Parser.request.response != nil && s.Parser.request.response.fields != nil && s.upgradePreResp.fields != s.Parser.request.response.fields
  modifies s.Parser.request.Upgrade, s.Parser.request.Proto, s.Parser.request.wasHijacked, anyobj("internal/response.Fields"), anymem("internal/keyvalue.Pair"), tr("internal/tcp.Client.Read"), tr("internal/tcp.Client.Unread"), tr("router.Router.OnRequest"), tr("router.Router.OnError"), tr("http.Body.Init"), tr("view:internal/protocol/http1.Parser.Parse"), tr("view:internal/protocol/http1.Serializer.PreWrite"), tr("view:internal/protocol/http1.Serializer.Write"), tr("view:http.Request.Clear"), tr("view:http.Request.WasHijacked")
  ensures turns: !once ==> in_re(order(), "(re.++ (re.* (re.++ (str.to_re \"RP\") (re.opt (re.++ (re.opt (str.to_re \"p\")) (str.to_re \"UIQhWc\"))))) (re.++ (str.to_re \"R\") (re.union (str.to_re \"E\") (str.to_re \"PEW\") (re.++ (str.to_re \"P\") (re.opt (str.to_re \"p\")) (str.to_re \"UIQh\") (re.opt (re.++ (str.to_re \"W\") (re.opt (str.to_re \"c\")) (str.to_re \"E\")))))))") && !ok
  ensures one-turn: once ==> (if ok then in_re(order(), "(re.++ (str.to_re \"RP\") (re.opt (re.++ (re.opt (str.to_re \"p\")) (str.to_re \"UIQhWc\"))))") else in_re(order(), "(re.++ (str.to_re \"R\") (re.union (str.to_re \"E\") (str.to_re \"PEW\") (re.++ (str.to_re \"P\") (re.opt (str.to_re \"p\")) (str.to_re \"UIQh\") (re.opt (re.++ (str.to_re \"W\") (re.opt (str.to_re \"c\")) (str.to_re \"E\"))))))"))
  ensures reads: len(tr("internal/tcp.Client.Read")) >= 1 && (forall i: Int :: 0 <= i && i < len(tr("internal/tcp.Client.Read"))-1 ==> !rerr(tr("internal/tcp.Client.Read"), i)) && (rerr(tr("internal/tcp.Client.Read"), len(tr("internal/tcp.Client.Read"))-1) <==> suffixof("RE", order()))
  ensures parsed: (forall i: Int :: 0 <= i && i < len(tr("view:internal/protocol/http1.Parser.Parse")) ==> pdat(tr("view:internal/protocol/http1.Parser.Parse"), i) == rdat(tr("internal/tcp.Client.Read"), i)) && (forall i: Int :: 0 <= i && i < len(tr("view:internal/protocol/http1.Parser.Parse"))-1 ==> pstate(tr("view:internal/protocol/http1.Parser.Parse"), i) != 3)
  ensures malformed: suffixof("PEW", order()) <==> len(tr("view:internal/protocol/http1.Parser.Parse")) == len(tr("internal/tcp.Client.Read")) && pstate(tr("view:internal/protocol/http1.Parser.Parse"), len(tr("view:internal/protocol/http1.Parser.Parse"))-1) == 3
  ensures pushed-back: unreads(tr("internal/tcp.Client.Unread")) == extras(tr("view:internal/protocol/http1.Parser.Parse"))
  ensures answered: (forall i: Int :: 0 <= i && i < len(tr("router.Router.OnRequest")) && i < len(tr("view:internal/protocol/http1.Serializer.Write")) ==> wresp(tr("view:internal/protocol/http1.Serializer.Write"), i) == (if qresp(tr("router.Router.OnRequest"), i) != 0 then qresp(tr("router.Router.OnRequest"), i) else ref(s.Parser.request.response)))
  ensures hijacked: suffixof("h", order()) <==> len(tr("view:http.Request.WasHijacked")) > 0 && hij(tr("view:http.Request.WasHijacked"), len(tr("view:http.Request.WasHijacked"))-1)
  ensures not-hijacked: (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.WasHijacked"))-1 ==> !hij(tr("view:http.Request.WasHijacked"), i))
  ensures written: (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.Clear")) ==> !werr(tr("view:internal/protocol/http1.Serializer.Write"), i)) && (suffixof("hWE", order()) ==> werr(tr("view:internal/protocol/http1.Serializer.Write"), len(tr("view:internal/protocol/http1.Serializer.Write"))-1))
  ensures cleared: (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.Clear"))-1 ==> !cerr(tr("view:http.Request.Clear"), i)) && (suffixof("cE", order()) ==> cerr(tr("view:http.Request.Clear"), len(tr("view:http.Request.Clear"))-1)) && (!suffixof("cE", order()) ==> (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.Clear")) ==> !cerr(tr("view:http.Request.Clear"), i)))
  inv in_re(order(), "(re.* (re.++ (str.to_re \"RP\") (re.opt (re.++ (re.opt (str.to_re \"p\")) (str.to_re \"UIQhWc\")))))")
  inv once ==> order() == ""
  inv len(tr("internal/tcp.Client.Read")) == len(tr("view:internal/protocol/http1.Parser.Parse"))
  inv (forall i: Int :: 0 <= i && i < len(tr("internal/tcp.Client.Read")) ==> !rerr(tr("internal/tcp.Client.Read"), i))
  inv (forall i: Int :: 0 <= i && i < len(tr("internal/tcp.Client.Read")) ==> pdat(tr("view:internal/protocol/http1.Parser.Parse"), i) == rdat(tr("internal/tcp.Client.Read"), i))
  inv (forall i: Int :: 0 <= i && i < len(tr("view:internal/protocol/http1.Parser.Parse")) ==> pstate(tr("view:internal/protocol/http1.Parser.Parse"), i) != 3)
  inv unreads(tr("internal/tcp.Client.Unread")) == extras(tr("view:internal/protocol/http1.Parser.Parse"))
  inv len(tr("router.Router.OnRequest")) == len(tr("view:internal/protocol/http1.Serializer.Write")) && len(tr("view:http.Request.Clear")) == len(tr("view:internal/protocol/http1.Serializer.Write")) && len(tr("view:http.Request.WasHijacked")) == len(tr("view:internal/protocol/http1.Serializer.Write"))
  inv (forall i: Int :: 0 <= i && i < len(tr("router.Router.OnRequest")) ==> wresp(tr("view:internal/protocol/http1.Serializer.Write"), i) == (if qresp(tr("router.Router.OnRequest"), i) != 0 then qresp(tr("router.Router.OnRequest"), i) else ref(s.Parser.request.response)))
  inv (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.WasHijacked")) ==> !hij(tr("view:http.Request.WasHijacked"), i))
  inv (forall i: Int :: 0 <= i && i < len(tr("view:internal/protocol/http1.Serializer.Write")) ==> !werr(tr("view:internal/protocol/http1.Serializer.Write"), i))
  inv (forall i: Int :: 0 <= i && i < len(tr("view:http.Request.Clear")) ==> !cerr(tr("view:http.Request.Clear"), i))
