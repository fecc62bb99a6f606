prop C12  # status line
def statustext(c: Int): String = if c == 100 then "Continue" else if c == 101 then "Switching Protocols" else if c == 102 then "Processing" else if c == 103 then "Early Hints" else if c == 200 then "OK" else if c == 201 then "Created" else if c == 202 then "Accepted" else if c == 203 then "Non-Authoritative Information" else if c == 204 then "No Content" else if c == 205 then "Reset Content" else if c == 206 then "Partial Content" else if c == 207 then "Multi-Status" else if c == 208 then "Already Reported" else if c == 226 then "IM Used" else if c == 300 then "Multiple Choices" else if c == 301 then "Moved Permanently" else if c == 302 then "Found" else if c == 303 then "See Other" else if c == 304 then "Not Modified" else if c == 305 then "Use Proxy" else if c == 307 then "Temporary Redirect" else if c == 308 then "Permanent Redirect" else if c == 400 then "Bad Request" else if c == 401 then "Unauthorized" else if c == 402 then "Payment Required" else if c == 403 then "Forbidden" else if c == 404 then "Not Found" else if c == 405 then "Method Not Allowed" else if c == 406 then "Not Acceptable" else if c == 407 then "Proxy Authentication Required" else if c == 408 then "Request Timeout" else if c == 409 then "Conflict" else if c == 410 then "Gone" else if c == 411 then "Length Required" else if c == 412 then "Precondition Failed" else if c == 413 then "Request Entity Too Large" else if c == 414 then "Request URI Too Long" else if c == 415 then "Unsupported Media Type" else if c == 416 then "Requested Range Not Satisfiable" else if c == 417 then "Expectation Failed" else if c == 418 then "I'm a teapot" else if c == 421 then "Misdirected Request" else if c == 422 then "Unprocessable Entity" else if c == 423 then "Locked" else if c == 424 then "Failed Dependency" else if c == 425 then "Too Early" else if c == 426 then "Upgrade Required" else if c == 428 then "Precondition Required" else if c == 429 then "Too Many Requests" else if c == 431 then "Request Header Fields Too Large" else if c == 451 then "Unavailable For Legal Reasons" else if c == 500 then "Internal Server Error" else if c == 501 then "Not Implemented" else if c == 502 then "Bad Gateway" else if c == 503 then "Service Unavailable" else if c == 504 then "Gateway Timeout" else if c == 505 then "HTTP Version Not Supported" else if c == 506 then "Variant Also Negotiates" else if c == 507 then "Insufficient Storage" else if c == 508 then "Loop Detected" else if c == 510 then "Not Extended" else if c == 511 then "Network Authentication Required" else ""
def itoa3(c: Int): String = chr(48 + c / 100) ++ chr(48 + (c / 10) % 10) ++ chr(48 + c % 10)
fn http/status.Text(code) (res)
  ensures phrase: statustext(code) != "" ==> res == statustext(code)
  ensures unknown: statustext(code) == "" ==> res == "Unknown Status Code"
fn http/status.Line(code) (res)
  ensures registered: statustext(code) != "" ==> res == itoa3(code) ++ " " ++ statustext(code) ++ "\r\n"
  ensures unregistered: statustext(code) == "" ==> res == ""
fn http/status.NewError(code, message) (err)
  ensures carries: typeis(err, "http/status.HTTPError") && unbox(err, "http/status.HTTPError").Code == code && unbox(err, "http/status.HTTPError").Message == message
  ensures predefined-0: unbox(G("http/status.ErrConnectionTimeout"), "http/status.HTTPError").Code == 408 && unbox(G("http/status.ErrCloseConnection"), "http/status.HTTPError").Code == 439 && unbox(G("http/status.ErrShutdown"), "http/status.HTTPError").Code == 439 && unbox(G("http/status.ErrGracefulShutdown"), "http/status.HTTPError").Code == 439 && unbox(G("http/status.ErrBadRequest"), "http/status.HTTPError").Code == 400 && unbox(G("http/status.ErrTooLongRequestLine"), "http/status.HTTPError").Code == 400 && unbox(G("http/status.ErrURIDecoding"), "http/status.HTTPError").Code == 400 && unbox(G("http/status.ErrBadQuery"), "http/status.HTTPError").Code == 400 && unbox(G("http/status.ErrNotFound"), "http/status.HTTPError").Code == 404 && unbox(G("http/status.ErrInternalServerError"), "http/status.HTTPError").Code == 500
  ensures predefined-1: unbox(G("http/status.ErrNotImplemented"), "http/status.HTTPError").Code == 501 && unbox(G("http/status.ErrMethodNotImplemented"), "http/status.HTTPError").Code == 501 && unbox(G("http/status.ErrMethodNotAllowed"), "http/status.HTTPError").Code == 405 && unbox(G("http/status.ErrTooLarge"), "http/status.HTTPError").Code == 413 && unbox(G("http/status.ErrBodyTooLarge"), "http/status.HTTPError").Code == 413 && unbox(G("http/status.ErrRequestEntityTooLarge"), "http/status.HTTPError").Code == 413 && unbox(G("http/status.ErrHeaderFieldsTooLarge"), "http/status.HTTPError").Code == 431 && unbox(G("http/status.ErrHeaderKeyTooLarge"), "http/status.HTTPError").Code == 431 && unbox(G("http/status.ErrHeaderValueTooLarge"), "http/status.HTTPError").Code == 431 && unbox(G("http/status.ErrTooManyHeaders"), "http/status.HTTPError").Code == 431
  ensures predefined-2: unbox(G("http/status.ErrRequestHeaderFieldsTooLarge"), "http/status.HTTPError").Code == 431 && unbox(G("http/status.ErrURITooLong"), "http/status.HTTPError").Code == 414 && unbox(G("http/status.ErrRequestURITooLong"), "http/status.HTTPError").Code == 414 && unbox(G("http/status.ErrUnsupportedProtocol"), "http/status.HTTPError").Code == 505 && unbox(G("http/status.ErrHTTPVersionNotSupported"), "http/status.HTTPError").Code == 505 && unbox(G("http/status.ErrUnauthorized"), "http/status.HTTPError").Code == 401 && unbox(G("http/status.ErrPaymentRequired"), "http/status.HTTPError").Code == 402 && unbox(G("http/status.ErrForbidden"), "http/status.HTTPError").Code == 403 && unbox(G("http/status.ErrNotAcceptable"), "http/status.HTTPError").Code == 406 && unbox(G("http/status.ErrProxyAuthRequired"), "http/status.HTTPError").Code == 407
  ensures predefined-3: unbox(G("http/status.ErrRequestTimeout"), "http/status.HTTPError").Code == 408 && unbox(G("http/status.ErrConflict"), "http/status.HTTPError").Code == 409 && unbox(G("http/status.ErrGone"), "http/status.HTTPError").Code == 410 && unbox(G("http/status.ErrLengthRequired"), "http/status.HTTPError").Code == 411 && unbox(G("http/status.ErrPreconditionFailed"), "http/status.HTTPError").Code == 412 && unbox(G("http/status.ErrUnsupportedMediaType"), "http/status.HTTPError").Code == 415 && unbox(G("http/status.ErrUnsupportedEncoding"), "http/status.HTTPError").Code == 415 && unbox(G("http/status.ErrRequestedRangeNotSatisfiable"), "http/status.HTTPError").Code == 416 && unbox(G("http/status.ErrExpectationFailed"), "http/status.HTTPError").Code == 417 && unbox(G("http/status.ErrTeapot"), "http/status.HTTPError").Code == 418
  ensures predefined-4: unbox(G("http/status.ErrMisdirectedRequest"), "http/status.HTTPError").Code == 421 && unbox(G("http/status.ErrUnprocessableEntity"), "http/status.HTTPError").Code == 422 && unbox(G("http/status.ErrLocked"), "http/status.HTTPError").Code == 423 && unbox(G("http/status.ErrFailedDependency"), "http/status.HTTPError").Code == 424 && unbox(G("http/status.ErrTooEarly"), "http/status.HTTPError").Code == 425 && unbox(G("http/status.ErrUpgradeRequired"), "http/status.HTTPError").Code == 426 && unbox(G("http/status.ErrPreconditionRequired"), "http/status.HTTPError").Code == 428 && unbox(G("http/status.ErrTooManyRequests"), "http/status.HTTPError").Code == 429 && unbox(G("http/status.ErrUnavailableForLegalReasons"), "http/status.HTTPError").Code == 451 && unbox(G("http/status.ErrBadGateway"), "http/status.HTTPError").Code == 502
  ensures predefined-5: unbox(G("http/status.ErrServiceUnavailable"), "http/status.HTTPError").Code == 503 && unbox(G("http/status.ErrGatewayTimeout"), "http/status.HTTPError").Code == 504 && unbox(G("http/status.ErrVariantAlsoNegotiates"), "http/status.HTTPError").Code == 506 && unbox(G("http/status.ErrInsufficientStorage"), "http/status.HTTPError").Code == 507 && unbox(G("http/status.ErrLoopDetected"), "http/status.HTTPError").Code == 508 && unbox(G("http/status.ErrNotExtended"), "http/status.HTTPError").Code == 510 && unbox(G("http/status.ErrNetworkAuthenticationRequired"), "http/status.HTTPError").Code == 511
fn http/status.HTTPError.Error(h) (res)
  ensures message: res == h.Message

prop C13  # attachment
extern io.Closer.Close(self) (err)
  event C
fn internal/types.NewAttachment(content, size) (a)
  ensures content: a.content == content
  ensures size: a.size == size
fn internal/types.Attachment.Content(a) (r)
  ensures content: r == a.content
fn internal/types.Attachment.Size(a) (r)
  ensures size: r == a.size
fn internal/types.Attachment.Close(a) ()
  modifies tr("io.Closer.Close")
  ensures closes-this: len(tr("io.Closer.Close")) == (if implements(a.content, "io.Closer") then 1 else 0) && (implements(a.content, "io.Closer") ==> evarg("io.Closer.Close", 0, "self") == a.content)
  ensures closes-once: order() == (if implements(a.content, "io.Closer") then "C" else "")

prop C07  # tcp client
extern net.Conn.Read(self, b) (n, err)
  event R
  modifies bytes(b)
  ensures 0 <= n && n <= len(b)
extern net.Conn.Write(self, b) (n, err)
  event W
extern time.Now() (t)
  event
extern time.Time.Add(self, d) (t)
  event
extern net.Conn.SetReadDeadline(self, t) (err)
  event D
extern net.Conn.Close(self) (err)
  event C
fn internal/tcp.NewClient(conn, timeout, buff) (c)
  ensures kind: typeis(c, "*internal/tcp.client")
  ensures fields: unbox(c, "*internal/tcp.client").conn == conn && unbox(c, "*internal/tcp.client").timeout == timeout && unbox(c, "*internal/tcp.client").buff == buff && len(unbox(c, "*internal/tcp.client").pending) == 0
fn internal/tcp.client.Unread(c, b) ()
  modifies c.pending
  ensures stored: c.pending == b
fn internal/tcp.client.Pending(c) (r)
  ensures pending: r == c.pending
fn internal/tcp.client.Read(c) (data, err)
  requires live: c.conn != nil
  modifies c.pending, bytes(c.buff), tr("net.Conn.Read"), tr("net.Conn.SetReadDeadline"), tr("time.Now"), tr("time.Time.Add")
  ensures deadline: order() != "" ==> evarg("net.Conn.SetReadDeadline", 0, "t") == evarg("time.Time.Add", 0, "t") && evarg("time.Time.Add", 0, "d") == c.timeout && evarg("time.Time.Add", 0, "self") == evarg("time.Now", 0, "t")
  ensures pushback: old(len(c.pending)) > 0 ==> data == old(c.pending) && err == nil && len(c.pending) == 0 && order() == "" && bytes(data) == old(bytes(c.pending))
  ensures no-pushback: old(len(c.pending)) == 0 ==> order() == "D" || order() == "DR"
  ensures keeps-empty: len(c.pending) == 0
  ensures deadline-error: order() == "D" ==> err != nil && err == evarg("net.Conn.SetReadDeadline", 0, "err")
  ensures deadline-ok: order() == "DR" ==> evarg("net.Conn.SetReadDeadline", 0, "err") == nil && evarg("net.Conn.SetReadDeadline", 0, "self") == c.conn
  ensures reads: order() == "DR" ==> ref(data) == ref(c.buff) && off(data) == off(c.buff) && len(data) == evarg("net.Conn.Read", 0, "n") && err == evarg("net.Conn.Read", 0, "err") && evarg("net.Conn.Read", 0, "self") == c.conn && len(evarg("net.Conn.Read", 0, "b")) == len(c.buff)
extern net.Conn.RemoteAddr(self) (a)
  event A
fn internal/tcp.client.Conn(c) (r)
  ensures conn: r == c.conn
fn internal/tcp.client.Write(c, b) (err)
  requires live: c.conn != nil
  modifies tr("net.Conn.Write")
  ensures passes-on: order() == "W" && evarg("net.Conn.Write", 0, "self") == c.conn && evarg("net.Conn.Write", 0, "b") == bytes(b) && evarg("net.Conn.Write", 0, "err") == err
fn internal/tcp.client.Remote(c) (a)
  requires live: c.conn != nil
  modifies tr("net.Conn.RemoteAddr")
  ensures asks-conn: order() == "A" && evarg("net.Conn.RemoteAddr", 0, "self") == c.conn && evarg("net.Conn.RemoteAddr", 0, "a") == a
fn internal/tcp.client.Close(c) (err)
  requires live: c.conn != nil
  modifies tr("net.Conn.Close")
  ensures closes: order() == "C" && evarg("net.Conn.Close", 0, "self") == c.conn && evarg("net.Conn.Close", 0, "err") == err

prop C09  # tcp server
extern sync.WaitGroup.Add(self, delta) ()
  event +
extern sync.WaitGroup.Done(self) ()
  event -
extern sync.WaitGroup.Wait(self) ()
  event w
extern sync/atomic.Bool.Load(self) (v)
  event L
extern sync/atomic.Bool.Store(self, v) ()
  event S
extern net.Listener.Accept(self) (conn, err)
  event a
extern net.Listener.Close(self) (err)
  event c
extern internal/tcp.OnConn(self, conn) ()
  event H
extern internal/tcp.Deadliner.SetDeadline(self, t) (err)
  event d
fn internal/tcp.NewServer(sock, onConn) (s)
  ensures sock: s != nil && s.sock == sock
  ensures handler: s.onConn == onConn
  ensures wg: s.wg != nil
  ensures fresh: fresh(s)
fn internal/tcp.Server.connHandler(s, conn) ()
  requires live: s.wg != nil && s.onConn != nil && conn != nil
  modifies tr("internal/tcp.OnConn"), tr("net.Conn.Close"), tr("sync.WaitGroup.Done")
  ensures handled-closed-done: order() == "HC-"
  ensures this-conn: evarg("internal/tcp.OnConn", 0, "conn") == conn && evarg("net.Conn.Close", 0, "self") == conn
fn internal/tcp.Server.Start(s) (err)
  requires live: s.wg != nil && s.onConn != nil && s.sock != nil
  modifies tr("sync/atomic.Bool.Load"), tr("net.Listener.Accept"), tr("sync.WaitGroup.Add"), tr("go:internal/tcp.Server.connHandler")
  ensures protocol: in_re(order(), "(re.++ (re.* (str.to_re \"La+G\")) (re.union (str.to_re \"L\") (str.to_re \"La\")))")
  ensures error: in_re(order(), "(re.++ (re.* (str.to_re \"La+G\")) (str.to_re \"La\"))") ==> err != nil
  ensures shutdown: in_re(order(), "(re.++ (re.* (str.to_re \"La+G\")) (str.to_re \"L\"))") ==> err == nil
  ensures each-accepted-once: (let n = len(tr("go:internal/tcp.Server.connHandler")) in len(tr("net.Listener.Accept")) == n + (if err == nil then 0 else 1) && (forall i: Int :: 0 <= i && i < n ==> evfield("go:internal/tcp.Server.connHandler", tr("go:internal/tcp.Server.connHandler"), i, 1) == evfield("net.Listener.Accept", tr("net.Listener.Accept"), i, 2) && evfield("go:internal/tcp.Server.connHandler", tr("go:internal/tcp.Server.connHandler"), i, 2) == evfield("net.Listener.Accept", tr("net.Listener.Accept"), i, 3)))
  inv in_re(order(), "(re.* (str.to_re \"La+G\"))")
  inv len(tr("net.Listener.Accept")) == len(tr("go:internal/tcp.Server.connHandler"))
  inv (forall i: Int :: 0 <= i && i < len(tr("go:internal/tcp.Server.connHandler")) ==> evfield("go:internal/tcp.Server.connHandler", tr("go:internal/tcp.Server.connHandler"), i, 1) == evfield("net.Listener.Accept", tr("net.Listener.Accept"), i, 2) && evfield("go:internal/tcp.Server.connHandler", tr("go:internal/tcp.Server.connHandler"), i, 2) == evfield("net.Listener.Accept", tr("net.Listener.Accept"), i, 3))
fn internal/tcp.Server.Stop(s) (err)
  requires live: s.sock != nil
  modifies tr("net.Listener.Close")
  ensures closes: order() == "c" && len(tr("net.Listener.Close")) == 1 && evarg("net.Listener.Close", 0, "self") == s.sock && evarg("net.Listener.Close", 0, "err") == err
fn internal/tcp.Server.Pause(s) ()
  requires live: s.sock != nil
  modifies tr("sync/atomic.Bool.Store"), tr("internal/tcp.Deadliner.SetDeadline"), tr("time.Now")
  ensures flag-then-interrupt: order() == (if implements(s.sock, "internal/tcp.Deadliner") then "Sd" else "S")
  ensures flag-set: len(tr("sync/atomic.Bool.Store")) == 1 && evarg("sync/atomic.Bool.Store", 0, "v")
  ensures interrupt-now: len(order()) == 2 ==> evarg("internal/tcp.Deadliner.SetDeadline", 0, "self") == s.sock && evarg("internal/tcp.Deadliner.SetDeadline", 0, "t") == evarg("time.Now", 0, "t")
fn internal/tcp.Server.Wait(s) ()
  requires live: s.wg != nil
  modifies tr("sync.WaitGroup.Wait")
  ensures waits: order() == "w" && len(tr("sync.WaitGroup.Wait")) == 1 && evarg("sync.WaitGroup.Wait", 0, "self") == s.wg
fn internal/tcp.WaitAll(servers) ()
  requires live: (forall i: Int :: 0 <= i && i < len(servers) ==> at(servers, i) != nil && at(servers, i).wg != nil)
  modifies tr("sync.WaitGroup.Wait")
  ensures waits: in_re(order(), "(re.* (str.to_re \"w\"))") && len(tr("sync.WaitGroup.Wait")) == len(servers)
  ensures each: (forall i: Int :: 0 <= i && i < len(servers) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
  inv in_re(order(), "(re.* (str.to_re \"w\"))")
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i + 1
  inv (forall i: Int :: 0 <= i && i < len(tr("sync.WaitGroup.Wait")) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
fn internal/tcp.StopAll(servers) ()
  requires live: (forall i: Int :: 0 <= i && i < len(servers) ==> at(servers, i) != nil && at(servers, i).wg != nil && at(servers, i).sock != nil)
  modifies tr("sync.WaitGroup.Wait"), tr("net.Listener.Close")
  ensures closes-then-waits: in_re(order(), "(re.++ (re.* (str.to_re \"c\")) (re.* (str.to_re \"w\")))") && len(tr("sync.WaitGroup.Wait")) == len(servers) && len(tr("net.Listener.Close")) == len(servers)
  ensures each-closed: (forall i: Int :: 0 <= i && i < len(servers) ==> evfield("net.Listener.Close", tr("net.Listener.Close"), i, 0) == at(servers, i).sock.tag && evfield("net.Listener.Close", tr("net.Listener.Close"), i, 1) == at(servers, i).sock.data)
  ensures each-awaited: (forall i: Int :: 0 <= i && i < len(servers) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
  inv in_re(order(), "(re.* (str.to_re \"c\"))")
  inv in_re(order(), "(re.++ (re.* (str.to_re \"c\")) (re.* (str.to_re \"w\")))")
  inv [i:int] len(tr("net.Listener.Close")) == i
  inv [i:int] len(tr("net.Listener.Close")) == i + 1
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i + 1
  inv (forall i: Int :: 0 <= i && i < len(tr("net.Listener.Close")) ==> evfield("net.Listener.Close", tr("net.Listener.Close"), i, 0) == at(servers, i).sock.tag && evfield("net.Listener.Close", tr("net.Listener.Close"), i, 1) == at(servers, i).sock.data)
  inv (forall i: Int :: 0 <= i && i < len(tr("sync.WaitGroup.Wait")) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
fn internal/tcp.PauseAll(servers) ()
  requires live: (forall i: Int :: 0 <= i && i < len(servers) ==> at(servers, i) != nil && at(servers, i).wg != nil && at(servers, i).sock != nil)
  modifies tr("sync.WaitGroup.Wait"), tr("sync/atomic.Bool.Store"), tr("internal/tcp.Deadliner.SetDeadline"), tr("time.Now")
  ensures pauses-then-waits: in_re(order(), "(re.++ (re.* (re.union (str.to_re \"S\") (str.to_re \"Sd\"))) (re.* (str.to_re \"w\")))") && len(tr("sync.WaitGroup.Wait")) == len(servers) && len(tr("sync/atomic.Bool.Store")) == len(servers)
  ensures each-awaited: (forall i: Int :: 0 <= i && i < len(servers) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
  inv in_re(order(), "(re.* (re.union (str.to_re \"S\") (str.to_re \"Sd\")))")
  inv in_re(order(), "(re.++ (re.* (re.union (str.to_re \"S\") (str.to_re \"Sd\"))) (re.* (str.to_re \"w\")))")
  inv [i:int] len(tr("sync/atomic.Bool.Store")) == i
  inv [i:int] len(tr("sync/atomic.Bool.Store")) == i + 1
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i
  inv [i:int] len(tr("sync.WaitGroup.Wait")) == i + 1
  inv (forall i: Int :: 0 <= i && i < len(tr("sync.WaitGroup.Wait")) ==> evfield("sync.WaitGroup.Wait", tr("sync.WaitGroup.Wait"), i, 0) == ref(at(servers, i).wg))
