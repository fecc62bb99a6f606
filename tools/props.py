T="Unbounded: every obligation of the listed contracts is discharged on the current source for all inputs and iterations. "
prop("C01","Percent-decoding is exact, total on bad input, and never corrupts its buffers",
 "For every byte string, decoding succeeds exactly when every '%' is followed by two hexadecimal digits; then what is appended to the given buffer is the input with each %XX (either letter case) replaced by the byte it encodes and everything else verbatim. Otherwise the URI-decoding error and no data are returned. What the buffer held before stays as its prefix, the same result comes out when decoding in place, and it never panics.",
 ["inputs"],"every source byte string and every destination buffer (length, capacity, contents), separate from the source or in place before it",
 "The package's test decodes a handful of literals into nil or one buffer; truncated escapes at each position, each non-hex byte, buffer reuse and in-place decoding are unsampled.",
 ["internal/uridecode/decoder.go","internal/hexconv/hexconv.go"],[("Decode loop over IndexByte('%')","internal/uridecode/decoder.go Decode"),("hex digit table","internal/hexconv/hexconv.go Parse")],
 T+"Assumes the semantics of bytes.IndexByte and append given by the verifier, mathematical integers with overflow obligations, and source/destination either in different arrays or destination before the source.")
prop("C02","Path normalisation strips trailing slashes and nothing else",
 "For every request path the normalised path is the path without its trailing slashes: a prefix of the input from which only '/' characters were cut, that does not end in '/' unless it is the single character '/', and is never empty for a non-empty path.",
 ["inputs"],"every string","The tests sample about five literals; the defect fixed in 72ba812 (a one-letter path followed by slashes) is outside them.",
 ["router/inbuilt/uri/normalize.go"],[("backward scan for the last non-slash","router/inbuilt/uri/normalize.go Normalize")],T+"Strings are byte sequences.")
prop("C03","Domain normalisation removes a www. prefix and default ports only",
 "For every host string the normalised domain is the host without one leading 'www.' and without a trailing ':80' or ':443'; any other port and every other character is kept. Trimming the port cuts everything from the first ':' on and nothing otherwise.",
 ["inputs"],"every string","The test samples a few well-formed hosts.",
 ["router/virtual/internal/domain/normalize.go"],[("Normalize, TrimPort","router/virtual/internal/domain/normalize.go")],T+"strings.TrimPrefix/IndexByte etc. follow the verifier's string model.")
prop("C04","Listen-address handling keeps the address and classifies its host",
 "For every listen address, normalising prepends 0.0.0.0 exactly when nothing precedes the first ':' and otherwise returns it unchanged. It is classified as localhost exactly when its host part (what precedes the first ':') equals 'localhost' up to letter case, and as an IP exactly when that host part parses as an IP address.",
 ["inputs"],"every string","The test samples a few literals.",
 ["internal/address/address.go"],[("stripPort and its users","internal/address/address.go")],T+"net.ParseIP and strings.EqualFold are assumed (uninterpreted, deterministic).")
prop("C05","The length-bucketed map returns the first value stored under a key",
 "After any history of insertions, a lookup finds a key exactly when it was inserted, and returns the value of the first insertion under that key; inserting one key never changes what any other key yields, whatever the keys' lengths and the order of insertions.",
 ["inputs","histories"],"every sequence of insertions of arbitrary keys and values, interleaved with lookups","The package has only a benchmark; no insertion history is checked.",
 ["internal/strlenmap/map.go"],[("buckets by key length, append at the end, first match wins","internal/strlenmap/map.go Insert, Get, resize")],
 T+"Sequential use; history property follows by induction from the per-operation contracts (lemma findapp) with the bucket-separation invariant established by New and preserved by Insert. Verified for an arbitrary element type (generic body, uninterpreted T).")
prop("C06","The stash reader hands over the source's bytes once, in order, with errors after data",
 "For every sequence of reads with buffers of any size, the bytes returned are exactly the concatenation of the chunks the source returned, in order, none lost or repeated; the source is asked only when everything before has been delivered; an error is reported by the read that delivers the last byte returned with it, not before, is sticky, and the source is not asked again until Reset, which drops leftovers and the error.",
 ["inputs","histories"],"every source behaviour (chunk sizes, empty chunks, errors with or without data) and every read-buffer size","Tests drive one or two chunkings.",
 ["internal/stash/reader.go"],[("pending slice and stored error","internal/stash/reader.go Read, Reset")],
 T+"The source callback is unconstrained (its results are arbitrary); a source that overwrites its chunk while it is pending is excluded by assumption.")
prop("C07","A TCP client returns pushed-back bytes first and arms the read deadline before every socket read",
 "For every connection behaviour, a read returns pushed-back data verbatim without touching the socket if there is any (once), and otherwise sets the read deadline to now plus the configured timeout and then reads once into its buffer, returning exactly the bytes read with the connection's error; a failed deadline is returned without reading. Writes, closing and the remote address go to the same connection with its result returned unchanged.",
 ["inputs","histories","fault_sequences"],"every pushed-back slice, buffer, timeout and every result of the connection's methods","The package's tests exercise no failing deadline, short read or push-back interplay.",
 ["internal/tcp/client.go"],[("pending push-back; SetReadDeadline before Read","internal/tcp/client.go")],
 T+"net.Conn, time.Now and Time.Add are external with unconstrained results (Read: 0<=n<=len).")
prop("C08","The in-memory client replays its chunks in order and records what is written",
 "For every chunk list and every interleaving of reads, push-backs and close, reads return pushed-back data first and otherwise the next chunk cyclically with no error; after close every read gives EOF, and in one-time mode also every read after the first. The sinkhole writer accumulates exactly the concatenation of everything written to it.",
 ["inputs","histories"],"every chunk list, operation sequence and written data","No test checks the doubles the rest of the test suite trusts.",
 ["internal/tcp/dummy/client.go","internal/tcp/dummy/conn.go"],[("CircularClient, SinkholeWriter","internal/tcp/dummy")],T+"Sequential use.")
prop("C09","The TCP server hands each accepted connection to the handler once, closes it, and accounts for it",
 "Whatever the listener does, every accepted connection is counted before its handler starts, handed to the handler exactly once, then closed, then discounted; accepting ends with the listener's error, or with no error once paused. Stop closes the listener and reports its result; pause raises the flag before interrupting a blocked accept; the all-servers forms apply to every server and then wait for every one's in-flight connections.",
 ["inputs","histories","fault_sequences"],"every accept history (connections, errors), pause point between accepts, and server list","Tests start one server and connect once.",
 ["internal/tcp/server.go"],[("Start, connHandler, Stop, Pause, Wait, *All","internal/tcp/server.go")],
 T+"Traces of external calls (listener, wait group, handler) are the observable; goroutine start is an event, its body a separate contract; interleavings beyond that are not explored.")
prop("C10","Content codings are registered under their token and its alias and applied by token",
 "After any registration history, encoding or decoding with a registered token passes the input to the coding last registered under it and returns its result; an unknown token gives the unknown-token error without data; identity or empty input is returned unchanged. Registering builds one coding with a buffer of the configured size and changes no other token, and gzip/compress are also reachable as x-gzip/x-compress.",
 ["inputs","histories"],"every token, input, registry content and coding behaviour","The package has no test.",
 ["http/coding/codings.go"],[("token-keyed map, alias","http/coding/codings.go Manager")],
 T+"Codings are external (arbitrary results); a coding's token is assumed fixed.")
prop("C11","Method parsing and naming are inverse and accept nothing else",
 "For every byte string, parsing yields a known method exactly for the nine case-sensitive names GET, HEAD, POST, PUT, DELETE, CONNECT, OPTIONS, TRACE, PATCH and unknown for everything else; a known method's name parses back to it; no other method value's name parses as a known method; the method list has each known method once, in numeric order.",
 ["inputs"],"every string and every method value","Tests iterate over the list and one unknown literal.",
 ["http/method/method.go","http/method/method_string.go"],[("Parse by length and content; String; List","http/method")],T)
prop("C12","Status lines, reason phrases and errors agree for every code",
 "For every status code with a registered reason phrase, the status line is the three-digit code, a space, that same phrase and CRLF, and the phrase is the registered one; an unregistered code has no status line. An HTTP error carries exactly its code and message and prints its message, and every predefined error carries the status code its name denotes.",
 ["inputs"],"every 16-bit code and every message","No test compares the two tables; the disagreement fixed in 663336e was unnoticed.",
 ["http/status/codes.go","http/status/errors.go"],[("Text and Line tables","http/status/codes.go")],T)
prop("C13","An attachment keeps its content and size and closes the content once",
 "An attachment returns exactly the reader and the size it was made with, for every reader and size; closing it closes the reader exactly once when the reader can be closed and does nothing otherwise.",
 ["inputs"],"every reader (closable or not, nil) and size","There is no test.",
 ["internal/types/attachment.go"],[("Attachment","internal/types/attachment.go")],T+"io.Closer is external.")
prop("C14","The key-value storage is an ordered multimap with case-insensitive keys",
 "After any history of additions and clears, a lookup finds a key exactly when a pair with an equal key (ASCII letter case ignored) was added since the last clear, and yields the first such value; all values of a key come in insertion order, the key list has each key once with its first spelling in order of first insertion, and cloning gives the same pairs in separate storage. Adding appends one pair and changes no other.",
 ["inputs","histories"],"every sequence of additions, clears and lookups with arbitrary keys and values","The tests cover a few literal keys.",
 ["internal/keyvalue/storage.go"],[("pair slice, linear search with EqualFold","internal/keyvalue/storage.go")],
 T+"strcomp.EqualFold (external module, absent offline) is assumed to compare ASCII-case-insensitively. Sequential use.")
prop("C15","Header values split into value and parameters by exact delimiters",
 "For every header value, its value part is what precedes the first ';'; a parameter is what follows the first ';key=' up to the next ';' and the given default (iso-8859-1 for charset, 9 for quality) exactly when that is absent; a quality is the decimal digits after '0.' and the default when they are not an integer.",
 ["inputs"],"every header value and parameter name","The tests sample a few literals.",
 ["http/headers/valueaccessors.go"],[("getParam","http/headers")],T+"strconv.Atoi is an uninterpreted deterministic function.")
prop("C16","Protocol tokens are recognised exactly and upgrades chosen in the client's order",
 "For every byte string, the protocol is recognised exactly for HTTP/1.0, HTTP/1.1 and HTTP/2.0 and unknown for everything else; versions outside these are unknown; for every Upgrade value, the first comma-separated supported token is chosen, and unknown when there is none.",
 ["inputs"],"every byte string, version pair and Upgrade value","The tests sample well-formed tokens; the defect fixed in 684a408 (any byte in place of the dot) was outside them.",
 ["http/proto/proto.go","http/proto/upgrade.go"],[("FromBytes, Parse, ChooseUpgrade","http/proto")],T+"strings.TrimSpace is an uninterpreted deterministic function.")
prop("C17","Escaped paths contain printable ASCII only and keep every printable byte",
 "For every path, escaping replaces each non-printable or non-ASCII byte, wherever it stands, by a backslash and its escape letter ('?' when it has none) and keeps every printable byte verbatim and in order.",
 ["inputs"],"every string","The test samples a few literals; the defect fixed in 62bc402 (bytes of multibyte characters) was outside them.",
 ["http/path.go"],[("Escape, escapeByte","http/path.go")],T)
prop("C19","Static paths stay under their root and are rewritten by prefix only",
 "For every request path, a path containing '..' is unsafe and any other is safe; replacing the URL prefix yields the root directory (with one trailing separator) followed by exactly what came after the prefix, for every prefix, root and sequence of paths put through the same replacer.",
 ["inputs","histories"],"every prefix, root, and sequence of request paths","The tests sample a few literals.",
 ["internal/pathlib/path.go","router/inbuilt/static.go"],[("Path.Set/Relative over one buffer","internal/pathlib/path.go"),("isSafe","router/inbuilt/static.go")],
 T+"Sequential use of a replacer.")
prop("C20","Request cookies are parsed pair by pair and rejected when malformed",
 "For every Cookie header value, parsing succeeds exactly when it is a sequence of non-empty-name=value pairs separated by ';' and an optional space, and then adds exactly those pairs in order after what the jar already held; otherwise the bad-cookie error is returned. Building a cookie sets exactly the named attribute and keeps all others.",
 ["inputs","histories"],"every header value and jar content; every builder chain","The tests sample well-formed values.",
 ["http/cookie/jar.go","http/cookie/cookie.go"],[("Parse","http/cookie/jar.go"),("Builder","http/cookie/cookie.go")],T)
prop("C22","A request body is exactly its bytes of the stream, bounded, and ends once",
 "For every body and every way the connection cuts it into pieces, the body a request yields (whole, by callback, piecewise or through the reader) is exactly its content-length bytes, or the chunks decoded, in order; what follows it on the connection is pushed back untouched for the next request. A body over the limit gives the too-large error; a connection that fails or closes before the body is complete gives an error, never a short body taken as complete. After the end only end-of-body is reported and the connection is left alone; a request never sees the body of a previous one.",
 ["inputs","histories","fault_sequences"],"every content length, limit, sequence of connection reads (data, errors) and of body methods over several requests on a connection","The tests use a double that never fails and one request per body; the defects fixed in 80b803c and 1ec540e need a second request or a connection closed mid-body.",
 ["internal/protocol/http1/body.go","internal/stash/reader.go"],[("plain and chunked readers, pushing back the rest","internal/protocol/http1/body.go"),("Bytes caches the whole body","internal/protocol/http1/body.go Body.Bytes, Init")],
 T+"tcp.Client, the chunked-coding parser (external module absent offline; arbitrary results) and the callback are external. Unbounded body lengths up to 2^40 for the preallocation. io.EOF and other library sentinels are assumed distinct.")
prop("C23","Every response is serialised completely, once, and leaves nothing behind for the next",
 "For every response and request on a connection, what is written is the protocol, the status line (the custom status text when set), the response's headers in order, each default header the response does not set itself, content type, transfer encoding if set, the cookies with exactly their attributes, and then either the content length and the body in one write, or the attachment: verbatim with its size as the length, or chunk-encoded when the size is unknown. A HEAD response has the same head and no body. Everything the attachment's reader delivered until its end is sent, in order; it is closed exactly once whatever happens. A response after which the connection must not be kept alive, or a failed write, makes serialisation report an error; afterwards the buffer is empty and all default headers apply again.",
 ["inputs","histories","fault_sequences"],"every response (headers, cookies, body, attachment, code), request, default-header list, reader behaviour and write failure, over any number of responses","The tests send one response per serializer and readers that report EOF separately; six defects fixed were outside them.",
 ["internal/protocol/http1/serializer.go"],[("append to one buffer, default headers excluded by name","internal/protocol/http1/serializer.go renderHeaders, Write"),("plain and chunked attachment loops","internal/protocol/http1/serializer.go writePlainBody, writeChunkedBody"),("clear after every write","internal/protocol/http1/serializer.go clear")],
 T+"The writer, the attachment's reader and closer are external with arbitrary results (0<=n<=len); time formatting, strconv and strcomp.EqualFold are assumed functions. Assumes a body that does not share the serializer's buffer, and a file buffer of 16 bytes to 4 GiB. The constructor's rendering of default headers (fmt, map iteration) is not under contract.")
prop("C24","A response builder sets exactly what is asked and starts blank",
 "For every chain of builder calls, each call returns the same response and changes only its own part: code, status text, content type, transfer encoding, body, attachment; headers and cookies accumulate in order; the content-type and transfer-encoding headers, in any letter case, set those parts instead. A file response attaches the opened file with its size and its extension's type (octet-stream when unknown); when the file cannot be opened, is a directory or cannot be inspected, the matching error results, nothing is attached and no descriptor stays open. An error sets its own code and, unless it is an HTTP error, its text as the body; clearing gives a blank 200 text/html response, whatever was set before.",
 ["inputs","histories","fault_sequences"],"every chain of calls with arbitrary arguments, every error value and every behaviour of the file system","The tests sample single calls; the four defects fixed (panic on a header without values, leaked descriptors, JSON rendered over a foreign body) were outside them.",
 ["http/response.go","internal/response/fields.go","http/mime/exts.go"],[("fields behind a pointer, cleared on Respond","http/response.go, internal/response/fields.go")],
 T+"os.Open, Stat, Close and the file info are external with arbitrary results; filepath.Ext is an assumed function. TryJSON/JSON (json-iterator) and Headers (map iteration) are only exercised by the counterexample search.")
prop("C25","A request object carries nothing over to the next request of its connection",
 "A new request is blank apart from what it was made of; clearing it drains the body first and then leaves no query, path parameter, header, content length, type or encoding, connection, upgrade, context or environment of the previous request, keeping only what belongs to the connection; if draining fails the error is returned. Responding gives the request's own response, blank. Hijacking drains the body and gives the connection's client, and is recorded only if draining succeeded. The cookies are the pairs of all Cookie headers in order, of the current request only, or the bad-cookie error when one is malformed.",
 ["inputs","histories","fault_sequences"],"every request content, sequence of requests and failure of the body","The tests parse one request each; the defect fixed (the encryption token lost after the first request) needs a second one.",
 ["http/request.go","http/query/query.go"],[("Clear, Respond, Hijack, Cookies","http/request.go"),("lazy query reset by Set","http/query/query.go")],
 T+"The body and the client are external with arbitrary results; strcomp.EqualFold is assumed. The cookie jar is assumed distinct from the request's headers storage.")
prop("C26","A connection is served request by request: one response each, in order, nothing after its end",
 "Whatever the connection delivers and however it is cut, each piece read is parsed once, in order; each complete request is handed to the router exactly once with what follows it pushed back first, and is answered by exactly one response, the router's own (or the blank one), before anything more is read. After a hijack nothing more is read or written; a malformed request is answered by the router's error response and ends the connection; a failed read, write or drain is reported to the router once and ends it. An upgrade is announced before the response.",
 ["inputs","histories","fault_sequences"],"every sequence of reads, parser outcomes, router answers (or none), hijacks and write or drain failures, over any number of requests","The tests serve well-formed requests without failures; the two defects fixed (headers of upgrade responses accumulate; the wrong protocol is announced) need a second upgrade or another version.",
 ["internal/protocol/http1/suit.go"],[("serve loop over the parser's states","internal/protocol/http1/suit.go serve")],
 T+"Traces of calls are the observable: client, router and body are external; Parser.Parse, Serializer.Write/PreWrite, Request.Clear and WasHijacked are used through coarser assumed views (arbitrary results, state one of the three). The parser itself is only exercised by the counterexample search.")
prop("C18","Query parameters are split, decoded and looked up exactly",
 "For every query string, parsing succeeds exactly when no part between '&' starts with '=' and every percent escape is valid; then the parameters are, in order, the parts split at '&' and at the first '=', both sides with '+' read as a space and escapes decoded, a part without '=' having the value 1. A lookup gives the first value of the key or the no-such-key error, an invalid query gives an error and no value every time it is asked, and the raw query stays as it was received.",
 ["inputs","histories"],"every query string, every state of the lazily parsed query, every key",
 "The query tests parse about fifteen literals once each.",
 ["http/query/query.go","http/query/internal/parser.go"],[("in-place splitter","http/query/internal/parser.go Parse, decode"),("lazy parse","http/query/query.go parse, Get, Unwrap")],
 T+"Assumes that strings made from buffers without copying keep their contents while used, that the receive buffer holding the raw query and the query's own buffer are different arrays, and the contracts of C01 and C14 (checked there).")
prop("C28","Virtual hosts: a request goes to the router of its Host header and to no other",
 "For every list of registered hosts and every request: a request with one Host header goes to the router registered first under that host, compared without regard to ASCII letter case and after removing a leading www. and the default ports 80 and 443 on both sides; when no host matches it goes to the default router, or is refused with 421 when there is none. Without a Host header it goes to the default router or is refused with 400; with several it is refused with 400 and reaches no router. A host whose name is 0.0.0.0 registers the default router. Errors are dispatched in the same way, the router's response is returned as it is, and initialisation initialises each registered router exactly once, in order.",
 ["inputs","histories"],"every host list, every Host header list, every registration sequence","The virtual router's tests send a handful of hosts; the defect fixed in 0ff4b75 (hosts with www. or the default port never matched) was outside them.",
 ["router/virtual/virtual.go","router/virtual/internal/domain/normalize.go"],[("getRouter compares normalised domains in order","router/virtual/virtual.go getRouter"),("registration","router/virtual/virtual.go Host, Default, Initialize"),("normalisation","router/virtual/internal/domain")],
 T+"strcomp.EqualFold is assumed to be ASCII case folding; the registered routers are external with arbitrary results.")
prop("C29","The built-in router calls exactly one handler: the one registered for the path and method",
 "For every set of registered routes, groups, middlewares, catchers, error handlers and mutators, and every request: the mutators run once each, in order, before routing; trailing slashes are ignored; the handler called is the one registered for the path and method (a GET handler serves HEAD when there is none for it), a static segment being preferred to a dynamic one, and the path parameters are exactly the named dynamic segments, in order. An unregistered path goes to the catcher with the longest matching prefix, else the not-found error; an unregistered method gives the method-not-allowed error with the allowed methods, except TRACE, which echoes the current request. An error goes to the handler of its code, else to the handler of all errors, else is answered by its own code and message (500 when it is no HTTP error). The handler's response is returned as it is, through the middlewares of its groups, outermost first.",
 ["inputs","histories"],"every route table, registration order, path, method and error","The router's tests register a few routes of long names; the four template defects fixed (one-character last segments dropped, a dynamic first segment refused, unclosed braces accepted, the root path matched without a route) were outside them.",
 ["router/inbuilt/inbuilt.go","router/inbuilt/trace.go","router/inbuilt/defaulterrhandlers.go","router/inbuilt/middlewares.go","router/inbuilt/mutator.go","router/inbuilt/registrar.go","router/inbuilt/groups.go","router/inbuilt/catchers.go","router/inbuilt/internal/radix/tree.go","router/inbuilt/internal/radix/arrmap.go","router/inbuilt/internal/radix/template.go"],[("dispatch","router/inbuilt/inbuilt.go OnRequest, OnError, onRequest, onError, getHandler"),("walk over the segments","router/inbuilt/internal/radix/tree.go Match, processSegment"),("templates","router/inbuilt/internal/radix/template.go Parse")],
 T+"Handlers and mutators are external with arbitrary results (a mutator leaves a known method and the params storage). Match is seen by onRequest, processSegment by Match and renderHTTPRequest by onError as a recorded call with an arbitrary result; Match and processSegment have contracts of their own. Not under contract, only exercised by the bounded counterexample search: registration (Route, Group, Catch, Initialize, the registrar: maps ranged over, closures, sort), tree insertion, compose, renderHTTPRequest as a whole. Paths are assumed non-empty. Templates containing '//' are outside the Parse contract.")
na("C21","Request parser",
 "For every byte stream and every way of cutting it into reads, the HTTP/1 parser reports the same method, path, query, version, headers and body framing, or the same error, and leaves the same remaining bytes; limits on the request line and the headers are enforced exactly.",
 ["inputs"],"all byte streams, all segmentations into reads, all configured limits",
 "The claim ranges over every way of cutting the stream, which tests sample at a few chunk sizes.",
 ["internal/protocol/http1/parser.go"],
 [("state machine","internal/protocol/http1.(*Parser).Parse")],
 "Parse is one function of about twenty goto-connected states; govc executes it path by path and the number of paths between cut points exceeds what can be discharged. Its callees (C01, C03, C05, C07, C13-C15) are under contract; C26 treats Parse as an assumed contract.")
na("C27","Graceful shutdown and connection scheduling",
 "Under every interleaving of accepting, serving, pausing and stopping, a graceful stop accepts no further connection, lets every accepted connection finish and returns only afterwards; no connection is served twice or leaked.",
 ["schedules"],"all interleavings of the accept loop, the connection goroutines and Stop/Pause calls",
 "A race shows in a few interleavings out of very many.",
 ["internal/tcp/server.go","indigo.go"],
 [("accept loop","internal/tcp.(*Server).Start"),("shutdown","internal/tcp.(*Server).Pause, Wait, Stop")],
 "govc is a sequential verifier: C09 decides the call order of each function on its own; interleavings of goroutines need a concurrent separation logic, and none for Go is installed here.")
