From 72ba812498f9e4db8a9e9d56ba42a3f9c8d725a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:25 +0000
Subject: [PATCH 01/34] fix: uri.Normalize leaves trailing slashes after a
 single-character path

---
 router/inbuilt/uri/normalize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/router/inbuilt/uri/normalize.go b/router/inbuilt/uri/normalize.go
index 5f634fb..50787bf 100644
--- a/router/inbuilt/uri/normalize.go
+++ b/router/inbuilt/uri/normalize.go
@@ -1,11 +1,16 @@
 package uri
 
+// Normalize trims all the trailing slashes, leaving at least the very first character
 func Normalize(path string) string {
-	for i := len(path) - 1; i > 1; i-- {
+	for i := len(path) - 1; i > 0; i-- {
 		if path[i] != '/' {
 			return path[:i+1]
 		}
 	}
 
+	if len(path) > 1 {
+		return path[:1]
+	}
+
 	return path
 }
-- 
2.43.0


From 211614c8ccfcba4232432e913aa992d265b8b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 02/34] fix: reject percent-escapes with invalid hex digits
 instead of decoding them as zero

---
 internal/hexconv/hexconv.go   | 44 +++++++++++++++++------------------
 internal/uridecode/decoder.go |  7 +++++-
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/internal/hexconv/hexconv.go b/internal/hexconv/hexconv.go
index da01c66..f9f6376 100644
--- a/internal/hexconv/hexconv.go
+++ b/internal/hexconv/hexconv.go
@@ -1,28 +1,28 @@
 package hexconv
 
 var decodeTable = [256]byte{
-	'0': 0x0,
-	'1': 0x1,
-	'2': 0x2,
-	'3': 0x3,
-	'4': 0x4,
-	'5': 0x5,
-	'6': 0x6,
-	'7': 0x7,
-	'8': 0x8,
-	'9': 0x9,
-	'a': 0xa,
-	'b': 0xb,
-	'c': 0xc,
-	'd': 0xd,
-	'e': 0xe,
-	'f': 0xf,
-	'A': 0xA,
-	'B': 0xB,
-	'C': 0xC,
-	'D': 0xD,
-	'E': 0xE,
-	'F': 0xF,
+	'0': 0x0 + 1,
+	'1': 0x1 + 1,
+	'2': 0x2 + 1,
+	'3': 0x3 + 1,
+	'4': 0x4 + 1,
+	'5': 0x5 + 1,
+	'6': 0x6 + 1,
+	'7': 0x7 + 1,
+	'8': 0x8 + 1,
+	'9': 0x9 + 1,
+	'a': 0xa + 1,
+	'b': 0xb + 1,
+	'c': 0xc + 1,
+	'd': 0xd + 1,
+	'e': 0xe + 1,
+	'f': 0xf + 1,
+	'A': 0xA + 1,
+	'B': 0xB + 1,
+	'C': 0xC + 1,
+	'D': 0xD + 1,
+	'E': 0xE + 1,
+	'F': 0xF + 1,
 }
 
 // Parse returns char value + 1 IF char is a valid hex, 0 otherwise.
diff --git a/internal/uridecode/decoder.go b/internal/uridecode/decoder.go
index afd1b4f..bd73cf6 100644
--- a/internal/uridecode/decoder.go
+++ b/internal/uridecode/decoder.go
@@ -14,8 +14,13 @@ func Decode(src, buff []byte) ([]byte, error) {
 			return nil, status.ErrURIDecoding
 		}
 
+		hi, lo := hexconv.Parse(src[i+1]), hexconv.Parse(src[i+2])
+		if hi == 0 || lo == 0 {
+			return nil, status.ErrURIDecoding
+		}
+
 		buff = append(buff, src[:i]...)
-		buff = append(buff, hexconv.Parse(src[i+1])<<4|hexconv.Parse(src[i+2]))
+		buff = append(buff, (hi-1)<<4|(lo-1))
 		src = src[i+3:]
 	}
 
-- 
2.43.0


From 663336ed4d1c16c50b9de7189111d612bd215a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:56 +0000
Subject: [PATCH 03/34] fix: reason phrase of 101 in the status line differs
 from status.Text

---
 http/status/codes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/status/codes.go b/http/status/codes.go
index 6df0c79..774784b 100644
--- a/http/status/codes.go
+++ b/http/status/codes.go
@@ -224,7 +224,7 @@ func Line(code Code) string {
 	case Continue:
 		return "100 Continue\r\n"
 	case SwitchingProtocols:
-		return "101 Switching Protocol\r\n"
+		return "101 Switching Protocols\r\n"
 	case Processing:
 		return "102 Processing\r\n"
 	case EarlyHints:
-- 
2.43.0


From 684a4082541adfaee2fdff9c32d449249fb6ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:30 +0000
Subject: [PATCH 04/34] fix: require a dot between the major and minor protocol
 versions

---
 http/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/proto/proto.go b/http/proto/proto.go
index 690d997..6aa7024 100644
--- a/http/proto/proto.go
+++ b/http/proto/proto.go
@@ -36,7 +36,7 @@ var majorMinorVersionLUT = [10][10]Proto{
 }
 
 func FromBytes(raw []byte) Proto {
-	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme {
+	if len(raw) != protoTokenLength || uf.B2S(raw[:majorVersionOffset]) != httpScheme || raw[majorVersionOffset+1] != '.' {
 		return Unknown
 	}
 
-- 
2.43.0


From 62bc4025be360f1d96c46f76ed278edf9c9b4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:35 +0000
Subject: [PATCH 05/34] fix: escape every non-printable byte of a path,
 including those of multibyte characters

---
 http/path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/path.go b/http/path.go
index a57c967..f767b64 100644
--- a/http/path.go
+++ b/http/path.go
@@ -10,7 +10,7 @@ func Escape(p Path) string {
 		offset int
 	)
 
-	for i := range p {
+	for i := 0; i < len(p); i++ {
 		if !isASCIIPrintable(p[i]) {
 			if buff == nil {
 				buff = allocBuff(len(p))
-- 
2.43.0


From e4ada5ca75bb77f1ad90b641841607aadb90a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:10 +0000
Subject: [PATCH 06/34] fix: split the query string by its delimiters before
 decoding it

---
 http/query/internal/parser.go | 46 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/http/query/internal/parser.go b/http/query/internal/parser.go
index 6182084..e67cfd5 100644
--- a/http/query/internal/parser.go
+++ b/http/query/internal/parser.go
@@ -15,12 +15,7 @@ func Parse(data []byte, params *keyvalue.Storage) (err error) {
 		return nil
 	}
 
-	data, err = uridecode.Decode(data, data[:0])
-	if err != nil {
-		return err
-	}
-
-	var key string
+	var key, value string
 
 parseKey:
 	if len(data) == 0 {
@@ -30,15 +25,22 @@ parseKey:
 	for i := range data {
 		switch data[i] {
 		case '=':
-			key = uf.B2S(data[:i])
-			if len(key) == 0 {
+			if i == 0 {
 				return status.ErrBadQuery
 			}
 
+			if key, err = decode(data[:i]); err != nil {
+				return err
+			}
+
 			data = data[i+1:]
 			goto parseValue
 		case '&':
-			params.Add(uf.B2S(data[:i]), defaultEmptyValueContent)
+			if key, err = decode(data[:i]); err != nil {
+				return err
+			}
+
+			params.Add(key, defaultEmptyValueContent)
 			data = data[i+1:]
 			goto parseKey
 		case '+':
@@ -46,7 +48,11 @@ parseKey:
 		}
 	}
 
-	params.Add(uf.B2S(data), defaultEmptyValueContent)
+	if key, err = decode(data); err != nil {
+		return err
+	}
+
+	params.Add(key, defaultEmptyValueContent)
 
 	return nil
 
@@ -57,7 +63,11 @@ parseValue:
 			// ignore the fact that the value may be empty. In case there's no equal sign, we
 			// definitely know it's a flag and is supposed to be like that. However, if there's
 			// an equal mark, we cannot be sure it wasn't on purpose. So just let a user judge
-			params.Add(key, uf.B2S(data[:i]))
+			if value, err = decode(data[:i]); err != nil {
+				return err
+			}
+
+			params.Add(key, value)
 			data = data[i+1:]
 			goto parseKey
 		case '+':
@@ -65,7 +75,19 @@ parseValue:
 		}
 	}
 
-	params.Add(key, uf.B2S(data))
+	if value, err = decode(data); err != nil {
+		return err
+	}
+
+	params.Add(key, value)
 
 	return nil
 }
+
+// decode decodes a single key or value in-place. The query must be already split by delimiters,
+// otherwise encoded ones would be taken as delimiters, too
+func decode(data []byte) (string, error) {
+	data, err := uridecode.Decode(data, data[:0])
+
+	return uf.B2S(data), err
+}
-- 
2.43.0


From df2d5ce2602d138eb03557a730da6d7708988edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 07/34] fix: report a malformed query on every access, not just
 the first one

---
 http/query/query.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/http/query/query.go b/http/query/query.go
index 0b9ab15..8d3893c 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -14,6 +14,7 @@ type Params = *keyvalue.Storage
 // by the fact that parameters won't be parsed until requested
 type Query struct {
 	parsed bool
+	err    error
 	params Params
 	raw    []byte
 }
@@ -56,7 +57,11 @@ func (q *Query) Get(key string) (value string, err error) {
 
 // Unwrap returns all query parameters. If error occurred, nil parameters will be returned
 func (q *Query) Unwrap() (Params, error) {
-	return q.params, q.parse()
+	if err := q.parse(); err != nil {
+		return nil, err
+	}
+
+	return q.params, nil
 }
 
 // Raw just returns a raw value of query as it is
@@ -65,11 +70,10 @@ func (q *Query) Raw() []byte {
 }
 
 func (q *Query) parse() error {
-	if q.parsed {
-		return nil
+	if !q.parsed {
+		q.parsed = true
+		q.err = internal.Parse(q.raw, q.params)
 	}
 
-	q.parsed = true
-
-	return internal.Parse(q.raw, q.params)
+	return q.err
 }
-- 
2.43.0


From 9b776233117e4ea5a6d5d2fa7623377f92c02c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:21 +0000
Subject: [PATCH 08/34] fix: keep the raw query intact when parsing it

---
 http/query/query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http/query/query.go b/http/query/query.go
index 8d3893c..88ceebd 100644
--- a/http/query/query.go
+++ b/http/query/query.go
@@ -17,6 +17,7 @@ type Query struct {
 	err    error
 	params Params
 	raw    []byte
+	buff   []byte
 }
 
 func New(underlying *keyvalue.Storage) *Query {
@@ -72,7 +73,9 @@ func (q *Query) Raw() []byte {
 func (q *Query) parse() error {
 	if !q.parsed {
 		q.parsed = true
-		q.err = internal.Parse(q.raw, q.params)
+		// parameters are decoded in-place, so the raw value must be left alone
+		q.buff = append(q.buff[:0], q.raw...)
+		q.err = internal.Parse(q.buff, q.params)
 	}
 
 	return q.err
-- 
2.43.0


From d364be9bd28ce52c94cdc60d29da4e8ce09e5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:29 +0000
Subject: [PATCH 09/34] fix: http1 parser panics on an empty protocol or an
 empty header value

---
 internal/protocol/http1/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 2845f54..6d09f28 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -154,7 +154,7 @@ path:
 		}
 
 		reqPath, reqProto := pathAndProto[:sp], pathAndProto[sp+1:]
-		if reqProto[len(reqProto)-1] == '\r' {
+		if len(reqProto) > 0 && reqProto[len(reqProto)-1] == '\r' {
 			reqProto = reqProto[:len(reqProto)-1]
 		}
 
@@ -308,7 +308,7 @@ headerValue:
 
 		data = data[lf+1:]
 		value := uf.B2S(trimPrefixSpaces(headerValueBuff.Finish()))
-		if value[len(value)-1] == '\r' {
+		if len(value) > 0 && value[len(value)-1] == '\r' {
 			value = value[:len(value)-1]
 		}
 
-- 
2.43.0


From 8fab61d51807ff88e04c2b3bc80d14a07749038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:32 +0000
Subject: [PATCH 10/34] fix: reject a Content-Length that overflows instead of
 wrapping it around

---
 internal/protocol/http1/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index 6d09f28..ffc44a6 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -12,6 +12,7 @@ import (
 	"github.com/indigo-web/utils/buffer"
 	"github.com/indigo-web/utils/strcomp"
 	"github.com/indigo-web/utils/uf"
+	"math"
 	"strings"
 )
 
@@ -245,7 +246,12 @@ contentLength:
 			goto contentLengthEnd
 		}
 
-		p.contentLength = p.contentLength*10 + int(char-'0')
+		digit := int(char - '0')
+		if p.contentLength > (math.MaxInt-digit)/10 {
+			return Error, nil, status.ErrBodyTooLarge
+		}
+
+		p.contentLength = p.contentLength*10 + digit
 	}
 
 	p.state = eContentLength
-- 
2.43.0


From f6f3222ea0bb6d8332a6fca3b06c394a51ca60b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:36 +0000
Subject: [PATCH 11/34] fix: don't concatenate the values of repeated
 Content-Length headers

---
 internal/protocol/http1/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/parser.go b/internal/protocol/http1/parser.go
index ffc44a6..c98f25b 100644
--- a/internal/protocol/http1/parser.go
+++ b/internal/protocol/http1/parser.go
@@ -229,6 +229,7 @@ headerKey:
 			) && cLength == encodeU64(
 			key[8]|0x20, key[9]|0x20, key[10]|0x20, key[11]|0x20, key[12]|0x20, key[13]|0x20, 0, 0,
 		) {
+			p.contentLength = 0
 			goto contentLength
 		}
 
-- 
2.43.0


From 80b803c2aa7ab9141ae095e068fad18f103f67f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 12/34] fix: don't return the previous request's body when the
 current one is already consumed

---
 internal/protocol/http1/body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index 8854029..f9717fd 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -46,6 +46,7 @@ func (b *Body) Init(request *http.Request) {
 	}
 
 	b.eof = false
+	b.fullBodyBuff = b.fullBodyBuff[:0]
 	b.Reader.Reset()
 }
 
-- 
2.43.0


From 1ec540ec782a0016ebaaea8eb4a60b7bfb1dc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:19 +0000
Subject: [PATCH 13/34] fix: report a connection closed in the middle of a body
 as an error, not as the end of the body

---
 internal/protocol/http1/body.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/body.go b/internal/protocol/http1/body.go
index f9717fd..1461f3e 100644
--- a/internal/protocol/http1/body.go
+++ b/internal/protocol/http1/body.go
@@ -163,7 +163,7 @@ func (p *plainBodyReader) read() (body []byte, err error) {
 
 	data, err := p.client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	if p.bytesLeft > p.maxBodyLen {
@@ -207,7 +207,7 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	client := c.client
 	data, err := client.Read()
 	if err != nil {
-		return nil, err
+		return nil, unexpectedEOF(err)
 	}
 
 	chunk, extra, err := c.parser.Parse(data, c.encoding.HasTrailer)
@@ -228,6 +228,16 @@ func (c *chunkedBodyReader) read() (body []byte, err error) {
 	return chunk, err
 }
 
+// unexpectedEOF distinguishes a connection closed in the middle of a body from the end of the
+// body, which is also represented by io.EOF
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func adduint(x, y uint) (uint, bool) {
 	return x + y, math.MaxUint-x < y
 }
-- 
2.43.0


From f5d0c3b2085bb4352cc9e7a1a03339d542584a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 14/34] fix: bring default headers back after a response which
 overrode them

---
 internal/protocol/http1/serializer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 83f86c4..6724367 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -412,7 +412,7 @@ func (d defaultHeaders) Exclude(key string) {
 }
 
 func (d defaultHeaders) Reset() {
-	for _, header := range d {
-		header.Excluded = false
+	for i := range d {
+		d[i].Excluded = false
 	}
 }
-- 
2.43.0


From 269880334f0e0583a94bce8bead40fae8e253dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 15/34] fix: render the custom status text

---
 internal/protocol/http1/serializer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 6724367..87aa315 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -132,7 +132,11 @@ func (d *Serializer) renderResponseLine(fields *response.Fields) {
 	// in case we have a custom response status text or unknown code, fallback to an old way
 	d.buff = strconv.AppendInt(d.buff, int64(fields.Code), 10)
 	d.sp()
-	d.buff = append(d.buff, status.Text(fields.Code)...)
+	text := fields.Status
+	if text == "" {
+		text = status.Text(fields.Code)
+	}
+	d.buff = append(d.buff, text...)
 	d.crlf()
 }
 
-- 
2.43.0


From 63f0dc5729a90d917c2014d65cdf8e285ddae8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 16/34] fix: don't lose cookies of responses with attachments

---
 internal/protocol/http1/serializer.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 87aa315..0335a7f 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -98,11 +98,7 @@ func (d *Serializer) Write(
 	}
 
 	d.renderHeaders(fields)
-
-	for _, c := range fields.Cookies {
-		d.renderCookie(c)
-	}
-
+	d.renderCookies(fields.Cookies)
 	d.renderContentLength(int64(len(fields.Body)))
 	d.crlf()
 
@@ -178,6 +174,8 @@ func (d *Serializer) sendAttachment(
 		d.renderHeaders(response.TransferEncoding("chunked").Reveal())
 	}
 
+	d.renderCookies(fields.Cookies)
+
 	// now we have to send the body via plain text or chunked transfer encoding.
 	// I'm proposing to make an exception for chunked transfer encoding with a
 	// separate method that'll handle with it by its own. Maybe, even for plain-text
@@ -273,6 +271,12 @@ func (d *Serializer) renderHeader(header headers.Header) {
 	d.crlf()
 }
 
+func (d *Serializer) renderCookies(cookies []cookie.Cookie) {
+	for _, c := range cookies {
+		d.renderCookie(c)
+	}
+}
+
 func (d *Serializer) renderCookie(c cookie.Cookie) {
 	d.buff = append(d.buff, setCookie...)
 	d.buff = append(d.buff, c.Name...)
-- 
2.43.0


From 3aaccc1caea83a13af66abde376d9907a4fb6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 17/34] fix: close the attachment also after HEAD requests and
 write errors

---
 internal/protocol/http1/serializer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 0335a7f..8f7f993 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -165,6 +165,7 @@ func (d *Serializer) sendAttachment(
 	request *http.Request, response *http.Response, writer Writer,
 ) (err error) {
 	fields := response.Reveal()
+	defer fields.Attachment.Close()
 	size := fields.Attachment.Size()
 
 	if size > 0 {
@@ -197,14 +198,10 @@ func (d *Serializer) sendAttachment(
 	}
 
 	if fields.Attachment.Size() > 0 {
-		err = d.writePlainBody(fields.Attachment.Content(), writer)
-	} else {
-		err = d.writeChunkedBody(fields.Attachment.Content(), writer)
+		return d.writePlainBody(fields.Attachment.Content(), writer)
 	}
 
-	fields.Attachment.Close()
-
-	return err
+	return d.writeChunkedBody(fields.Attachment.Content(), writer)
 }
 
 func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
-- 
2.43.0


From 97622e4839f3f3ef34f1ffd88bf4e684b7f1a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 18/34] fix: don't lose the data an attachment returns together
 with io.EOF

---
 internal/protocol/http1/serializer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 8f7f993..1f612bd 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -211,6 +211,13 @@ func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
 
 	for {
 		n, err := r.Read(d.fileBuff)
+
+		if n > 0 {
+			if err := writer.Write(d.fileBuff[:n]); err != nil {
+				return status.ErrCloseConnection
+			}
+		}
+
 		switch err {
 		case nil:
 		case io.EOF:
@@ -218,10 +225,6 @@ func (d *Serializer) writePlainBody(r io.Reader, writer Writer) error {
 		default:
 			return status.ErrCloseConnection
 		}
-
-		if err = writer.Write(d.fileBuff[:n]); err != nil {
-			return status.ErrCloseConnection
-		}
 	}
 }
 
-- 
2.43.0


From bd0ece8dacdda94ff898a10d0316decc6cdaff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:51 +0000
Subject: [PATCH 19/34] fix: close the connection after an attachment if it
 isn't to be kept alive

---
 internal/protocol/http1/serializer.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/protocol/http1/serializer.go b/internal/protocol/http1/serializer.go
index 1f612bd..3f1d037 100644
--- a/internal/protocol/http1/serializer.go
+++ b/internal/protocol/http1/serializer.go
@@ -94,9 +94,20 @@ func (d *Serializer) Write(
 	d.renderResponseLine(fields)
 
 	if fields.Attachment.Content() != nil {
-		return d.sendAttachment(d.request, response, d.writer)
+		err = d.sendAttachment(d.request, response, d.writer)
+	} else {
+		err = d.sendBody(fields)
 	}
 
+	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
+		err = status.ErrCloseConnection
+	}
+
+	return err
+}
+
+// sendBody renders the rest of a response, which body is known in advance, and sends it
+func (d *Serializer) sendBody(fields *response.Fields) error {
 	d.renderHeaders(fields)
 	d.renderCookies(fields.Cookies)
 	d.renderContentLength(int64(len(fields.Body)))
@@ -108,13 +119,7 @@ func (d *Serializer) Write(
 		d.buff = append(d.buff, fields.Body...)
 	}
 
-	err = d.writer.Write(d.buff)
-
-	if !isKeepAlive(protocol, d.request) && d.request.Upgrade == proto.Unknown {
-		err = status.ErrCloseConnection
-	}
-
-	return err
+	return d.writer.Write(d.buff)
 }
 
 func (d *Serializer) renderResponseLine(fields *response.Fields) {
-- 
2.43.0


From e3a1163908e128dc0b6f77369f2bb4d854187a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 20/34] fix: don't render JSON over the memory of a previously
 set body

Response.String stores the string's own bytes, so a following JSON call wrote
into (usually read-only) string memory.
---
 http/response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/response.go b/http/response.go
index ff98e56..62489b4 100644
--- a/http/response.go
+++ b/http/response.go
@@ -174,7 +174,8 @@ func (r *Response) Cookie(cookies ...cookie.Cookie) *Response {
 // TryJSON receives a model (must be a pointer to the structure) and returns a new Response
 // object and an error
 func (r *Response) TryJSON(model any) (*Response, error) {
-	r.fields.Body = r.fields.Body[:0]
+	// the current body may be a string or belong to the user, so it must not be overwritten
+	r.fields.Body = nil
 	stream := json.ConfigDefault.BorrowStream(r)
 	stream.WriteVal(model)
 	err := stream.Flush()
-- 
2.43.0


From b36f24b6a06a6b9b568f9a1e32a4b46c23180e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 21/34] fix: close the file when its stats are unavailable

---
 http/response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/http/response.go b/http/response.go
index 62489b4..34e57a7 100644
--- a/http/response.go
+++ b/http/response.go
@@ -133,6 +133,7 @@ func (r *Response) TryFile(path string) (*Response, error) {
 	stat, err := fd.Stat()
 	if err != nil {
 		// ...and if we can't get stats on it, it exists, however something in system went wrong
+		_ = fd.Close()
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
-- 
2.43.0


From baddf4357913cfa312eb09217ef6c744c7456909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 22/34] fix: don't leak a descriptor when a directory is
 requested as a file

---
 http/response.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/http/response.go b/http/response.go
index 34e57a7..1341e16 100644
--- a/http/response.go
+++ b/http/response.go
@@ -137,6 +137,7 @@ func (r *Response) TryFile(path string) (*Response, error) {
 		return r, status.ErrInternalServerError
 	}
 	if stat.IsDir() {
+		_ = fd.Close()
 		return r, status.ErrNotFound
 	}
 
-- 
2.43.0


From d0caa5a19d3c7a18f79d4b13d57da2847369183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 23/34] fix: setting a known header with no values panics

---
 http/response.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/http/response.go b/http/response.go
index 1341e16..b47712d 100644
--- a/http/response.go
+++ b/http/response.go
@@ -73,6 +73,10 @@ func (r *Response) TransferEncoding(value string) *Response {
 // Header sets header values to a key. In case it already exists the value will
 // be appended.
 func (r *Response) Header(key string, values ...string) *Response {
+	if len(values) == 0 {
+		return r
+	}
+
 	switch {
 	case strcomp.EqualFold(key, "content-type"):
 		return r.ContentType(values[0])
-- 
2.43.0


From f0edf9ac2209d891c085a81d68adbc920be311f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 24/34] fix: keep the encryption token across requests of a
 connection

---
 http/request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/http/request.go b/http/request.go
index 6a5286e..4cae57c 100644
--- a/http/request.go
+++ b/http/request.go
@@ -180,7 +180,10 @@ func (r *Request) Clear() (err error) {
 	r.Connection = ""
 	r.Upgrade = proto.Unknown
 	r.Ctx = zeroContext
-	r.Env = Environment{}
+	r.Env = Environment{
+		// it's a property of the connection, thereby isn't changed across its requests
+		Encryption: r.Env.Encryption,
+	}
 
 	return nil
 }
-- 
2.43.0


From ba0bdd7dec8a2f7eef55d11b2e7e480462f677c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 25/34] fix: announce the protocol being upgraded to, not the
 current one

---
 internal/protocol/http1/suit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index 813717e..f0fff71 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -82,7 +82,7 @@ func (s *Suit) serve(once bool) (ok bool) {
 					s.upgradePreResp.
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
-						Header("Upgrade", trimLast(req.Proto.String())),
+						Header("Upgrade", trimLast(req.Upgrade.String())),
 				)
 				version = req.Upgrade
 			}
-- 
2.43.0


From 3ec21fc3b0f5e94f655d0613f85fd9c533a0b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 26/34] fix: don't accumulate headers of upgrade responses over
 a connection

---
 internal/protocol/http1/suit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/http1/suit.go b/internal/protocol/http1/suit.go
index f0fff71..671a0cf 100644
--- a/internal/protocol/http1/suit.go
+++ b/internal/protocol/http1/suit.go
@@ -80,6 +80,7 @@ func (s *Suit) serve(once bool) (ok bool) {
 				s.PreWrite(
 					req.Proto,
 					s.upgradePreResp.
+						Clear().
 						Code(status.SwitchingProtocols).
 						Header("Connection", "upgrade").
 						Header("Upgrade", trimLast(req.Upgrade.String())),
-- 
2.43.0


From 65e68bc6eeeaa4d138f5a145355d4f7ae10c2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:52 +0000
Subject: [PATCH 27/34] fix: do not echo previous requests in TRACE responses

---
 router/inbuilt/inbuilt.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/router/inbuilt/inbuilt.go b/router/inbuilt/inbuilt.go
index ceb1696..908df22 100644
--- a/router/inbuilt/inbuilt.go
+++ b/router/inbuilt/inbuilt.go
@@ -49,7 +49,6 @@ func New() *Router {
 type runtimeRouter struct {
 	mutators    []Mutator
 	catchers    []Catcher
-	traceBuff   []byte
 	tree        radix.Tree
 	routesMap   routesMap
 	errHandlers errorHandlers
@@ -135,9 +134,8 @@ func (r *runtimeRouter) OnError(request *http.Request, err error) *http.Response
 
 func (r *runtimeRouter) onError(request *http.Request, err error) *http.Response {
 	if request.Method == method.TRACE && err == status.ErrMethodNotAllowed {
-		r.traceBuff = renderHTTPRequest(request, r.traceBuff)
-
-		return traceResponse(request.Respond(), r.traceBuff)
+		// the router is shared among all the connections, so the buffer must not be
+		return traceResponse(request.Respond(), renderHTTPRequest(request, nil))
 	}
 
 	if err == status.ErrNotFound {
-- 
2.43.0


From 39312dba0349824b1a994a5700388ea1a1ccbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 28/34] fix: do not share the path of a static file among
 connections

---
 router/inbuilt/static.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/router/inbuilt/static.go b/router/inbuilt/static.go
index 1ff7242..3e1ce70 100644
--- a/router/inbuilt/static.go
+++ b/router/inbuilt/static.go
@@ -10,9 +10,10 @@ import (
 // Static adds a catcher of prefix, that automatically returns files from defined root
 // directory
 func (r *Router) Static(prefix, root string, mwares ...Middleware) *Router {
-	pathReplacer := pathlib.NewPath(prefix, root)
-
 	return r.Catch(prefix, func(request *http.Request) *http.Response {
+		// requests of different connections are processed simultaneously, so they must
+		// not share the path
+		pathReplacer := pathlib.NewPath(prefix, root)
 		pathReplacer.Set(request.Path)
 		path := pathReplacer.Relative()
 		if !isSafe(path) {
-- 
2.43.0


From 0ff4b758dd6bafa617cff1da585da14f5ebac7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:54 +0000
Subject: [PATCH 29/34] fix: normalize the Host header before comparing it with
 virtual hosts

---
 router/virtual/virtual.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/virtual/virtual.go b/router/virtual/virtual.go
index 6d16820..d4ce732 100644
--- a/router/virtual/virtual.go
+++ b/router/virtual/virtual.go
@@ -114,7 +114,7 @@ func (r *runtimeRouter) getRouter(request *http.Request) (router.Router, *http.R
 		return nil, http.Code(request, status.BadRequest)
 	}
 
-	host := hosts[0]
+	host := domain.Normalize(hosts[0])
 
 	for _, virtRouter := range r.routers {
 		if strcomp.EqualFold(virtRouter.Domain, host) {
-- 
2.43.0


From 436f298ae31fa58dd8af86656a69bbd3651d5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:00 +0000
Subject: [PATCH 30/34] fix: serve every listener with its own handler

---
 indi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indi.go b/indi.go
index 67219c4..8e83e36 100644
--- a/indi.go
+++ b/indi.go
@@ -127,6 +127,8 @@ func (a *App) bind(r router.Router) ([]*tcp.Server, error) {
 	servers := make([]*tcp.Server, 0, len(a.sources))
 
 	for _, src := range a.sources {
+		src := src
+
 		listener, err := src.Listen("tcp", src.Addr)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0659f5b93c546ac79511adbaab35440afd875ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 31/34] fix: keep the last segment of a path template when it
 is one character long

---
 router/inbuilt/internal/radix/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 26b267b..f839877 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -96,7 +96,7 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
-	if state == eStatic && offset < len(tmpl)-1 {
+	if state == eStatic && offset < len(tmpl) {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
 			Payload:    tmpl[offset:],
-- 
2.43.0


From 5ebe29c5164f03bc1af57cdcf87cc54c995127d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 32/34] fix: allow the first segment of a path template to be
 dynamic

---
 router/inbuilt/internal/radix/template.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index f839877..247cd7a 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -31,7 +31,7 @@ func Parse(tmpl string) (Template, error) {
 	var (
 		offset   = 1
 		template = Template{}
-		state    = eStatic
+		state    = eSlash
 	)
 
 	if len(tmpl) == 0 {
-- 
2.43.0


From 6de6385896884e3fb7a0014a55c81412588c8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 33/34] fix: reject path templates with a dynamic part left
 unclosed

---
 router/inbuilt/internal/radix/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/router/inbuilt/internal/radix/template.go b/router/inbuilt/internal/radix/template.go
index 247cd7a..9a82701 100644
--- a/router/inbuilt/internal/radix/template.go
+++ b/router/inbuilt/internal/radix/template.go
@@ -96,6 +96,10 @@ func Parse(tmpl string) (Template, error) {
 		}
 	}
 
+	if state == eDynamic {
+		return template, fmt.Errorf(`"%s": the dynamic part is never closed`, tmpl)
+	}
+
 	if state == eStatic && offset < len(tmpl) {
 		template.segments = append(template.segments, Segment{
 			IsWildcard: false,
-- 
2.43.0


From 03b1a636162588f1f82e956814334433503fc91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 34/34] fix: do not match the root path unless it is registered

---
 router/inbuilt/internal/radix/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router/inbuilt/internal/radix/tree.go b/router/inbuilt/internal/radix/tree.go
index e881fd9..1a8567b 100644
--- a/router/inbuilt/internal/radix/tree.go
+++ b/router/inbuilt/internal/radix/tree.go
@@ -29,7 +29,7 @@ type Node struct {
 }
 
 func New() *Node {
-	return newNode(new(Payload), false, "")
+	return newNode(nil, false, "")
 }
 
 func newNode(payload *Payload, isDyn bool, dynName string) *Node {
-- 
2.43.0

