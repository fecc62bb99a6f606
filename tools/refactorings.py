REFS=[]
def R(*a): REFS.append(a)
U='internal/uridecode/decoder.go'
R('uridecode-for','C01',[(U,"	for i := bytes.IndexByte(src, '%'); i != -1; i = bytes.IndexByte(src, '%') {\n		if i >= len(src)-2 {","	for {\n		i := bytes.IndexByte(src, '%')\n		if i < 0 {\n			break\n		}\n\n		if i+2 >= len(src) {")])
R('uridecode-helper','C01',[(U,"		buff = append(buff, src[:i]...)\n		buff = append(buff, (hi-1)<<4|(lo-1))\n","		buff = append(append(buff, src[:i]...), join(hi, lo))\n"),(U,"// Decode normalizes","func join(hi, lo byte) byte {\n	return (hi-1)<<4 | (lo - 1)\n}\n\n// Decode normalizes")])
R('uridecode-split-check','C01',[(U,"		hi, lo := hexconv.Parse(src[i+1]), hexconv.Parse(src[i+2])\n		if hi == 0 || lo == 0 {\n			return nil, status.ErrURIDecoding\n		}\n","		hi := hexconv.Parse(src[i+1])\n		if hi == 0 {\n			return nil, status.ErrURIDecoding\n		}\n\n		lo := hexconv.Parse(src[i+2])\n		if lo == 0 {\n			return nil, status.ErrURIDecoding\n		}\n")])
R('uridecode-plus','C01',[(U,"(hi-1)<<4|(lo-1)","(hi-1)*16+(lo-1)")])
R('uridecode-bytewise','C01',[(U,"		buff = append(buff, src[:i]...)\n","		for j := 0; j < i; j++ {\n			buff = append(buff, src[j])\n		}\n")])
H='internal/hexconv/hexconv.go'
R('hexconv-switch','C01',[(H,"	return decodeTable[char]","	switch {\n	case char >= '0' && char <= '9':\n		return char - '0' + 1\n	case char >= 'a' && char <= 'f':\n		return char - 'a' + 11\n	case char >= 'A' && char <= 'F':\n		return char - 'A' + 11\n	}\n\n	return 0")])
N='router/inbuilt/uri/normalize.go'
R('uri-end','C02',[(N,"	for i := len(path) - 1; i > 0; i-- {\n		if path[i] != '/' {\n			return path[:i+1]\n		}\n	}\n\n	if len(path) > 1 {\n		return path[:1]\n	}\n\n	return path\n","	end := len(path)\n	for end > 1 && path[end-1] == '/' {\n		end--\n	}\n\n	return path[:end]\n")])
R('uri-shrink','C02',[(N,"	for i := len(path) - 1; i > 0; i-- {\n		if path[i] != '/' {\n			return path[:i+1]\n		}\n	}\n\n	if len(path) > 1 {\n		return path[:1]\n	}\n\n	return path\n","	for len(path) > 1 && path[len(path)-1] == '/' {\n		path = path[:len(path)-1]\n	}\n\n	return path\n")])
R('uri-trimright','C02',[(N,"	for i := len(path) - 1; i > 0; i-- {\n		if path[i] != '/' {\n			return path[:i+1]\n		}\n	}\n\n	if len(path) > 1 {\n		return path[:1]\n	}\n\n	return path\n","	if len(path) == 0 {\n		return path\n	}\n\n	return path[:1+len(strings.TrimRight(path[1:], \"/\"))]\n"),(N,"package uri\n",'package uri\n\nimport "strings"\n')])
R('uri-helper','C02',[(N,"	for i := len(path) - 1; i > 0; i-- {\n		if path[i] != '/' {\n			return path[:i+1]\n		}\n	}\n","	if i := lastNonSlash(path); i > 0 {\n		return path[:i+1]\n	}\n"),(N,"// Normalize trims","func lastNonSlash(path string) int {\n	for i := len(path) - 1; i > 0; i-- {\n		if path[i] != '/' {\n			return i\n		}\n	}\n\n	return 0\n}\n\n// Normalize trims")])
D='router/virtual/internal/domain/normalize.go'
LOOP="	for i := len(domain) - 1; i >= 0; i-- {\n		if domain[i] == '.' {\n			break\n		} else if domain[i] == ':' {\n			switch port := domain[i+1:]; port {\n			case \"80\", \"443\":\n				// trim only default ports. Non-default must always be presented\n				domain = domain[:i]\n			}\n\n			break\n		}\n	}\n"
R('domain-lastindex','C03',[(D,LOOP,"	if i := strings.LastIndexByte(domain, ':'); i != -1 {\n		if port := domain[i+1:]; port == \"80\" || port == \"443\" {\n			domain = domain[:i]\n		}\n	}\n")])
R('domain-trimsuffix','C03',[(D,LOOP,"	if strings.HasSuffix(domain, \":80\") {\n		return domain[:len(domain)-3]\n	}\n\n	domain = strings.TrimSuffix(domain, \":443\")\n"),(D,'	if strings.HasPrefix(domain, "www.") {\n		domain = domain[len("www."):]\n	}\n','	domain = strings.TrimPrefix(domain, "www.")\n')])
R('domain-switch','C03',[(D,LOOP,"	i := len(domain) - 1\n	for i >= 0 && domain[i] != '.' && domain[i] != ':' {\n		i--\n	}\n\n	if i >= 0 && domain[i] == ':' && isDefault(domain[i+1:]) {\n		return domain[:i]\n	}\n"),(D,"func TrimPort","func isDefault(port string) bool {\n	return port == \"80\" || port == \"443\"\n}\n\nfunc TrimPort")])
R('domain-trimport-loop','C03',[(D,"	if colon := strings.IndexByte(domain, ':'); colon != -1 {\n		return domain[:colon]\n	}\n","	for i := 0; i < len(domain); i++ {\n		if domain[i] == ':' {\n			return domain[:i]\n		}\n	}\n")])
R('domain-cut','C03',[(D,"	if colon := strings.IndexByte(domain, ':'); colon != -1 {\n		return domain[:colon]\n	}\n\n	return domain\n","	host, _, _ := strings.Cut(domain, \":\")\n	return host\n")])
A='internal/address/address.go'
R('address-inline','C04',[(A,"	if len(stripPort(addr)) == 0 {","	if addr == \"\" || addr[0] == ':' {")])
R('address-cut','C04',[(A,"	colon := strings.IndexByte(addr, ':')\n	if colon != -1 {\n		return addr[:colon]\n	}\n\n	return addr\n","	if colon := strings.Index(addr, \":\"); colon >= 0 {\n		addr = addr[:colon]\n	}\n\n	return addr\n")])
R('address-rename','C04',[(A,"func stripPort(addr string) string {","func hostOf(addr string) string {"),(A,"	if len(stripPort(addr)) == 0 {","	if hostOf(addr) == \"\" {"),(A,"EqualFold(stripPort(addr)","EqualFold(hostOf(addr)"),(A,"ParseIP(stripPort(addr)","ParseIP(hostOf(addr)")])
M='internal/strlenmap/map.go'
R('map-index-loop','C05',[(M,"	for _, entry := range m.buckets[len(key)] {\n		if entry.Key == key {\n			return entry.Value, true\n		}\n	}\n","	b := m.buckets[len(key)]\n	for i := 0; i < len(b); i++ {\n		if b[i].Key == key {\n			return b[i].Value, true\n		}\n	}\n")])
R('map-find-helper','C05',[(M,"	for _, entry := range m.buckets[len(key)] {\n		if entry.Key == key {\n			return entry.Value, true\n		}\n	}\n\n	return v, false\n","	return m.buckets[len(key)].find(key)\n"),(M,"type buckEntry","func (b bucket[T]) find(key string) (v T, found bool) {\n	for i := range b {\n		if b[i].Key == key {\n			return b[i].Value, true\n		}\n	}\n\n	return v, false\n}\n\ntype buckEntry")])
R('map-insert-local','C05',[(M,"	m.buckets[len(key)] = append(m.buckets[len(key)], buckEntry[T]{\n		Key:   key,\n		Value: value,\n	})\n","	entry := buckEntry[T]{Key: key, Value: value}\n	n := len(key)\n	m.buckets[n] = append(m.buckets[n], entry)\n")])
R('map-resize-append','C05',[(M,"	newBuckets := make([]bucket[T], n)\n	copy(newBuckets, m.buckets)\n	m.buckets = newBuckets\n","	for len(m.buckets) < n {\n		m.buckets = append(m.buckets, nil)\n	}\n")])
R('map-resize-inline','C05',[(M,"		m.resize(len(key) + 1)\n","		grown := make([]bucket[T], len(key)+1)\n		copy(grown, m.buckets)\n		m.buckets = grown\n"),(M,"func (m *Map[T]) resize(n int) {\n	newBuckets := make([]bucket[T], n)\n	copy(newBuckets, m.buckets)\n	m.buckets = newBuckets\n}\n\n","")])
S='internal/stash/reader.go'
R('stash-inline-refill','C06',[(S,"		r.refill()\n","		r.pending, r.error = r.source()\n"),(S,"func (r *Reader) refill() {\n	r.pending, r.error = r.source()\n}\n\n","")])
R('stash-early-return','C06',[(S,"	if len(r.pending) == 0 && r.error != nil {\n		err = r.error\n	}\n\n	return n, err\n","	if len(r.pending) > 0 {\n		return n, nil\n	}\n\n	return n, r.error\n")])
R('stash-loop-copy','C06',[(S,"	n = copy(b, r.pending)\n	r.pending = r.pending[n:]\n","	for n < len(b) && n < len(r.pending) {\n		b[n] = r.pending[n]\n		n++\n	}\n	r.pending = r.pending[n:]\n")])
R('stash-nested-if','C06',[(S,"	if len(r.pending) == 0 && r.error == nil {\n		r.refill()\n	}\n","	if len(r.pending) == 0 {\n		if r.error == nil {\n			r.refill()\n		}\n	}\n")])
C='internal/tcp/client.go'
R('client-swap','C07',[(C,"		pending := c.pending\n		c.pending = nil\n\n		return pending, nil\n","		return c.takePending(), nil\n"),(C,"// Pending returns","func (c *client) takePending() (p []byte) {\n	p, c.pending = c.pending, nil\n	return p\n}\n\n// Pending returns")])
R('client-deadline-var','C07',[(C,"	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {\n		return nil, err\n	}\n\n	n, err := c.conn.Read(c.buff)\n","	deadline := time.Now().Add(c.timeout)\n	err := c.conn.SetReadDeadline(deadline)\n	if err != nil {\n		return nil, err\n	}\n\n	n, err := c.conn.Read(c.buff)\n")])
R('client-empty-slice','C07',[(C,"		c.pending = nil\n","		c.pending = pending[:0]\n")])
Y='internal/tcp/dummy/client.go'
R('dummy-mod','C08',[(Y,"	if c.pointer >= len(c.data) {\n		c.pointer = 0\n	}\n	piece := c.data[c.pointer]\n	c.pointer++\n\n	return piece, nil\n","	if c.pointer >= len(c.data) {\n		c.pointer = 0\n	}\n	c.pointer++\n\n	return c.data[c.pointer-1], nil\n")])
R('dummy-wrap-after','C08',[(Y,"	if c.pointer >= len(c.data) {\n		c.pointer = 0\n	}\n	piece := c.data[c.pointer]\n	c.pointer++\n","	piece := c.data[c.pointer]\n	c.pointer++\n	if c.pointer == len(c.data) {\n		c.pointer = 0\n	}\n")])
V='internal/tcp/server.go'
R('server-for-loop','C09',[(V,"	for !s.shutdown.Load() {\n		conn, err","	for {\n		if s.shutdown.Load() {\n			return nil\n		}\n\n		conn, err"),(V,"		go s.connHandler(conn)\n	}\n\n	return nil\n}","		go s.connHandler(conn)\n	}\n}")])
R('server-handle-helper','C09',[(V,"		s.wg.Add(1)\n		go s.connHandler(conn)\n","		s.spawn(conn)\n"),(V,"// Stop closes","func (s *Server) spawn(conn net.Conn) {\n	s.wg.Add(1)\n	go s.connHandler(conn)\n}\n\n// Stop closes")])
R('server-defer','C09',[(V,"	s.onConn(conn)\n	_ = conn.Close()\n	s.wg.Done()\n","	defer s.wg.Done()\n	defer conn.Close()\n\n	s.onConn(conn)\n")])
R('server-index-loops','C09',[(V,"	for _, server := range servers {\n		_ = server.Stop()\n	}\n","	for i := 0; i < len(servers); i++ {\n		_ = servers[i].Stop()\n	}\n"),(V,"	for _, server := range servers {\n		server.Wait()\n	}\n","	for i := range servers {\n		servers[i].wg.Wait()\n	}\n")])
R('server-go-closure','C09',[(V,"		go s.connHandler(conn)\n","		go func() {\n			s.onConn(conn)\n			_ = conn.Close()\n			s.wg.Done()\n		}()\n"),(V,"func (s *Server) connHandler(conn net.Conn) {\n	s.onConn(conn)\n	_ = conn.Close()\n	s.wg.Done()\n}\n\n","")])
R('server-common','C09',[(V,"	for _, server := range servers {\n		_ = server.Stop()\n	}\n\n	WaitAll(servers)\n","	each(servers, func(s *Server) { _ = s.Stop() })\n	WaitAll(servers)\n"),(V,"func WaitAll","func each(servers []*Server, f func(*Server)) {\n	for _, server := range servers {\n		f(server)\n	}\n}\n\nfunc WaitAll")])
G='http/coding/codings.go'
GET="	coding, found := m.codings[token]\n	if !found {\n		return nil, ErrUnknownToken\n	}\n\n	return coding.Encode(input)\n"
R('coding-lookup','C10',[(G,GET,"	coding, err := m.lookup(token)\n	if err != nil {\n		return nil, err\n	}\n\n	return coding.Encode(input)\n"),(G,"func (m Manager) newBuffer","func (m Manager) lookup(token Token) (Coding, error) {\n	if coding, found := m.codings[token]; found {\n		return coding, nil\n	}\n\n	return nil, ErrUnknownToken\n}\n\nfunc (m Manager) newBuffer")])
R('coding-token-var','C10',[(G,"	m.codings[coding.Token()] = coding\n","	token := coding.Token()\n	m.codings[token] = coding\n"),(G,"	switch coding.Token() {\n","	switch token {\n")])
R('coding-alias-if','C10',[(G,'	switch coding.Token() {\n	case "gzip":\n		m.codings["x-gzip"] = coding\n	case "compress":\n		m.codings["x-compress"] = coding\n	}\n','	if t := coding.Token(); t == "gzip" || t == "compress" {\n		m.codings["x-"+t] = coding\n	}\n')])
R('coding-empty-first','C10',[(G,"	if token == identity || len(input) == 0 {\n		return input, nil\n	}\n\n	coding, found := m.codings[token]\n	if !found {\n		return nil, ErrUnknownToken\n	}\n\n	return coding.Decode(input)\n","	switch {\n	case len(input) == 0, token == identity:\n		return input, nil\n	}\n\n	if coding, found := m.codings[token]; found {\n		return coding.Decode(input)\n	}\n\n	return nil, ErrUnknownToken\n")])
E1='http/method/method.go'
src=open('/repo/'+E1).read()
body=src[src.index("	switch len(str) {"):src.rindex("	return Unknown")]
R('method-switch','C11',[(E1,body,'	switch str {\n	case "GET":\n		return GET\n	case "HEAD":\n		return HEAD\n	case "POST":\n		return POST\n	case "PUT":\n		return PUT\n	case "DELETE":\n		return DELETE\n	case "CONNECT":\n		return CONNECT\n	case "OPTIONS":\n		return OPTIONS\n	case "TRACE":\n		return TRACE\n	case "PATCH":\n		return PATCH\n	}\n\n')])
R('method-map','C11',[(E1,body,'	return byName[str]\n}\n\nfunc unused() Method {\n'),(E1,'func Parse','var byName = map[string]Method{\n	"GET": GET, "HEAD": HEAD, "POST": POST, "PUT": PUT, "DELETE": DELETE,\n	"CONNECT": CONNECT, "OPTIONS": OPTIONS, "TRACE": TRACE, "PATCH": PATCH,\n}\n\nfunc Parse')])
R('method-loop','C11',[(E1,body,'	for _, m := range List {\n		if m.String() == str {\n			return m\n		}\n	}\n\n')])
T='internal/types/attachment.go'
R('attachment-switch','C13',[(T,"	if closer, ok := a.content.(io.Closer); ok {\n		_ = closer.Close()\n	}\n","	switch c := a.content.(type) {\n	case io.Closer:\n		_ = c.Close()\n	}\n")])
K='http/status/errors.go'
R('status-newerror','C12',[(K,"	return HTTPError{\n		Code:    code,\n		Message: message,\n	}\n","	var e HTTPError\n	e.Code = code\n	e.Message = message\n\n	return e\n")])
