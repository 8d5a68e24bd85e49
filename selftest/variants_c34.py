F = 'params/real.go'
V = []
def bug(t, *e): V.append(('bug', 'C34', t, [(F, a, b) for a, b in e]))
def ref(t, *e): V.append(('ref', 'C34', 't34 ' + t, [(F, a, b) for a, b in e]))
IP = '''	realIp = req.Header.Get("X-Real-Ip")
	if realIp != "" {
		return
	}
'''
XFF = '''	ips := strings.Split(req.Header.Get("X-Forwarded-For"), ",")
	if len(ips) > 0 && ips[0] != "" {
		rip := strings.Split(ips[0], ":")
		realIp = rip[0]
		return
	}
'''
REM = '''	ip := strings.Split(req.RemoteAddr, ":")
	if len(ip) > 0 {
		if ip[0] != "[" {
			realIp = ip[0]
			return
		}
	}
	return "127.0.0.1"
'''
HOST = '''	host = req.Header.Get("X-Forwarded-Host")
	if host == "" {
		host = req.Host
	}
	parts := strings.Split(host, ":")
	if len(parts) > 0 {
		host = parts[0]
	}
	return
'''
PROTO = '''	proto = req.Header.Get("X-Forwarded-Proto")
	if proto == "" {
		proto = req.URL.Scheme
	}
	if proto == "" {
		proto = "http"
	}
	return
'''
URI = '''	uri = req.Header.Get("X-Original-URI")
	if uri == "" {
		uri = req.URL.RequestURI()
	}
	return uri
'''
URL = '''	ins, err := url.ParseRequestURI(RealURI(req))
	if err != nil {
		return
	}
	d := *req.URL
	d.Host = RealHost(req)
	d.Scheme = RealProto(req)
	d.Opaque = ins.Opaque
	d.Path = ins.Path
	d.RawQuery = ins.RawQuery
	return &d, nil
'''
bug('remote address before the forwarded one', (XFF + '\n' + REM, REM.replace('	return "127.0.0.1"\n', '') + '\n' + XFF + '	return "127.0.0.1"\n'))
bug('last forwarded address', (XFF, XFF.replace('ips[0]', 'ips[len(ips)-1]')))
bug('forwarded first', (IP + '\n' + XFF, XFF + '\n' + IP.replace('realIp = ', 'realIp = ')))
bug('forwarded with port', (XFF, XFF.replace('rip[0]', 'ips[0]').replace('		rip := strings.Split(ips[0], ":")\n', '')))
bug('no check of an empty first', (XFF, XFF.replace(' && ips[0] != ""', '')))
bug('whole forwarded list', (XFF, '''	if f := req.Header.Get("X-Forwarded-For"); f != "" {
		return strings.Split(f, ":")[0]
	}
'''))
bug('remote with port', (REM, REM.replace('realIp = ip[0]', 'realIp = req.RemoteAddr')))
bug('remote last part', (REM, REM.replace('realIp = ip[0]', 'realIp = ip[len(ip)-1]')))
bug('other header', (IP, IP.replace('X-Real-Ip', 'X-Client-Ip')))
bug('host: own first', (HOST, HOST.replace('req.Header.Get("X-Forwarded-Host")', 'req.Host').replace('		host = req.Host', '		host = req.Header.Get("X-Forwarded-Host")')))
bug('host: port kept for forwarded', (HOST, '''	host = req.Header.Get("X-Forwarded-Host")
	if host != "" {
		return
	}
	host = strings.Split(req.Host, ":")[0]
	return
'''))
bug('host: URL host', (HOST, HOST.replace('host = req.Host', 'host = req.URL.Host')))
bug('host: last part', (HOST, HOST.replace('parts[0]', 'parts[len(parts)-1]')))
bug('proto: always http', (PROTO, PROTO.replace('''	if proto == "" {
		proto = req.URL.Scheme
	}
''', '')))
bug('proto: no default', (PROTO, PROTO.replace('''	if proto == "" {
		proto = "http"
	}
''', '')))
bug('proto: request first', (PROTO, PROTO.replace('req.Header.Get("X-Forwarded-Proto")', 'req.URL.Scheme').replace('		proto = req.URL.Scheme', '		proto = req.Header.Get("X-Forwarded-Proto")')))
bug('uri: other header', (URI, URI.replace('X-Original-URI', 'X-Original-URL')))
bug('uri: path only', (URI, URI.replace('req.URL.RequestURI()', 'req.URL.Path')))
bug('uri: raw', (URI, URI.replace('uri == ""', 'len(uri) < 2')))
bug('url: in place', (URL, URL.replace('d := *req.URL', 'd := req.URL').replace('return &d', 'return d')))
bug('url: error dropped', (URL, URL.replace('''	if err != nil {
		return
	}''', '''	if err != nil {
		return req.URL, nil
	}''')))
bug('url: own query', (URL, URL.replace('	d.RawQuery = ins.RawQuery\n', '')))
bug('url: own path', (URL, URL.replace('	d.Path = ins.Path\n', '')))
bug('url: own host', (URL, URL.replace('RealHost(req)', 'req.Host')))
bug('url: host of the parsed one', (URL, URL.replace('	d.Host = RealHost(req)', '	d.Host = RealHost(req)\n	if ins.Host != "" {\n		d.Host = ins.Host\n	}')))
bug('url: own scheme', (URL, URL.replace('	d.Scheme = RealProto(req)\n', '')))
bug('url: parses request', (URL, URL.replace('RealURI(req)', 'req.RequestURI')))
bug('url: loose parser', (URL, URL.replace('ParseRequestURI', 'Parse')))
ref('cut', (XFF, '''	first, _, _ := strings.Cut(req.Header.Get("X-Forwarded-For"), ",")
	if first != "" {
		realIp, _, _ = strings.Cut(first, ":")
		return
	}
'''))
ref('host cut', (HOST, HOST.replace('''	parts := strings.Split(host, ":")
	if len(parts) > 0 {
		host = parts[0]
	}
''', '''	host, _, _ = strings.Cut(host, ":")
''')))
ref('host index', (HOST, HOST.replace('''	parts := strings.Split(host, ":")
	if len(parts) > 0 {
		host = parts[0]
	}
''', '''	if i := strings.IndexByte(host, ':'); i >= 0 {
		host = host[:i]
	}
''')))
ref('host index -1', (HOST, HOST.replace('''	parts := strings.Split(host, ":")
	if len(parts) > 0 {
		host = parts[0]
	}
''', '''	if i := strings.Index(host, ":"); i != -1 {
		return host[:i]
	}
''')))
ref('splitn', (HOST, HOST.replace('strings.Split(host, ":")', 'strings.SplitN(host, ":", 2)')))
ref('helper without port', (HOST, HOST.replace('''	parts := strings.Split(host, ":")
	if len(parts) > 0 {
		host = parts[0]
	}
	return
''', '''	return withoutPort(host)
''') ), ('func RealProto(', '''func withoutPort(addr string) string {
	return strings.Split(addr, ":")[0]
}

func RealProto('''), (XFF, XFF.replace('''		rip := strings.Split(ips[0], ":")
		realIp = rip[0]
		return
''', '''		return withoutPort(ips[0])
''')))
ref('header first helper', (HOST, HOST.replace('''	host = req.Header.Get("X-Forwarded-Host")
	if host == "" {
		host = req.Host
	}
''', '''	host = forwarded(req, "X-Forwarded-Host", req.Host)
''')), ('func RealProto(', '''func forwarded(req *http.Request, header, otherwise string) string {
	if v := req.Header.Get(header); v != "" {
		return v
	}
	return otherwise
}

func RealProto('''), (PROTO, PROTO.replace('''	proto = req.Header.Get("X-Forwarded-Proto")
	if proto == "" {
		proto = req.URL.Scheme
	}
''', '''	proto = forwarded(req, "X-Forwarded-Proto", req.URL.Scheme)
''')))
ref('first of list', (PROTO, '''	return firstNonEmpty(req.Header.Get("X-Forwarded-Proto"), req.URL.Scheme, "http")
'''), ('func RealURI(', '''func firstNonEmpty(values ...string) string {
	for _, v := range values {
		if v != "" {
			return v
		}
	}
	return ""
}

func RealURI('''))
ref('proto switch', (PROTO, '''	proto = "http"
	if v := req.Header.Get("X-Forwarded-Proto"); v != "" {
		proto = v
	} else if req.URL.Scheme != "" {
		proto = req.URL.Scheme
	}
	return
'''))
ref('proto len', (PROTO, PROTO.replace('proto == ""', 'len(proto) == 0')))
ref('uri if', (URI, '''	if v := req.Header.Get("X-Original-Uri"); len(v) > 0 {
		return v
	}
	return req.URL.RequestURI()
'''))
ref('url new', (URL, URL.replace('d := *req.URL', 'd := new(url.URL)\n	*d = *req.URL').replace('return &d', 'return d')))
ref('url reordered', (URL, '''	host, proto := RealHost(req), RealProto(req)
	ins, err := url.ParseRequestURI(RealURI(req))
	if err != nil {
		return nil, err
	}
	d := *req.URL
	d.RawQuery, d.Path, d.Opaque = ins.RawQuery, ins.Path, ins.Opaque
	d.Host, d.Scheme = host, proto
	u = &d
	return
'''))
ref('ip remote switch', (REM, '''	realIp = strings.Split(req.RemoteAddr, ":")[0]
	if realIp == "[" {
		realIp = "127.0.0.1"
	}
	return
'''))
ref('ip nested', (XFF, '''	if forwarded := req.Header.Get("X-Forwarded-For"); forwarded != "" {
		if ips := strings.Split(forwarded, ","); ips[0] != "" {
			return strings.Split(ips[0], ":")[0]
		}
	}
'''))
