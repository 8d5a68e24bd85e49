A='app.go'; R='router.go'; F='router_filter.go'; C='context.go'; L='request-logger/logger.go'; Q='request-logger/reqid.go'; G='gzip/gzip.go'
S='static-serve/static.go'; I='inject/inject.go'; U='utils/rand.go'; W='utils/worker.go'; P='params/params.go'; B='params/binder.go'; RE='caches/provider_redis.go'
M='sessions/manager.go'; E='utils/apires/error.go'; RB='utils/apires/res.go'; AC='router_action.go'
V=[
('bug','C09','request provided to the application',[(A,"	ctx.Provide(req)\n","	s.inject.Provide(req)\n")]),
('bug','C09','context cached in the application',[(A,"	ctx.SetParent(s.inject)\n","	s.last = ctx\n	ctx.SetParent(s.inject)\n"),(A,"type Strip struct {\n","type Strip struct {\n	last Context\n")]),
('bug','C09','filters appended per request',[(A,"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	fs := append(s.filters, newFilter(reflect.ValueOf(0), func() inject.Provider { return func() {} }))\n	ctx = newContext(nil, trw, fs[:len(s.filters)], s.route.handle)\n"),(A,'	"net/http"\n','	"net/http"\n	"reflect"\n')]),
('bug','C09','nested filters appended',[(R,"		routeAction.filters,\n","		append(routeAction.filters, r.notFoundFilters...)[:len(routeAction.filters)],\n")]),
('bug','C09','match cache in the router',[(R,"		route = r.match(paths, &params)\n","		route = r.match(paths, &params)\n		r.seen[req.URL.Path] = route\n"),(R,"	namedRoutes map[string]*route\n}","	namedRoutes map[string]*route\n	seen map[string]*route\n}"),(R,"	routeRoot.isEnd = true\n","	routeRoot.isEnd = true\n	routeRoot.seen = map[string]*route{}\n")]),
('bug','C09','path cached in the route',[(R,"	info := &RouteInfo{\n		Path: route.calcPath(),\n	}\n","	if route.path == \"\" {\n		route.path = route.calcPath()\n	}\n	info := &RouteInfo{Path: route.path}\n"),(R,"	wildRoute   *route\n","	wildRoute   *route\n	path string\n")]),
('bug','C09','parameters list shared',[(R,"		params = make(paramList, 0)\n","		params = r.buf[:0]\n"),(R,"	namedRoutes map[string]*route\n}","	namedRoutes map[string]*route\n	buf paramList\n}"),(R,"	routeRoot.isEnd = true\n","	routeRoot.isEnd = true\n	routeRoot.buf = make(paramList, 0, 16)\n")]),
('bug','C09','route info shared',[(R,"	info := &RouteInfo{\n		Path: route.calcPath(),\n	}\n","	info := r.info\n	info.Path = route.calcPath()\n"),(R,"	namedRoutes map[string]*route\n}","	namedRoutes map[string]*route\n	info *RouteInfo\n}"),(R,"	routeRoot.isEnd = true\n","	routeRoot.isEnd = true\n	routeRoot.info = &RouteInfo{}\n")]),
('bug','C09','gzip writer shared',[(G,"	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {","	gzw := &gzipResponseWriter{}\n	return func(rw http.ResponseWriter, req *http.Request, ctx strip.Context) {"),(G,"		gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}\n","		gzw.ResponseWriter = rw.(strip.ResponseWriter)\n")]),
('bug','C09','static file kept',[(S,"		f, fi, err := serveFile(file)\n","		last = file\n		f, fi, err := serveFile(file)\n"),(S,"	serveFile := func","	var last string\n	_ = last\n	serveFile := func")]),
('bug','C09','static prefix rewritten',[(S,"		for _, p := range opt.SkipPrefix {\n","		for i, p := range opt.SkipPrefix {\n			opt.SkipPrefix[i] = strings.TrimSpace(p)\n")]),
('bug','C09','static cache of stat',[(S,"	serveFile := func(file string) (f http.File, fi os.FileInfo, err error) {\n","	cache := make(map[string]bool)\n	serveFile := func(file string) (f http.File, fi os.FileInfo, err error) {\n		cache[file] = true\n")]),
('bug','C09','logger shared',[(L,"	return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {\n","	shared := strip.NewReqLogger(out, \"\")\n	return func(ctx strip.Context, rw http.ResponseWriter, req *http.Request) {\n"),(L,"		log := strip.NewReqLogger(out, reqId)\n","		log := shared\n")]),
('bug','C09','option changed per request',[(L,"		prefix := \"\"\n","		opt.FlatLine = reqId != \"\"\n		prefix := \"\"\n")]),
('bug','C09','request id buffer shared',[(Q,"	var b [12]byte\n	binary","	b := &idBuf\n	binary"),(Q,"func NewReqId()","var idBuf [12]byte\n\nfunc NewReqId()")]),
('bug','C09','request id from shared rand',[(Q,"var rnd = uint32(rand.New(rand.NewSource(time.Now().UnixNano())).Intn(999999999))","var src = rand.New(rand.NewSource(time.Now().UnixNano()))"),(Q,"PutUint32(b[:], rnd)","PutUint32(b[:], uint32(src.Intn(999999999)))")]),
('bug','C09','request id counter',[(Q,"	binary.LittleEndian.PutUint32(b[:], rnd)\n","	rnd++\n	binary.LittleEndian.PutUint32(b[:], rnd)\n")]),
('bug','C09','random bytes shared',[(U,"	var bytes = make([]byte, n)\n","	if cap(pool) < n {\n		pool = make([]byte, n)\n	}\n	bytes := pool[:n]\n"),(U,"// randomCreateBytes","var pool []byte\n\n// randomCreateBytes")]),
('bug','C09','alphabet grows',[(U,"	token := make([]byte, 0, 12)\n","	token := tok[:0]\n"),(U,"// randomCreateBytes","var tok = make([]byte, 0, 64)\n\n// randomCreateBytes")]),
('bug','C09','error shared by WithMsg',[(E,"func (e *ResError) WithMsg(message string) *ResError {\n","func (e *ResError) WithMsg(message string) *ResError {\n	e.Message = message\n")]),
('bug','C09','redis buffer in the provider',[(RE,"	key = p.KeyPrefix + key\n","	key = p.KeyPrefix + key\n	p.last = key\n"),(RE,"	RedisConfig\n}","	RedisConfig\n	last string\n}")] ),
('bug','C09','cookie config normalised',[(M,"	sid, createdAt, ok := m.ReadSidFromRequest(r, config.CookieName)\n","	if config.CookieName == \"\" {\n		config.CookieName = \"sid\"\n	}\n	sid, createdAt, ok := m.ReadSidFromRequest(r, config.CookieName)\n")]),
('bug','C09','session kept in the manager',[(M,"	provider SessionProvider\n}","	provider SessionProvider\n	last SessionStore\n}"),(M,"		m.WriteSessionCookie(config, r, w, sess.Sid(), createdAt)\n","		m.last = sess\n		m.WriteSessionCookie(config, r, w, m.last.Sid(), createdAt)\n")]),
('bug','C09','injector caches in the parent',[(I,"	// back to parent injector\n	if inj.parent != nil {\n		return inj.parent.get(name)\n	}\n","	// back to parent injector\n	if inj.parent != nil {\n		return inj.parent.get(name)\n	}\n	inj.values[name] = nil\n")]),
('bug','C09','provider info keeps its value',[("inject/inject_provider.go","func (p *providerInfo) invoke(","func (p *providerInfo) mark() { p.used = true }\n\nfunc (p *providerInfo) invoke("),("inject/inject_provider.go","	// depends of this provider\n","	used bool\n	// depends of this provider\n"),(I,"	if prov := inj.values[name]; prov != nil {\n","	if prov := inj.values[name]; prov != nil {\n		prov.mark()\n")]),
('bug','C09','closed written without lock',[(W,"	w.rw.Lock()\n	w.close()\n	w.rw.Unlock()\n}","	w.close()\n}")]),
('bug','C09','error read without lock',[(W,"	w.wg.Wait()\n	w.rw.Lock()\n	err = w.err\n	w.err = nil\n	w.rw.Unlock()\n","	w.wg.Wait()\n	err = w.err\n	w.rw.Lock()\n	w.err = nil\n	w.rw.Unlock()\n")]),
('bug','C09','write under the read lock',[(W,"	w.rw.RLock()\n	if w.closed {","	w.rw.RLock()\n	w.tasks++\n	if w.closed {"),(W,"	closed bool\n","	closed bool\n	tasks int\n")]),
('bug','C09','binder cache',[(B,"func Bind(","var bound = map[string]reflect.Type{}\n\nfunc Bind("),(B,"func BindValue(val string, typ reflect.Type) reflect.Value {\n","func BindValue(val string, typ reflect.Type) reflect.Value {\n	bound[val] = typ\n")]),
# what is safe
('ref','C09','counter under a lock',[(Q,"	binary.LittleEndian.PutUint32(b[:], rnd)\n","	mu.Lock()\n	last = time.Now().UnixNano()\n	mu.Unlock()\n	binary.LittleEndian.PutUint32(b[:], rnd)\n"),(Q,"func NewReqId()","var mu sync.Mutex\nvar last int64\n\nfunc NewReqId()")]),
('ref','C09','buffers from a pool',[(U,"	token := make([]byte, 0, 12)\n","	bp := tok.Get().(*[]byte)\n	defer tok.Put(bp)\n	token := (*bp)[:0]\n"),(U,"// randomCreateBytes","var tok = sync.Pool{New: func() interface{} { b := make([]byte, 0, 64); return &b }}\n\n// randomCreateBytes"),(U,'	"math/big"\n','	"math/big"\n	"sync"\n')]),
('ref','C09','capped append',[(R,"		routeAction.filters,\n","		append(routeAction.filters[:len(routeAction.filters):len(routeAction.filters)], r.notFoundFilters...)[:len(routeAction.filters)],\n")]),
('ref','C09','copied filters',[(A,"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	fs := make(filters, 0, len(s.filters)+1)\n	fs = append(fs, s.filters...)\n	ctx = newContext(nil, trw, fs, s.route.handle)\n")]),
('ref','C09','lookup in a helper',[(A,"	ctx.SetParent(s.inject)\n	ctx.Provide(req)\n	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))\n","	s.prepare(ctx, req, trw)\n"),(A,"func (s *Strip) Run() error {","func (s *Strip) prepare(ctx Context, req *http.Request, trw ResponseWriter) {\n	ctx.SetParent(s.inject)\n	ctx.Provide(req)\n	ctx.ProvideAs(trw, (*http.ResponseWriter)(nil))\n}\n\nfunc (s *Strip) Run() error {")]),
('ref','C09','worker with deferred unlock',[(W,"	w.rw.Lock()\n	w.close()\n	w.rw.Unlock()\n}","	w.rw.Lock()\n	defer w.rw.Unlock()\n	w.close()\n}")]),
('ref','C09','replacer in a package variable',[(L,"		log := strip.NewReqLogger(out, reqId)\n","		_ = cleaner.Replace(reqId)\n		log := strip.NewReqLogger(out, reqId)\n"),(L,"type LoggerContentFilter","var cleaner = strings.NewReplacer(\"\\x00\", \"\")\n\ntype LoggerContentFilter")]),
('ref','C09','constants in a package variable',[(U,"	y := big.NewInt(int64(len(alphabet)))\n	m := new(big.Int)\n","	y := new(big.Int).Set(base(alphabet))\n	m := new(big.Int)\n"),(U,"// randomCreateBytes","func base(a []byte) *big.Int { return big.NewInt(int64(len(a))) }\n\n// randomCreateBytes")]),
]
V+=[
('ref','C02','t2 filters appended to nothing',[('app.go',"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	ctx = newContext(nil, trw, append(filters(nil), s.filters...), s.route.handle)\n")]),
('ref','C02','t2 filters copied',[('app.go',"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	fs := make(filters, len(s.filters))\n	copy(fs, s.filters)\n	ctx = newContext(nil, trw, fs, s.route.handle)\n")]),
('bug','C02','t2 half of the filters copied',[('app.go',"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	fs := make(filters, len(s.filters)/2)\n	copy(fs, s.filters)\n	ctx = newContext(nil, trw, fs, s.route.handle)\n")]),
('bug','C02','t2 filters behind nothing',[('app.go',"	ctx = newContext(nil, trw, s.filters, s.route.handle)\n","	fs := make(filters, len(s.filters))\n	fs = append(fs, s.filters...)\n	ctx = newContext(nil, trw, fs, s.route.handle)\n")]),
]
