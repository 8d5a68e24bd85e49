L='request-logger/logger.go'; I='request-logger/reqid.go'
V=[
('bug','C30','length 33',[(L,'reqIdLength > 32','reqIdLength > 33')]),
('bug','C30','length 11',[(L,'reqIdLength < 10','reqIdLength < 11')]),
('bug','C30','length and',[(L,'reqIdLength < 10 || reqIdLength > 32','reqIdLength < 10 && reqIdLength > 32')]),
('bug','C30','id filter only for fresh',[(L,'''			reqId = NewReqId()
		}

		if opt.ReqidFilter != nil {
			reqId = opt.ReqidFilter(ctx, rw, req, reqId)
		}
''','''			reqId = NewReqId()
			if opt.ReqidFilter != nil {
				reqId = opt.ReqidFilter(ctx, rw, req, reqId)
			}
		}
''')]),
('bug','C30','id filter after logger',[(L,'''		if opt.ReqidFilter != nil {
			reqId = opt.ReqidFilter(ctx, rw, req, reqId)
		}

''',''),(L,'''		// write request id to request and response
''','''		if opt.ReqidFilter != nil {
			reqId = opt.ReqidFilter(ctx, rw, req, reqId)
		}
''')]),
('bug','C30','hook adds',[(L,'			rw.Header().Del(HeaderReqid)\n			rw.Header().Set(HeaderReqid, reqId)','			rw.Header().Add(HeaderReqid, reqId)')]),
('bug','C30','hook keeps a changed id',[(L,'			rw.Header().Del(HeaderReqid)\n			rw.Header().Set(HeaderReqid, reqId)','			if rw.Header().Get(HeaderReqid) == "" {\n				rw.Header().Set(HeaderReqid, reqId)\n			}')]),
('bug','C30','hook only for good answers',[(L,'			rw.Header().Del(HeaderReqid)\n			rw.Header().Set(HeaderReqid, reqId)','			if rw.Status() < 500 {\n				rw.Header().Del(HeaderReqid)\n				rw.Header().Set(HeaderReqid, reqId)\n			}')]),
('bug','C30','hook after chain',[(L,'''		ctx.Next()

		status := res.Status()''','''		status := res.Status()'''),(L,'''		res.Before(func''','''		ctx.Next()
		res.Before(func''')]),
('bug','C30','request keeps old id',[(L,'		req.Header.Set(HeaderReqid, reqId)\n','		if req.Header.Get(HeaderReqid) == "" {\n			req.Header.Set(HeaderReqid, reqId)\n		}\n')]),
('bug','C30','only one type',[(L,'		ctx.ProvideAs(log, (*strip.ReqLogger)(nil))\n','')]),
('bug','C30','request not provided',[(L,'	ctx.Provide(req)\n','')]),
('bug','C30','context not replaced',[(L,'	ctx.ReplaceContext(req.Context())\n','')]),
('bug','C30','old context',[(L,'	req = req.WithContext(reqCtx)\n\n	ctx.Provide(req)\n	ctx.ReplaceContext(req.Context())\n','	ctx.ReplaceContext(req.Context())\n	req = req.WithContext(reqCtx)\n\n	ctx.Provide(req)\n')]),
('bug','C30','background context',[(L,'utils.CtxWithValue(req.Context(), &l)','utils.CtxWithValue(context.Background(), &l)'),(L,'import (\n','import (\n	"context"\n')]),
('bug','C30','status before chain',[(L,'''		ctx.Next()

		status := res.Status()
''','''		status := res.Status()
		ctx.Next()

''')]),
('bug','C30','status zero',[(L,'''		if status == 0 {
			status = http.StatusOK
		}
''','')]),
('bug','C30','end line lost on filter',[(L,'		if reqEnd != "" {','		if reqEnd != "" && opt.ReqEndFilter == nil {')]),
('bug','C30','beg filtered twice',[(L,'			reqEnd = opt.ReqEndFilter(ctx, rw, req, reqEnd)','			reqEnd = opt.ReqBegFilter(ctx, rw, req, reqEnd)')]),
('bug','C30','options swapped',[(L,'log.SetFlatLine(opt.FlatLine)','log.SetFlatLine(opt.ShortLine)')]),
('bug','C30','options only when set',[(L,'		log.SetFlatLine(opt.FlatLine)\n','		if opt.FlatLine {\n			log.SetFlatLine(true)\n		}\n')]),
('bug','C30','chain skipped for head',[(L,'		ctx.Next()\n','		if req.Method != "HEAD" {\n			ctx.Next()\n		}\n')]),
('bug','C30','id made once',[(I,'	var b [12]byte\n','	if last != "" {\n		return last\n	}\n	var b [12]byte\n'),(I,'	return base64.URLEncoding.EncodeToString(b[:])\n','	last = base64.URLEncoding.EncodeToString(b[:])\n	return last\n'),(I,'func NewReqId','var last string\n\nfunc NewReqId')]),
('bug','C30','id of random only',[(I,'	binary.LittleEndian.PutUint64(b[4:], uint64(time.Now().UnixNano()))\n','	binary.LittleEndian.PutUint64(b[4:], uint64(started))\n'),(I,'func NewReqId','var started = time.Now().UnixNano()\n\nfunc NewReqId')]),
('bug','C30','prefix dropped',[(L,'			prefix = opt.PrefixFilter(ctx, rw, req, prefix)','			_ = opt.PrefixFilter(ctx, rw, req, prefix)')]),
('ref','C30','helper for id',[(L,'''		reqId := req.Header.Get(HeaderReqid)
		reqIdLength := len(reqId)
		if reqIdLength < 10 || reqIdLength > 32 {
			reqId = NewReqId()
		}

		if opt.ReqidFilter''','''		reqId := idOf(req)

		if opt.ReqidFilter'''),(L,'func realIp(','''func idOf(req *http.Request) string {
	if id := req.Header.Get("x-reqid"); len(id) >= 10 && len(id) <= 32 {
		return id
	}
	return NewReqId()
}

func realIp(''')]),
('ref','C30','reordered',[(L,'''		log := strip.NewReqLogger(out, reqId)
		log.SetPrefix(prefix)

		// write request id to request and response
		req.Header.Set(HeaderReqid, reqId)
		rw.Header().Set(HeaderReqid, reqId)

''','''		// write request id to request and response
		rw.Header().Set(HeaderReqid, reqId)
		req.Header.Set(HeaderReqid, reqId)

		log := strip.NewReqLogger(out, reqId)
'''),(L,'''		log.EnableLogStack(opt.LogStackLevel)
''','''		log.EnableLogStack(opt.LogStackLevel)
		log.SetPrefix(prefix)
''')]),
('ref','C30','apply helper',[(L,'''		log.SetLineInfo(opt.LineInfo)
		log.SetShortLine(opt.ShortLine)
		log.SetFlatLine(opt.FlatLine)
		log.SetColorMode(opt.ColorMode)
		log.EnableLogStack(opt.LogStackLevel)
''','''		opt.apply(log)
'''),(L,'func realIp(','''func (o *LoggerOption) apply(log strip.LoggerAdv) {
	log.SetLineInfo(o.LineInfo)
	log.SetShortLine(o.ShortLine)
	log.SetFlatLine(o.FlatLine)
	log.SetColorMode(o.ColorMode)
	log.EnableLogStack(o.LogStackLevel)
}

func realIp(''')]),
('ref','C30','filter helper',[(L,'''		if opt.ReqBegFilter != nil {
			reqBeg = opt.ReqBegFilter(ctx, rw, req, reqBeg)
		}
		if reqBeg != "" {
			log.Info(reqBeg, strip.LineOpt{Hidden: true})
		}
''','''		logLine(log, opt.ReqBegFilter, ctx, rw, req, reqBeg)
'''),(L,'''		if opt.ReqEndFilter != nil {
			reqEnd = opt.ReqEndFilter(ctx, rw, req, reqEnd)
		}
		if reqEnd != "" {
			log.Info(reqEnd, strip.LineOpt{Hidden: true})
		}
''','''		logLine(log, opt.ReqEndFilter, ctx, rw, req, reqEnd)
'''),(L,'func realIp(','''func logLine(log strip.Logger, filter LoggerContentFilter, ctx strip.Context, rw http.ResponseWriter, req *http.Request, line string) {
	if filter != nil {
		line = filter(ctx, rw, req, line)
	}
	if line == "" {
		return
	}
	log.Info(line, strip.LineOpt{Hidden: true})
}

func realIp(''')]),
('ref','C30','hook inline set',[(L,'''			rw.Header().Del(HeaderReqid)
			rw.Header().Set(HeaderReqid, reqId)
			times :=''','''			h := rw.Header()
			h.Set(HeaderReqid, reqId)
			times :=''')]),
('ref','C30','context inlined',[(L,'''		req = setLoggerInContext(ctx, req, log)
''','''		var l strip.Logger = log
		goctx := utils.CtxWithValue(req.Context(), &l)
		req = req.WithContext(goctx)
		ctx.ReplaceContext(goctx)
		ctx.Provide(req)
''')]),
('ref','C30','real ip helper',[(L,'''	host := req.RemoteAddr
	if idx := strings.LastIndex(req.RemoteAddr, ":"); idx != -1 {
		host = host[:idx]
	}
	return host
''','''	idx := strings.LastIndex(req.RemoteAddr, ":")
	if idx < 0 {
		return req.RemoteAddr
	}
	return req.RemoteAddr[:idx]
''')]),
('ref','C30','sinceMs',[(L,'''			times := fmt.Sprintf("%0.3fms", float64(time.Since(start).Nanoseconds())/1e6)
			rw.Header()''','''			times := sinceMs(start)
			rw.Header()'''),(L,'''		times := fmt.Sprintf("%0.3fms", float64(time.Since(start).Nanoseconds())/1e6)
		reqEnd''','''		times := sinceMs(start)
		reqEnd'''),(L,'func realIp(','''func sinceMs(start time.Time) string {
	return fmt.Sprintf("%0.3fms", float64(time.Since(start).Nanoseconds())/1e6)
}

func realIp(''')]),
('ref','C30','status helper',[(L,'''		status := res.Status()
		if status == 0 {
			status = http.StatusOK
		}
''','''		status := statusOf(res)
'''),(L,'func realIp(','''func statusOf(res strip.ResponseWriter) int {
	if s := res.Status(); s != 0 {
		return s
	}
	return http.StatusOK
}

func realIp(''')]),
]
