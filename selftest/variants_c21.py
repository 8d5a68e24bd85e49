G='gzip/gzip.go'
DF="""		defer func() {
			gzw.close()
			if gzw.gzw == nil {
				// nothing was compressed, and what is written from here on (a
				// panic page, a result) would never be completed by close
				headers.Del(HeaderContentEncoding)
				ctx.ProvideAs(rw, (*http.ResponseWriter)(nil))
			}
		}()
"""
V=[
('bug','C21','original',[(G,DF,"		defer gzw.close()\n")]),
('bug','C21','no defer',[(G,DF,""),(G,"		ctx.Next()\n","		ctx.Next()\n		gzw.close()\n")]),
('bug','C21','flush promoted',[(G,"func (g *gzipResponseWriter) Flush() {","func (g *gzipResponseWriter) FlushAll() {")]),
('bug','C21','flush under only',[(G,"	g.gzw.Flush()\n","")]),
('bug','C21','flush order',[(G,"	g.gzw.Flush()\n	g.ResponseWriter.Flush()","	g.ResponseWriter.Flush()\n	g.gzw.Flush()")]),
('bug','C21','flush no writer',[(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n		g.Header().Del(HeaderContentLength)\n	})\n\n	// what","	// what")]),
('bug','C21','length kept',[(G,"		// delete content length after we know we have been written to\n		g.Header().Del(HeaderContentLength)\n","")]),
('bug','C21','type overwritten',[(G,"		if len(g.Header().Get(HeaderContentType)) == 0 {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}","		g.Header().Set(HeaderContentType, http.DetectContentType(p))")]),
('bug','C21','type after',[(G,"		if len(g.Header().Get(HeaderContentType)) == 0 {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}\n	})\n\n	return g.gzw.Write(p)","	})\n	n, err := g.gzw.Write(p)\n	if len(g.Header().Get(HeaderContentType)) == 0 {\n		g.Header().Set(HeaderContentType, http.DetectContentType(p))\n	}\n	return n, err")]),
('bug','C21','small plain',[(G,"	return g.gzw.Write(p)","	if len(p) < 20 {\n		return g.ResponseWriter.Write(p)\n	}\n	return g.gzw.Write(p)")]),
('bug','C21','vary after',[(G,"		headers.Set(HeaderVary, HeaderAcceptEncoding)\n",""),(G,"		ctx.Next()\n","		ctx.Next()\n		headers.Set(HeaderVary, HeaderAcceptEncoding)\n")]),
('bug','C21','header when not accepted',[(G,"		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), \"gzip\") {\n			return\n		}\n\n		headers := rw.Header()\n		headers.Set(HeaderContentEncoding, \"gzip\")","		headers := rw.Header()\n		headers.Set(HeaderContentEncoding, \"gzip\")\n		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), \"gzip\") {\n			return\n		}\n")]),
('bug','C21','accept deflate',[(G,"\"gzip\") {","\"deflate\") {")]),
('bug','C21','te header',[(G,"	HeaderAcceptEncoding  = \"Accept-Encoding\"","	HeaderAcceptEncoding  = \"Content-Encoding\"")]),
('bug','C21','always undone',[(G,"			if gzw.gzw == nil {\n","			{\n")]),
('bug','C21','provide after next',[(G,"		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))\n\n		ctx.Next()\n","		ctx.Next()\n		ctx.ProvideAs(gzw, (*http.ResponseWriter)(nil))\n")]),
('bug','C21','close twice',[(G,"		g.gzw.Close()\n","		g.gzw.Close()\n		g.gzw.Close()\n")]),
('bug','C21','close never',[(G,"	if g.gzw != nil {\n		g.gzw.Close()","	if g.gzw != nil && g.Status() != http.StatusOK {\n		g.gzw.Close()")]),
('bug','C21','close flushes',[(G,"		g.gzw.Close()\n","		g.gzw.Flush()\n")]),
('bug','C21','short count',[(G,"	return g.gzw.Write(p)","	g.gzw.Write(p)\n	return 0, nil")]),
('bug','C21','writer per write',[(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n\n","	g.gzw = gzip.NewWriter(g.ResponseWriter)\n	g.one.Do(func() {\n")]),
('bug','C21','write lock-step split',[(G,"	return g.gzw.Write(p)","	if len(p) > 1<<16 {\n		p = p[:1<<16]\n	}\n	return g.gzw.Write(p)")]),
('bug','C21','status plain errors',[(G,"	return g.gzw.Write(p)","	if g.Status() >= 500 {\n		return g.ResponseWriter.Write(p)\n	}\n	return g.gzw.Write(p)")]),
('ref','C21','start helper',[(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n\n		// delete content length after we know we have been written to\n		g.Header().Del(HeaderContentLength)\n\n		if len(g.Header().Get(HeaderContentType)) == 0 {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}\n	})\n","	g.one.Do(func() {\n		g.start()\n		if g.Header().Get(HeaderContentType) == \"\" {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}\n	})\n"),(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n		g.Header().Del(HeaderContentLength)\n	})\n","	g.one.Do(g.start)\n"),(G,"func (g *gzipResponseWriter) close() {","func (g *gzipResponseWriter) start() {\n	g.Header().Del(HeaderContentLength)\n	g.gzw = gzip.NewWriter(g.ResponseWriter)\n}\n\nfunc (g *gzipResponseWriter) close() {")]),
('ref','C21','nil instead of once',[(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n\n		// delete content length after we know we have been written to\n		g.Header().Del(HeaderContentLength)\n\n		if len(g.Header().Get(HeaderContentType)) == 0 {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}\n	})\n","	if g.gzw == nil {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n		g.Header().Del(HeaderContentLength)\n		if len(g.Header().Get(HeaderContentType)) == 0 {\n			g.Header().Set(HeaderContentType, http.DetectContentType(p))\n		}\n	}\n"),(G,"	g.one.Do(func() {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n		g.Header().Del(HeaderContentLength)\n	})\n","	if g.gzw == nil {\n		g.gzw = gzip.NewWriter(g.ResponseWriter)\n		g.Header().Del(HeaderContentLength)\n	}\n"),(G,"	one sync.Once\n",""),(G,"	\"sync\"\n","")]),
('ref','C21','accept helper',[(G,"		if !strings.Contains(req.Header.Get(HeaderAcceptEncoding), \"gzip\") {","		if !acceptsGzip(req) {"),(G,"type gzipResponseWriter struct","func acceptsGzip(req *http.Request) bool {\n	accept := req.Header.Get(HeaderAcceptEncoding)\n	return strings.Contains(accept, \"gzip\")\n}\n\ntype gzipResponseWriter struct")]),
('ref','C21','vary first, constructor',[(G,"		headers.Set(HeaderContentEncoding, \"gzip\")\n		headers.Set(HeaderVary, HeaderAcceptEncoding)\n","		headers.Set(HeaderVary, HeaderAcceptEncoding)\n		headers.Set(HeaderContentEncoding, \"gzip\")\n"),(G,"gzw := &gzipResponseWriter{ResponseWriter: rw.(strip.ResponseWriter)}","gzw := newGzipWriter(rw)"),(G,"type gzipResponseWriter struct","func newGzipWriter(rw http.ResponseWriter) *gzipResponseWriter {\n	w := new(gzipResponseWriter)\n	w.ResponseWriter = rw.(strip.ResponseWriter)\n	return w\n}\n\ntype gzipResponseWriter struct")]),
]
