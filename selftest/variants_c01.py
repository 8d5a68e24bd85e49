R='response.go'
V=[
('bug','C01','status after sent',[(R,"	if rw.committed {\n		return\n	}\n","")]),
('bug','C01','hooks forward',[(R,"for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {","for i := 0; i < len(rw.beforeFuncs); i++ {")]),
('bug','C01','hooks skip first',[(R,"i >= 0; i--","i > 0; i--")]),
('bug','C01','hooks after header',[(R,"		rw.callBefore()\n		// The",""+"		// The"),(R,"		rw.ResponseWriter.WriteHeader(rw.status)\n","		rw.ResponseWriter.WriteHeader(rw.status)\n		rw.callBefore()\n")]),
('bug','C01','flush without commit',[(R,"		rw.Write(nil)\n		flusher","		flusher")]),
('bug','C01','size len',[(R,"rw.size += size","rw.size += len(b)")]),
('bug','C01','default 204',[(R,"rw.status = http.StatusOK","rw.status = http.StatusNoContent")]),
('bug','C01','default before hooks',[(R,"		rw.callBefore()\n		// The status will be StatusOK if WriteHeader has not been called yet\n		if rw.status == 0 {\n			rw.status = http.StatusOK\n		}\n","		st := rw.status\n		if st == 0 {\n			st = http.StatusOK\n		}\n		rw.callBefore()\n		rw.status = st\n")]),
('bug','C01','hijack flag dropped',[(R,"	rw.hijacked = true\n","")]),
('bug','C01','hijack flag on error',[(R,"	rwc, br, err = hijacker.Hijack()\n	if err != nil {\n		return\n	}\n	rw.hijacked = true","	rwc, br, err = hijacker.Hijack()\n	rw.hijacked = true")]),
('bug','C01','serve no commit',[('app.go',"	trw.Write(nil)\n","")]),
('bug','C01','serve commit only if written',[('app.go',"	trw.Write(nil)\n","	if trw.Written() {\n		trw.Write(nil)\n	}\n")]),
('bug','C01','serve commit before',[('app.go',"	ctx.(*context).run()\n\n	// flush header if have not written\n	trw.Write(nil)\n","	trw.Write(nil)\n	ctx.(*context).run()\n")]),
('bug','C01','once instance per flush',[(R,"		// commit status and run","		rw.once = sync.Once{}\n		// commit status and run")]),
('bug','C01','before prepend',[(R,"rw.beforeFuncs = append(rw.beforeFuncs, before)","rw.beforeFuncs = append([]BeforeFunc{before}, rw.beforeFuncs...)")]),
('bug','C01','written by size',[(R,"return rw.status != 0","return rw.size != 0")]),
('bug','C01','early commit flag',[(R,"		rw.callBefore()\n","		rw.committed = true\n		rw.callBefore()\n"),(R,"		rw.committed = true\n\n		if","		if")]),
('bug','C01','write error drops size',[(R,"	rw.size += size\n	return","	if err == nil {\n		rw.size += size\n	}\n	return")]),
('bug','C01','first status wins',[(R,"	rw.status = s\n","	if rw.status == 0 {\n		rw.status = s\n	}\n")]),
('ref','C01','bool instead of once',[(R,"	rw.once.Do(func() {\n","	if !rw.committed {\n"),(R,"		if rw.hijacked {\n			return\n		}\n\n		rw.ResponseWriter.WriteHeader(rw.status)\n	})\n","		if !rw.hijacked {\n			rw.ResponseWriter.WriteHeader(rw.status)\n		}\n	}\n"),(R,"	once sync.Once\n",""),(R,'	"sync"\n','')]),
('ref','C01','helper',[(R,"	rw.once.Do(func() {\n","	rw.once.Do(rw.send)\n	size, err := rw.ResponseWriter.Write(b)\n	rw.size += size\n	return size, err\n}\n\nfunc (rw *responseWriter) send() {\n"),(R,"		rw.ResponseWriter.WriteHeader(rw.status)\n	})\n\n	size, err := rw.ResponseWriter.Write(b)\n	rw.size += size\n	return size, err\n}","		rw.ResponseWriter.WriteHeader(rw.status)\n}")]),
('ref','C01','loop forms',[(R,"	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {\n		rw.beforeFuncs[i](rw)\n	}","	n := len(rw.beforeFuncs)\n	for i := range rw.beforeFuncs {\n		rw.beforeFuncs[n-1-i](rw)\n	}")]),
('ref','C01','loop forms 2',[(R,"	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {\n		rw.beforeFuncs[i](rw)\n	}","	i := len(rw.beforeFuncs)\n	for i > 0 {\n		i--\n		f := rw.beforeFuncs[i]\n		f(rw)\n	}")]),
('ref','C01','loop forms 3',[(R,"	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {\n		rw.beforeFuncs[i](rw)\n	}","	hooks := rw.beforeFuncs\n	last := len(hooks) - 1\n	for k := 0; k <= last; k++ {\n		hooks[last-k](rw)\n	}")]),
('ref','C01','serve defer order',[('app.go',"	trw.Write(nil)\n","	s.finish(trw)\n"),('app.go',"func (s *Strip) Run() error","func (s *Strip) finish(w ResponseWriter) {\n	var none []byte\n	w.Write(none)\n}\n\nfunc (s *Strip) Run() error")]),
('ref','C01','write named results',[(R,"func (rw *responseWriter) Write(b []byte) (int, error) {","func (rw *responseWriter) Write(b []byte) (n int, err error) {"),(R,"	size, err := rw.ResponseWriter.Write(b)\n	rw.size += size\n	return size, err","	defer func() { rw.size += n }()\n	n, err = rw.ResponseWriter.Write(b)\n	return n, err")]),
('ref','C01','flush early return',[(R,"	if ok {\n		// commit status and run before hooks, flushing sends the header\n		rw.Write(nil)\n		flusher.Flush()\n	}","	if !ok {\n		return\n	}\n	if !rw.committed {\n		rw.Write(nil)\n	}\n	flusher.Flush()")]),
('ref','C01','written switch',[(R,"return rw.status != 0","if rw.status == 0 {\n		return false\n	}\n	return true")]),
('ref','C01','written const',[(R,"	if s == 0 {\n		panic","	switch s {\n	case 0:\n		panic")]),
]
