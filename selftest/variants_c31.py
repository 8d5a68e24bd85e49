A='app.go'; P='params/params.go'
D='''	defer func() {
		var req *http.Request
		if err := ctx.Find(&req, ""); err == nil && req != nil && req.MultipartForm != nil {
			if err := req.MultipartForm.RemoveAll(); err != nil {
				s.logger.Notice("error removing temporary files:", err)
			}
		}
	}()
'''
V=[
('bug','C31','not removed',[(A,D,'')]),
('bug','C31','removed only without panic',[(A,D,''),(A,'''	ctx.(*context).run()
''','''	ctx.(*context).run()
'''+D)]),
('bug','C31','own request',[(A,D,D.replace('		var req *http.Request\n		if err := ctx.Find(&req, ""); err == nil && req','		if req'))]),
('bug','C31','removed before chain',[(A,D,D.replace('	defer func() {','	func() {'))]),
('bug','C31','only when written',[(A,D,D.replace('req != nil &&','req != nil && trw.Written() &&'))]),
('bug','C31','in background',[(A,D,D.replace('	defer func() {','	defer func() {\n		go func() {').replace('	}()\n','		}()\n	}()\n'))]),
('bug','C31','find error inverted',[(A,D,D.replace('err == nil && req','err != nil && req'))]),
('bug','C31','provider removes',[(P,'		return params\n','		if req.MultipartForm != nil {\n			defer req.MultipartForm.RemoveAll()\n		}\n		return params\n')]),
('bug','C31','binder removes',[(P,'func (p *Params) RealIp()','func (p *Params) Close() {\n	if p.req.MultipartForm != nil {\n		p.req.MultipartForm.RemoveAll()\n	}\n}\n\nfunc (p *Params) RealIp()')]),
('bug','C31','limit ignored',[(P,'		if maxMemory == 0 {\n','		if maxMemory != 0 {\n')]),
('bug','C31','limit name',[(P,'"max_memory"','"max_mem"')]),
('bug','C31','limit zero',[(P,'		if maxMemory == 0 {\n			maxMemory = DefaultMaxMemory\n		}\n',''),(P,'		if maxMemory <= 0 {\n			maxMemory = DefaultMaxMemory\n		}\n','')]),
('bug','C31','limit larger',[(P,'req.ParseMultipartForm(maxMemory)','req.ParseMultipartForm(maxMemory << 10)')]),
('ref','C31','method',[(A,D,'	defer s.removeUploads(ctx)\n'),(A,'func (s *Strip) Run()','''func (s *Strip) removeUploads(ctx Context) {
	var req *http.Request
	if err := ctx.Find(&req, ""); err != nil || req == nil {
		return
	}
	form := req.MultipartForm
	if form == nil {
		return
	}
	if err := form.RemoveAll(); err != nil {
		s.logger.Notice("error removing temporary files:", err)
	}
}

func (s *Strip) Run()''')]),
('ref','C31','function of the form',[(A,D,D.replace('''			if err := req.MultipartForm.RemoveAll(); err != nil {
				s.logger.Notice("error removing temporary files:", err)
			}
''','''			removeForm(s.logger, req.MultipartForm)
''')),(A,'func (s *Strip) Run()','''func removeForm(log Logger, form *multipart.Form) {
	if err := form.RemoveAll(); err != nil {
		log.Notice("error removing temporary files:", err)
	}
}

func (s *Strip) Run()'''),(A,'import (\n','import (\n	"mime/multipart"\n')]),
('ref','C31','error ignored',[(A,D,D.replace('''			if err := req.MultipartForm.RemoveAll(); err != nil {
				s.logger.Notice("error removing temporary files:", err)
			}
''','''			_ = req.MultipartForm.RemoveAll()
'''))]),
('ref','C31','chain in helper',[(A,'	ctx.(*context).run()\n','	s.handle(ctx)\n'),(A,'func (s *Strip) Run()','''func (s *Strip) handle(ctx Context) {
	ctx.(*context).run()
}

func (s *Strip) Run()''')]),
('ref','C31','inner chain',[(A,'	ctx.(*context).run()\n','	handle := ctx.(*context).run\n	handle()\n')]),
('ref','C31','limit once',[(P,'		if maxMemory == 0 {\n			maxMemory = DefaultMaxMemory\n		}\n','')]),
('ref','C31','limit helper',[(P,'''		var maxMemory int64
		config.Bind(&maxMemory, "max_memory")
		if maxMemory == 0 {
			maxMemory = DefaultMaxMemory
		}

		err := ParseParams(params, maxMemory)
''','''		err := ParseParams(params, maxMemoryOf(config))
'''),(P,'func ParamsParser()','''func maxMemoryOf(config *strip.Config) (n int64) {
	config.Bind(&n, "max_memory")
	if n == 0 {
		n = DefaultMaxMemory
	}
	return
}

func ParamsParser()''')]),
]
V += [('bug','C31','request of the application',[(A,D,D.replace('ctx.Find(','s.inject.Find('))])]
V += [('bug','C31','parsed on a clone',[(P,'	req := params.req\n','	req := params.req.Clone(params.req.Context())\n')])]
