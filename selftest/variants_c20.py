S='static-serve/static.go'
SK="""		for _, p := range opt.SkipPrefix {
			if strings.HasPrefix(file, p) {
				return
			}
		}
"""
PF="""			if !strings.HasPrefix(file, prefix) {
				return
			}
			file = file[len(prefix):]
			if file != "" && file[0] != '/' {
				return
			}
"""
DEST="""				dest := url.URL{
					Path:     "/" + strings.TrimLeft(req.URL.Path, "/") + "/",
					RawQuery: req.URL.RawQuery,
					Fragment: req.URL.Fragment,
				}
"""
DEFER="""		defer func() {
			if err != nil {
				log.Noticef("[STATIC] %s, %v", file, err)
				http.NotFound(rw, req)
				return
			}
		}()
"""
SERVE=""" serveFile := func(file string) (f http.File, fi os.FileInfo, err error) {
		f, err = dir.Open(file)
		if err != nil {
			return
		}

		defer func() {
			if err != nil {
				f.Close()
			}
		}()

		fi, err = f.Stat()
		if err != nil {
			return
		}
		return
	}
"""[1:]
TRY="""	try:
		if err != nil {
			if opt.TryFilesThen != "" {
				var er error
				f, fi, er = serveFile(opt.TryFilesThen)
				if er != nil {
					log.Warnf("[STATIC] %s, %v", file, err, er)
					err = er
					return
				}
				defer f.Close()
				err = nil

				// the type is that of the file served, not of the one asked for
				file = opt.TryFilesThen
			}
			if err != nil {
				return
			}
		}

		http.ServeContent(rw, req, file, fi.ModTime(), f)
"""
V=[
('bug','C20','os open',[(S,"		f, err = dir.Open(file)\n		if err != nil {\n			return\n		}\n\n		defer","		f, err = os.Open(filepath.Join(directory, file))\n		if err != nil {\n			return\n		}\n\n		defer")]),
('bug','C20','cwd',[(S,"	dir := http.Dir(directory)","	dir := http.Dir(\"\")")]),
('bug','C20','boundary dropped',[(S,"			if file != \"\" && file[0] != '/' {\n				return\n			}\n","")]),
('bug','C20','boundary inverted',[(S,"file != \"\" && file[0] != '/'","file != \"\" && file[0] == '.'")]),
('bug','C20','prefix not asked',[(S,"			if !strings.HasPrefix(file, prefix) {\n				return\n			}\n			file = file[len(prefix):]","			file = strings.TrimPrefix(file, prefix)")]),
('bug','C20','skip ignored',[(S,SK,"")]),
('bug','C20','skip first',[(S,SK,"		for _, p := range opt.SkipPrefix {\n			if strings.HasPrefix(file, p) {\n				return\n			}\n			break\n		}\n")]),
('bug','C20','skip from second',[(S,SK,"		for i := 1; i < len(opt.SkipPrefix); i++ {\n			if strings.HasPrefix(file, opt.SkipPrefix[i]) {\n				return\n			}\n		}\n")]),
('bug','C20','skip contains',[(S,"			if strings.HasPrefix(file, p) {\n				return","			if strings.HasSuffix(file, p) {\n				return")]),
('bug','C20','skip with prefix',[(S,"			if strings.HasPrefix(file, p) {\n				return","			if strings.HasPrefix(req.URL.Path, p) {\n				return")]),
('bug','C20','any method',[(S,"!opt.AnyMethod && req.Method != \"GET\" && req.Method != \"HEAD\"","!opt.AnyMethod && req.Method == \"POST\"")]),
('bug','C20','method inverted',[(S,"!opt.AnyMethod && req","opt.AnyMethod && req")]),
('bug','C20','no head',[(S," && req.Method != \"HEAD\"","")]),
('bug','C20','fallback type',[(S,"				file = opt.TryFilesThen\n","")]),
('bug','C20','fallback leak',[(S,"				defer f.Close()\n				err = nil","				err = nil")]),
('bug','C20','fallback err kept',[(S,"					err = er\n					return","					err = nil\n					return")]),
('bug','C20','fallback always',[(S,"		if err != nil {\n			goto try\n		}","		if err != nil || fi.Size() == 0 {\n			goto try\n		}")]),
('bug','C20','fallback to 404',[(S,"				err = nil\n\n				// the type","				// the type")]),
('bug','C20','other host',[(S,"\"/\" + strings.TrimLeft(req.URL.Path, \"/\") + \"/\"","req.URL.Path + \"/\"")]),
('bug','C20','redirect host',[(S,"					RawQuery: req","					Host:     req.Host,\n					RawQuery: req")]),
('bug','C20','query dropped',[(S,"					RawQuery: req.URL.RawQuery,\n","")]),
('bug','C20','redirect relative file',[(S,"strings.TrimLeft(req.URL.Path, \"/\")","strings.TrimLeft(file, \"/\")")]),
('bug','C20','redirect 200',[(S,"http.StatusFound)","http.StatusNotModified)")]),
('bug','C20','redirect then on',[(S,"http.StatusFound)\n				return","http.StatusFound)")]),
('bug','C20','slash of file',[(S,"!strings.HasSuffix(req.URL.Path, \"/\")","!strings.HasSuffix(req.URL.RawPath, \"/\")")]),
('bug','C20','close early',[(S,"			goto try\n		}\n		defer f.Close()","			goto try\n		}\n		f.Close()")]),
('bug','C20','dir not closed',[(S,"			goto try\n		}\n		defer f.Close()\n","			goto try\n		}\n"),(S,"		http.ServeContent(rw","		defer f.Close()\n		http.ServeContent(rw")]),
('bug','C20','stat leak',[(S,"			if err != nil {\n				f.Close()\n			}\n		}()","			_ = 1\n		}()")]),
('bug','C20','index closed lazily',[(S,"			defer f.Close()\n\n			fi, err = f.Stat()\n			if err != nil || fi.IsDir() {\n				return\n			}","			fi, err = f.Stat()\n			if err != nil || fi.IsDir() {\n				return\n			}\n			defer f.Close()")]),
('bug','C20','closed by variable',[(S,"			goto try\n		}\n		defer f.Close()","			goto try\n		}\n		defer func() { f.Close() }()")]),
('bug','C20','silent missing',[(S,"				http.NotFound(rw, req)\n				return","				return")]),
('bug','C20','missing twice',[(S,"			if err != nil {\n				return\n			}\n		}\n\n		http.Serve","			if err != nil {\n				http.NotFound(rw, req)\n				return\n			}\n		}\n\n		http.Serve")]),
('bug','C20','index name',[(S,"path.Join(file, \"index.html\")","path.Join(\"/\", \"index.html\")")]),
('bug','C20','index dir sent',[(S,"if err != nil || fi.IsDir() {","if err != nil {")]),
('bug','C20','index stat old',[(S,"			fi, err = f.Stat()\n			if err != nil || fi.IsDir() {","			_, err = f.Stat()\n			if err != nil || !fi.IsDir() {")]),
('bug','C20','mod time zero',[(S,"fi.ModTime(), f)","time.Time{}, f)"),(S,"	\"strings\"\n","	\"strings\"\n	\"time\"\n")]),
('bug','C20','empty dir',[(S,"	if directory == \"\" {\n		panic(\"directory can not be empty\")\n	}\n","")]),
('bug','C20','in background',[(S,"		http.ServeContent(rw, req, file, fi.ModTime(), f)","		go http.ServeContent(rw, req, file, fi.ModTime(), f)")]),
('bug','C20','raw path',[(S,"file = req.URL.Path","file = req.RequestURI")]),
('bug','C20','no leading slash',[(S,"			prefix = \"/\" + prefix\n","")]),
('bug','C20','header before',[(S,"		// if we have a prefix, filter","		rw.Header().Set(\"Cache-Control\", \"public\")\n		// if we have a prefix, filter")]),
('bug','C20','dot files fall through',[(S,"		f, fi, err := serveFile(file)","		if strings.Contains(file, \"/.\") {\n			return\n		}\n		f, fi, err := serveFile(file)")]),
('ref','C20','skip helper',[(S,SK,"		if skipped(file, opt.SkipPrefix) {\n			return\n		}\n"),(S,"// ServeFilter returns","func skipped(file string, prefixes []string) bool {\n	for i := 0; i < len(prefixes); i++ {\n		if strings.HasPrefix(file, prefixes[i]) {\n			return true\n		}\n	}\n	return false\n}\n\n// ServeFilter returns")]),
('ref','C20','prefix helper',[(S,PF,"			var ok bool\n			if file, ok = under(file, prefix); !ok {\n				return\n			}\n"),(S,"// ServeFilter returns","func under(file, prefix string) (string, bool) {\n	if !strings.HasPrefix(file, prefix) {\n		return file, false\n	}\n	rest := strings.TrimPrefix(file, prefix)\n	return rest, rest == \"\" || strings.HasPrefix(rest, \"/\")\n}\n\n// ServeFilter returns")]),
('ref','C20','dest string',[(S,DEST,"				dest := directoryURL(req)\n"),(S,"// ServeFilter returns","func directoryURL(req *http.Request) *url.URL {\n	u := new(url.URL)\n	p := strings.TrimLeft(req.URL.Path, \"/\")\n	u.Path = \"/\" + p + \"/\"\n	u.RawQuery = req.URL.RawQuery\n	return u\n}\n\n// ServeFilter returns")]),
('ref','C20','serve helper',[(S,SERVE,"	serveFile := func(file string) (http.File, os.FileInfo, error) {\n		return open(dir, file)\n	}\n"),(S,"// ServeFilter returns","func open(dir http.Dir, file string) (http.File, os.FileInfo, error) {\n	f, err := dir.Open(file)\n	if err != nil {\n		return nil, nil, err\n	}\n	fi, err := f.Stat()\n	if err != nil {\n		f.Close()\n		return nil, nil, err\n	}\n	return f, fi, nil\n}\n\n// ServeFilter returns")]),
('ref','C20','method switch',[(S,"		if !opt.AnyMethod && req.Method != \"GET\" && req.Method != \"HEAD\" {\n			return\n		}\n","		if !opt.AnyMethod {\n			switch req.Method {\n			case http.MethodGet, http.MethodHead:\n			default:\n				return\n			}\n		}\n")]),
('ref','C20','fallback helper names',[(S,TRY,"""	try:
		if err != nil {
			if opt.TryFilesThen == "" {
				return
			}
			other, otherInfo, failed := serveFile(opt.TryFilesThen)
			if failed != nil {
				err = failed
				return
			}
			defer other.Close()
			err = nil
			f, fi, file = other, otherInfo, opt.TryFilesThen
		}

		http.ServeContent(rw, req, file, fi.ModTime(), f)
""")]),
('ref','C20','trim once',[(S,"		if prefix[0] != '/' {\n			prefix = \"/\" + prefix\n		}\n		// Remove any trailing '/'\n		prefix = strings.TrimRight(prefix, \"/\")\n","		prefix = normalize(prefix)\n"),(S,"// ServeFilter returns","func normalize(prefix string) string {\n	if !strings.HasPrefix(prefix, \"/\") {\n		prefix = \"/\" + prefix\n	}\n	return strings.TrimRight(prefix, \"/\")\n}\n\n// ServeFilter returns")]),
('ref','C20','not found named',[(S,DEFER,"		defer func() {\n			if err == nil {\n				return\n			}\n			notFound(rw, req, log, file, err)\n		}()\n"),(S,"// ServeFilter returns","func notFound(rw http.ResponseWriter, req *http.Request, log strip.Logger, file string, err error) {\n	log.Noticef(\"[STATIC] %s, %v\", file, err)\n	http.NotFound(rw, req)\n}\n\n// ServeFilter returns")]),
]
