F='recovery.go'
V=[
('bug','C03','no escape message',[(F,'message := html.EscapeString(fmt.Sprintf("%T: %#v", err, err))','message := fmt.Sprintf("%T: %#v", err, err)')]),
('bug','C03','no escape title',[(F,'title := html.EscapeString(fmt.Sprintf("%v", err))','title := fmt.Sprintf("%v", err)')]),
('bug','C03','no escape stack',[(F,'	stack = html.EscapeString(stack)\n','')]),
('bug','C03','written ignored',[(F,'				if trw.Written() {\n					return\n				}\n','				_ = trw\n')]),
('bug','C03','prod page',[(F,'config.RunMode.IsDev()','!config.RunMode.IsTest()')]),
('bug','C03','status 502',[(F,'http.StatusInternalServerError','http.StatusBadGateway')]),
('bug','C03','only errors',[(F,'err := recover(); err != nil {','err, ok := recover().(error); ok {')]),
('bug','C03','rethrow prod',[(F,'				// respond with panic','				if config.RunMode.IsTest() {\n					panic(err)\n				}\n				// respond with panic')]),
('bug','C03','status late',[(F,'				rw.WriteHeader(http.StatusInternalServerError)\n',''),(F,'					rw.Write(body)\n				}\n','					rw.Write(body)\n				}\n				rw.WriteHeader(http.StatusInternalServerError)\n')]),
('bug','C03','dev only status',[(F,'				rw.WriteHeader(http.StatusInternalServerError)\n',''),(F,'					rw.Header()','					rw.WriteHeader(http.StatusInternalServerError)\n					rw.Header()')]),
('bug','C03','no-logger return',[(F,'					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\\n%s", err, fErr, stack)\n','					fmt.Fprintf(os.Stderr, "PANIC: %#v FindLog:%v\\n%s", err, fErr, stack)\n					return\n')]),
('ref','C03','helper page',[(F,'''					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
					title := html.EscapeString(fmt.Sprintf("%v", err))
					message := html.EscapeString(fmt.Sprintf("%T: %#v", err, err))
					body = []byte(fmt.Sprintf(panicHtml, title, title, message, styleStack(stack)))
					rw.Write(body)
''','''					body = panicPage(err, stack)
					rw.Header().Set("Content-Type", "text/html; charset=utf-8")
					rw.Write(body)
'''),(F,'func styleStack','''func panicPage(err interface{}, stack string) []byte {
	esc := html.EscapeString
	title := esc(fmt.Sprint(err))
	return []byte(fmt.Sprintf(panicHtml, title, title, esc(fmt.Sprintf("%T: %#v", err, err)), styleStack(stack)))
}

func styleStack''')]),
('ref','C03','handler func',[(F,'''		defer func() {
			if err := recover(); err != nil {
				stack''','''		defer func() {
			err := recover()
			if err == nil {
				return
			}
			{
				stack''')]),
('ref','C03','written inverted',[(F,'''				if trw.Written() {
					return
				}
''','''				if trw.Status() != 0 {
					return
				}
'''),(F,'config.RunMode.IsDev()','config.RunMode == ModeDev')]),
('ref','C03','stack builder',[(F,'''		lines[i] = line
	}
	stack = strings.Join(lines, "\\n")
	return stack''','''		lines[i] = line
	}
	return strings.Join(lines, "\\n")''')]),
('ref','C03','defer named',[(F,'''		defer func() {
			if err := recover(); err != nil {
				stack''','''		defer func() {
			if err := recover(); err != nil {
				rw := rwOf(ctx)
				stack'''),(F,'''				var rw http.ResponseWriter
				ctx.Find(&rw, "")

''',''),(F,'func styleStack','''func rwOf(ctx Context) (rw http.ResponseWriter) {
	ctx.Find(&rw, "")
	return
}

func styleStack''')]),
]
