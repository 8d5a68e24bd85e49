L='log.go'
def sw(a,b): return [(L,a,b)]
V=[
('bug','C26','level swapped',sw("	l.writef(LevelNotice, format, v...)","	l.writef(LevelInformational, format, v...)")),
('bug','C26','global ignored in write',sw("	if level > l.level || level > GlobalLevel {\n		return\n	}\n\n	v, opt := l.parseValues(v)\n\n	prefix, v := l.getPrefix(v)\n\n	msg := fmt.Sprintln","	if level > l.level {\n		return\n	}\n\n	v, opt := l.parseValues(v)\n\n	prefix, v := l.getPrefix(v)\n\n	msg := fmt.Sprintln")),
('bug','C26','and instead of or',sw("level > l.level || level > GlobalLevel","level > l.level && level > GlobalLevel")),
('bug','C26','ge',sw("level > l.level || level > GlobalLevel","level >= l.level || level > GlobalLevel")),
('bug','C26','tag off',sw("DefaultLevelTag[level-1] + prefix","DefaultLevelTag[level] + prefix")),
('bug','C26','color off',sw("DefaultColors[level-1](out)","DefaultColors[level%8](out)")),
('bug','C26','flat first only',sw('strings.Replace(out, "\\n", "\\\\n", -1)','strings.Replace(out, "\\n", "\\\\n", 1)')),
('bug','C26','flat before stack',[(L,'''	out = out + " " + msg

''','''	if l.flat {
		msg = strings.Replace(strings.TrimSuffix(msg, "\\n"), "\\n", "\\\\n", -1)
	}
	out = out + " " + msg

'''),(L,'''	if l.flat {
		out = strings.TrimSuffix(out, "\\n")
		out = strings.Replace(out, "\\n", "\\\\n", -1)
	}
''','')]),
('bug','C26','prefix lost with parser',sw("		prefix += p\n","		prefix = p\n")),
('bug','C26','parser prefix lost',sw("		var p string\n		p, v = l.prefixParser(v)\n		prefix += p\n","		_, v = l.prefixParser(v)\n")),
('bug','C26','parser values ignored',sw("		p, v = l.prefixParser(v)\n","		p, _ = l.prefixParser(v)\n")),
('bug','C26','options printed',sw("			v = v[:len(v)-1]\n","")),
('bug','C26','last value lost',sw("	v = values\n	if len(v) > 0 {\n","	v = values\n	if len(v) > 0 {\n		if v[len(v)-1] == nil {\n			v = v[:len(v)-1]\n			return\n		}\n")),
('bug','C26','depth not added',sw("			opt.Depth += l.depth\n","")),
('bug','C26','depth default',sw("		depth: 4,","		depth: 3,")),
('bug','C26','extra frame',[(L,"		out += l.native.funcCallMsg(opt.Depth)","		out += l.position(opt.Depth)"),(L,"func (l *baseLogger) getPrefix","func (l *baseLogger) position(depth int) string {\n	return l.native.funcCallMsg(depth)\n}\n\nfunc (l *baseLogger) getPrefix")]),
('bug','C26','hidden shown only',sw("	if l.line && !opt.Hidden {","	if l.line || opt.Depth > l.depth {")),
('bug','C26','recover loses value',sw("		if err = recover(); err != nil {","		if err := recover(); err != nil {")),
('bug','C26','recover no stack',sw("LineOpt{Stack: true, Depth: 4}","LineOpt{Depth: 4}")),
('bug','C26','recover level ignored',sw("l.write(level[0], err","l.write(LevelError, err")),
('bug','C26','recover logs always',sw("		if err = recover(); err != nil {\n			if len","		err = recover()\n		if err != nil || len(level) > 0 {\n			if len")),
('bug','C26','recover warns',sw("				l.Error(err, LineOpt{Stack: true, Depth: 5})","				l.Warn(err, LineOpt{Stack: true, Depth: 5})")),
('bug','C26','req prefix lost',sw("	l.prefix = l.reqPrefix + prefix","	if prefix != \"\" {\n		l.prefix = prefix\n	}")),
('bug','C26','req prefix appended',sw("	l.prefix = l.reqPrefix + prefix","	l.prefix = l.prefix + prefix")),
('bug','C26','native not set',sw("	l.native = l\n	return l","	l.native = &baseLogger{out: out}\n	return l")),
('bug','C26','printed twice for emergency',sw("	l.out.Print(out)","	l.out.Print(out)\n	if level == LevelEmergency {\n		l.out.Print(out)\n	}")),
('bug','C26','format twice',sw("	msg := fmt.Sprintf(format, v...)","	msg := fmt.Sprintf(fmt.Sprintf(format, v...))")),
('bug','C26','format with prefix',sw("	msg := fmt.Sprintf(format, v...)\n	l.native.print(level, prefix, msg, opt)","	msg := fmt.Sprintf(prefix+format, v...)\n	l.native.print(level, \"\", msg, opt)")),
('bug','C26','new level',sw("		level: LevelDebug,","		level: GlobalLevel,")),
('bug','C26','set level clamps',sw("	l.level = level\n","	if level < l.level {\n		l.level = level\n	}\n")),
('ref','C26','enabled helper',[(L,"	if level > l.level || level > GlobalLevel {\n		return\n	}\n\n	v, opt := l.parseValues(v)\n\n	prefix, v := l.getPrefix(v)\n\n	msg := fmt.Sprintln","	if !l.enabled(level) {\n		return\n	}\n\n	v, opt := l.parseValues(v)\n\n	prefix, v := l.getPrefix(v)\n\n	msg := fmt.Sprintln"),(L,"func (l *baseLogger) getPrefix","func (l *baseLogger) enabled(level Level) bool {\n	return level <= l.level && level <= GlobalLevel\n}\n\nfunc (l *baseLogger) getPrefix")]),
('ref','C26','replaceall',sw('strings.Replace(out, "\\n", "\\\\n", -1)','strings.ReplaceAll(out, "\\n", "\\\\n")')),
('ref','C26','direct print',[(L,"	l.native.print(level, prefix, msg, opt)","	l.print(level, prefix, msg, opt)")]),
('ref','C26','flat helper',[(L,'''		out = strings.TrimSuffix(out, "\\n")
		out = strings.Replace(out, "\\n", "\\\\n", -1)
''','''		out = flatten(out)
'''),(L,"func (l *baseLogger) getPrefix","func flatten(s string) string {\n	return strings.Replace(strings.TrimSuffix(s, \"\\n\"), \"\\n\", \"\\\\n\", -1)\n}\n\nfunc (l *baseLogger) getPrefix")]),
('ref','C26','write merged',[(L,"	v, opt := l.parseValues(v)\n\n	prefix, v := l.getPrefix(v)\n\n	msg := fmt.Sprintln(v...)\n	l.native.print(level, prefix, msg, opt)","	values, opt := l.parseValues(v)\n	prefix, values := l.getPrefix(values)\n	l.native.print(level, prefix, fmt.Sprintln(values...), opt)")]),
('ref','C26','recover lvl var',[(L,"""			if len(level) > 0 {
				l.write(level[0], err, LineOpt{Stack: true, Depth: 4})
			} else {
				l.Error(err, LineOpt{Stack: true, Depth: 5})
			}""","""			opt := LineOpt{Stack: true, Depth: 4}
			if len(level) > 0 {
				l.write(level[0], err, opt)
				return
			}
			opt.Depth = 5
			l.Error(err, opt)""")]),
('ref','C26','reqlogger simple',[(L,"	log.reqPrefix = \"[\" + log.reqId + \"]\"\n	log.prefix = log.reqPrefix\n","	log.reqPrefix = \"[\" + reqId + \"]\"\n	log.SetPrefix(\"\")\n")]),
('ref','C26','concat at once',[(L,'	out = out + " " + msg\n','	out += " "\n	out += msg\n')]),
('ref','C26','idx var',[(L,"	out := DefaultLevelTag[level-1] + prefix\n","	idx := int(level) - 1\n	tag := DefaultLevelTag[idx]\n	out := tag + prefix\n"),(L,"DefaultColors[level-1](out)","DefaultColors[idx](out)")]),
]
