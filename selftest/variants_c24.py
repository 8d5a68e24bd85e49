C = 'config/config.go'; B = 'params/binder.go'; R = 'request-logger/reqid.go'; S = 'sessions/utils.go'; O = 'router_action_out.go'; L = 'log.go'
V = []
def bug(t, *e): V.append(('bug', 'C24', t, list(e)))
def ref(t, *e): V.append(('ref', 'C24', 't24 ' + t, list(e)))
# configuration text
bug('section one char', (C, "case line[0] == '[' && line[lineLengh-1] == ']':", "case line[0] == '[' || line[lineLengh-1] == ']':"))
bug('no empty line', (C, 'case lineLengh == 0: // Empty line', 'case line == "\\n": // Empty line'))
bug('triple quote five', (C, 'if lineLengh >= 6 && line[0:3]', 'if lineLengh >= 2 && line[0:3]'))
bug('right quote', (C, '} else if lineRightLength >= 6 && lineRight[0:3]', '} else if lineRightLength >= 1 && lineRight[0:3]'))
bug('first char', (C, 'if lineRightLength >= 2 {', 'if lineRightLength >= 0 {'))
bug('quote not found', (C, '''				pos := strings.Index(line[qLen:], keyQuote)
				if pos == -1 {''', '''				pos := strings.Index(line[qLen:], keyQuote)
				if pos == 0 {'''))
bug('no separator', (C, '''				i = strings.IndexAny(line, "=:")
				if i <= 0 {''', '''				i = strings.IndexAny(line, "=:")
				if i == 0 {'''))
bug('bom two', (C, 'mask, err := buf.Peek(3)\n	if err == nil && len(mask) >= 3 &&', 'mask, err := buf.Peek(3)\n	if err == nil || len(mask) >= 2 &&'))
bug('right quote from start', (C, 'pos := strings.LastIndex(lineRight[qLen:], valQuote)\n				if pos == -1 {\n					return readError{ERR_COULD_NOT_PARSE, line}\n				}\n				pos = pos + qLen', 'pos := strings.LastIndex(lineRight, valQuote)'))
# binding
bug('slice end', (B, 'subKeyIndex := rightBracket + 1', 'subKeyIndex := rightBracket + 2'))
bug('no bracket', (B, 'if rightBracket > leftBracket+1 {', 'if rightBracket != leftBracket+1 {'))
bug('map bracket', (B, 'if !strings.HasPrefix(paramName, name+"[") ||', 'if !strings.HasPrefix(paramName, name) ||'))
bug('map no values', (B, '''			if len(values) == 0 {
				continue
			}
''', ''))
bug('nextKey', (B, 'if fieldLen == -1 {', 'if fieldLen == 0 {'))
bug('struct prefix', (B, 'if !strings.HasPrefix(key, name+".") {', 'if !strings.HasPrefix(key, name) {'))
# request ids
bug('reqid short', (R, 'if err != nil || len(b) < 12 {', 'if err != nil || len(b) < 8 {'))
bug('reqid error', (R, 'if err != nil || len(b) < 12 {', 'if err != nil && len(b) < 12 {'))
bug('goroutine', (R, '	if i < 0 {\n		panic(fmt.Sprintf("No space found in %q", b))\n	}\n', ''), (R, '	"fmt"\n', ''))
# cookies
bug('secure parts', (S, 'if len(parts) < 3 {', 'if len(parts) < 2 {'))
bug('remember parts', ('sessions/remember.go', 'if len(parts) != 2 {', 'if len(parts) == 0 {'))
# results
bug('results', (O, '			if len(out) == 1 {\n				return\n			}\n\n', ''))
bug('results empty', (O, '		if len(out) == 0 {\n			return\n		}\n', ''))
# others
bug('log opts', (L, 'if len(msg) > 5 && (msg[:5]', 'if len(msg) > 0 && (msg[:5]') if False else (L, '!(len(msg) > 5 && (msg[:5]', '!(len(msg) > 3 && (msg[:5]'))
bug('stack line', ('recovery.go', '''		if len(line) == 0 {
			continue
		}
''', ''))
bug('parts joined', ('recovery.go', 'strings.Split(line, " (")', 'strings.Fields(line)'), ('recovery.go', '			if len(parts) >= 2 {\n', '			if len(parts) != 1 {\n'))
bug('real ip', ('params/real.go', 'if len(ips) > 0 && ips[0] != "" {\n		rip := strings.Split(ips[0], ":")\n		realIp = rip[0]', 'if len(ips) > 0 && ips[0] != "" {\n		rip := strings.Split(ips[0], ":")\n		realIp = rip[1]'))
bug('remote addr', ('request-logger/logger.go', 'idx != -1 {\n		host = host[:idx]', 'idx != 0 {\n		host = host[:idx]'))
bug('tag', ('params/params.go', 'if idx := strings.Index(tag, ","); idx != -1 {', 'if idx := strings.Index(tag, ","); idx != 0 {'))
bug('long body', ('params/params.go', 'if len(body) > 512 {\n			body = body[:512]', 'if len(body) > 255 {\n			body = body[:512]'))
bug('method', ('router_method.go', '	if m == "" {\n		return ""\n	}\n', ''))
bug('split tail', ('router_util.go', 'return splits[1:]', 'return splits[2:]'))
bug('clean', ('router_util.go', 'p = path.Clean("/" + strings.TrimSpace(p))', 'p = path.Clean(strings.TrimSpace(p))'))
bug('match more', ('router.go', '	more := len(paths) > 0', '	more := len(paths) >= 0'))
bug('handler index', ('context.go', 'if c.index < len(c.filters) {', 'if c.index <= len(c.filters) {'))
bug('action args', ('router_action.go', 'if len(params) > i {', 'if len(params) >= i {'))
bug('before', ('response.go', 'for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {', 'for i := len(rw.beforeFuncs); i >= 0; i-- {'))
bug('last file', (L, 'parts[len(parts)-1]', 'parts[len(parts)]'))
# rewritten code
ref('next key cut', (B, '''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	for i := 0; i < len(key); i++ {
		if key[i] == '.' || key[i] == '[' {
			return key[:i]
		}
	}
	return key
'''))
ref('handler flipped', ('context.go', '''	if c.index < len(c.filters) {
		return c.filters[c.index].fun
	}
	if c.index == len(c.filters) {
		return c.action
	}
''', '''	if n := len(c.filters); n > c.index {
		return c.filterAt(c.index)
	} else if n == c.index {
		return c.action
	}
'''), ('context.go', 'func (c *context) run() {', '''func (c *context) filterAt(i int) FilterFunc {
	return c.filters[i].fun
}

func (c *context) run() {'''))
ref('out helper', (O, '''		if out[len(out)-1].Kind() == reflect.Int {
			code := out[len(out)-1].Int()
''', '''		if last := lastOf(out); last.Kind() == reflect.Int {
			code := last.Int()
'''), (O, 'body = out[len(out)-1]', 'body = lastOf(out)'), (O, 'func GenericOutFilter(', '''func lastOf(vals []reflect.Value) reflect.Value {
	return vals[len(vals)-1]
}

func GenericOutFilter('''))
ref('reqid named', (R, 'if err != nil || len(b) < 12 {', 'const size = 4 + 8\n	if err != nil || size > len(b) {'))
ref('bracket helper', (B, '''		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
		if rightBracket > leftBracket+1 {
			var err error
			index, err = strconv.Atoi(key[leftBracket+1 : rightBracket])
			if err != nil || index > MAX_SLICE_INDEX {
				return
			}
		}
''', '''		rest := key[len(name):]
		closing := strings.Index(rest, "]")
		rightBracket := closing + len(name)
		if closing > 1 {
			n, err := strconv.Atoi(rest[1:closing])
			if err != nil || n > MAX_SLICE_INDEX {
				return
			}
			index = n
		}
'''))
ref('stack range', ('recovery.go', '''	for i, line := range lines {
		if len(line) == 0 {
			continue
		}
''', '''	for i := 0; i < len(lines); i++ {
		line := lines[i]
		if line == "" {
			continue
		}
'''))
ref('before range', ('response.go', '''	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {
		rw.beforeFuncs[i](rw)
	}
''', '''	funcs := rw.beforeFuncs
	for n := len(funcs); n > 0; n-- {
		funcs[n-1](rw)
	}
'''))
ref('section cut', (C, 'section = strings.TrimSpace(line[1 : lineLengh-1])', 'section = strings.TrimSpace(strings.TrimSuffix(line[1:], "]"))'))
ref('section inner', (C, 'section = strings.TrimSpace(line[1 : lineLengh-1])', 'section = sectionName(line)'), (C, 'func (c *config) loadFromReader(', '''func sectionName(line string) string {
	inner := line[1:]
	return strings.TrimSpace(inner[:len(inner)-1])
}

func (c *config) loadFromReader('''))
ref('level tag', (L, 'out := DefaultLevelTag[level-1] + prefix', 'out := tagOf(level) + prefix'), (L, 'func (l *baseLogger) print(', '''func tagOf(level Level) string {
	i := int(level) - 1
	return DefaultLevelTag[i]
}

func (l *baseLogger) print('''))
