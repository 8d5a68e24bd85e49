V = []
def bug(t, *e): V.append(('bug', 'C36', t, list(e)))
def ref(t, *e): V.append(('ref', 'C36', 't36 ' + t, list(e)))
C, R, CF, I, P, IN, PA, U = 'config/config.go', 'router.go', 'config.go', 'inject/inject.go', 'inject/inject_provider.go', 'app_util.go', 'params/params.go', 'utils/rand.go'
X = 'context.go'
bug('a filter without a function is asked for ever', (X, '''		if f == nil {
			c.index += 1
			continue''', '''		if f == nil {
			continue'''))
bug('the chain does not move on', (X, '''		c.index += 1

		if c.Written() {
			return
		}
''', '''		if c.Written() {
			c.index += 1
			return
		}
'''))
bug('the chain moves on and back', (X, '''		c.index += 1

		if c.Written() {
			return
		}
''', '''		c.index += 1

		if c.Written() {
			return
		}
		if len(c.filters) > 5 {
			c.index -= 1
		}
'''))
bug('Next goes back', (X, '''	c.index += 1
	c.run()''', '''	c.index -= 1
	c.run()'''))
EMPTY = '''			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
'''
bug('the end of the file is not noticed', (C, EMPTY, ''), (C, '''		// Reached end of file.
		if err == io.EOF {
			break
		}
''', ''), )
bug('the end of the file is not noticed behind a comment', (C, EMPTY, ''))
bug('the end of an empty file is not noticed', (C, 'if lineLengh == 0 {\n				break', 'if lineLengh == 0 && count > 1 {\n				break'))
bug('errors of reading are passed over', (C, '''			if err != io.EOF {
				return err
			}
''', '''			if err != io.EOF {
				continue
			}
'''))
bug('the parent of a route only when it has a path', (R, '''			path = "/" + rt.pathParam.path + path
		}
		rt = rt.parent
''', '''			path = "/" + rt.pathParam.path + path
			rt = rt.parent
		}
'''))
bug('always the same parent', (R, '		rt = rt.parent\n', '		rt = r.parent\n'))
bug('parents can be set later', (R, '	rt := r\n', '	rt := r\n	if rt.wildRoute != nil {\n		rt.wildRoute.parent = rt\n	}\n'))
bug('cycles of providers', (P, '''		if status.has(prov.name) {
			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
			return
		}
''', ''))
bug('cycles of providers are looked for too late', (P, '''	// on process
	status.set(p.name)
	defer status.unset(p.name)

	if p''', '''	if p'''), (P, '''	// invoke provider function
''', '''	status.set(p.name)
	defer status.unset(p.name)
	// invoke provider function
'''))
bug('cycles of named providers only', (P, '''	status.set(p.name)
	defer status.unset(p.name)
''', '''	if p.value != nil {
		status.set(p.name)
		defer status.unset(p.name)
	}
'''))
bug('a new record for each dependency', (P, 'prov.invoke(inj, status)', 'prov.invoke(inj, make(invokeStatus))'))
bug('providers are no longer in progress', (P, '	defer status.unset(p.name)\n', '	status.unset(p.name)\n'))
bug('no limit for nested structs', (I, '''		if level >= INJECT_MAX_RECURSIVE_LEVEL {
			continue
		}
''', ''))
bug('the level stays', (I, '	level += 1\n', '	level += 0\n'))
bug('the level starts again', (I, 'inj.apply(field.Interface(), status, level)', 'inj.apply(field.Interface(), status, 0)'))
bug('the limit only for structs', (I, 'if level >= INJECT_MAX_RECURSIVE_LEVEL {', 'if level >= INJECT_MAX_RECURSIVE_LEVEL && field.Kind() == reflect.Struct {'))
bug('the group itself again', (R, 'targetRoute.configRoutes(rtArgs)', 'targetRoute.configRoutes(args)'))
bug('the struct itself again', ('config/config_parse.go', 'Decode(config, fVal.Addr().Interface())', 'Decode(config, env)'))
bug('embedded pointers are followed', ('config/config_parse.go', '''		if fVal.Kind() == reflect.Struct && fType.Anonymous {
			Decode(config, fVal.Addr().Interface())
			continue
		}
''', '''		if fType.Anonymous {
			if fVal.Kind() == reflect.Ptr {
				fVal.Set(reflect.New(fType.Type.Elem()))
				fVal = fVal.Elem()
			}
			Decode(config, fVal.Addr().Interface())
			continue
		}
'''))
bug('an alphabet of one', (U, 'len(alphabet) < 2', 'len(alphabet) < 1'))
bug('the number is not divided', (U, 'x, m = x.DivMod(x, y, m)', '_, m = new(big.Int).DivMod(x, y, m)'))
bug('zero goes on', (U, 'for x.Sign() > 0 {', 'for x.Sign() >= 0 {'))
bug('negative numbers', (U, 'for x.Sign() > 0 {', 'for x.Sign() != 0 {'))
bug('a frame whose source is missing', (IN, '''	for i := skip; ; i++ { // Caller we care about is the user, 2 frames up
''', '''	for i := skip; ; { // Caller we care about is the user, 2 frames up
'''), (IN, '''		fmt.Fprintf(buf, "\\t%s: %s\\n", function(pc), source(lines, line))
''', '''		fmt.Fprintf(buf, "\\t%s: %s\\n", function(pc), source(lines, line))
		i++
'''))
bug('the same frame', (IN, 'pc, file, line, ok := runtime.Caller(i)', 'pc, file, line, ok := runtime.Caller(skip)'))
bug('functions before that register functions', ('response.go', 'for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {', 'for i := 0; i < len(rw.beforeFuncs); {'))
bug('the last cookie with another name', ('sessions/utils.go', '''	for i := len(cookies) - 1; i >= 0; i-- {
		if cookies[i].Name == name {''', '''	for i := len(cookies) - 1; i >= 0; {
		if cookies[i].Name != name {
			continue
		}
		i--
		if true {'''))
bug('pointers to pointers', (CF, '				elm = elm.Elem()\n', ''))
bug('the type of a pointer', (IN, '		typ = typ.Elem()\n', '		typ = reflect.PtrTo(typ.Elem())\n'))
bug('the collection goes on at once', ('sessions/manager.go', '''	time.AfterFunc(interval, func() {
		// 时间到，再次执行 GC
		m.GC(interval)
	})
''', '''	time.Sleep(interval)
	m.GC(interval)
'''))
bug('the config asks itself', (C, 'value = c.parent.Find(name)', 'value = c.Find(name)'))
bug('embedded pointers of a type in progress', (PA, ' || typeMap[ftyp.Type.Elem()]', ''))
bug('embedded pointers seen before', (PA, '''				if pointerMap[pointer] {
					continue
				}
''', ''))
bug('embedded pointers are not recorded', (PA, '''					// save pointer
					pointerMap[pointer] = true
''', ''))
bug('types are not recorded', (PA, '	typeMap[typ] = true\n', '	typeMap[typ] = false\n'))
bug('the same fields', (PA, '				inf = field\n', '				inf = elm\n'))
bug('the parts of a token', (U, 'for i := len(token) - 1; i >= 0; i-- {\n		v := bytes.IndexByte(alphabet, token[i])', 'for i := len(token) - 1; i >= 0; i-- {\n		v := bytes.IndexByte(alphabet, token[i])\n		if v < 0 {\n			i++\n		}'))
bug('counting past an equal end', ('params/params.go', 'for i := 0; i < elm.NumField(); i++ {', 'for i := 0; i != elm.NumField(); i += 2 {'))

ref('the chain with the check inside', (X, '''	for c.index <= len(c.filters) {
		f := c.handler()''', '''	for {
		if c.index > len(c.filters) {
			return
		}
		f := c.handler()'''))
ref('the chain with a helper', (X, '''		_, err := c.Invoke(f())
		if err != nil {
			panic(err)
		}
		c.index += 1
''', '''		c.step(f)
'''), (X, 'func (c *context) run() {', '''func (c *context) step(f FilterFunc) {
	_, err := c.Invoke(f())
	if err != nil {
		panic(err)
	}
	c.index++
}

func (c *context) run() {'''))
ref('the chain in one way', (X, '''		if f == nil {
			c.index += 1
			continue
		}

		_, err := c.Invoke(f())
		if err != nil {
			panic(err)
		}
		c.index += 1

		if c.Written() {
			return
		}
''', '''		if f != nil {
			_, err := c.Invoke(f())
			if err != nil {
				panic(err)
			}
		}
		c.index = c.index + 1
		if f != nil && c.Written() {
			break
		}
'''))
ref('the path of a route with for', (R, '''	rt := r
	for rt != nil {
		if rt.pathParam.path != "" {
			path = "/" + rt.pathParam.path + path
		}
		rt = rt.parent
	}
''', '''	for rt := r; rt != nil; rt = rt.parent {
		if rt.pathParam.path == "" {
			continue
		}
		path = "/" + rt.pathParam.path + path
	}
'''))
ref('the path of a route by recursion', (R, '''	var path string
	rt := r
	for rt != nil {
		if rt.pathParam.path != "" {
			path = "/" + rt.pathParam.path + path
		}
		rt = rt.parent
	}
	if path == "" {
		path = "/"
	}
	return path
''', '''	path := r.joinPath()
	if path == "" {
		path = "/"
	}
	return path
}

func (r *route) joinPath() (path string) {
	if r == nil {
		return ""
	}
	path = r.parent.joinPath()
	if r.pathParam.path != "" {
		path += "/" + r.pathParam.path
	}
	return path
'''))
ref('pointers by recursion', (IN, '''	for val.Kind() == reflect.Ptr {
		val = val.Elem()
	}
	return val
''', '''	if val.Kind() != reflect.Ptr {
		return val
	}
	return indirectValue(val.Elem())
'''), (IN, '''	for typ.Kind() == reflect.Ptr {
		typ = typ.Elem()
	}
	return typ
''', '''	for {
		if typ.Kind() != reflect.Ptr {
			return typ
		}
		typ = typ.Elem()
	}
'''))
ref('lines by a helper', (C, '''		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
''', '''		line, err := readLine(buf)
'''), (C, 'type ParseError int', '''func readLine(buf *bufio.Reader) (string, error) {
	line, err := buf.ReadString('\\n')
	return strings.TrimSpace(line), err
}

type ParseError int'''))
ref('the end of the file first', (C, '''		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', '''		if err != nil && err != io.EOF {
			return err
		}
		if err == io.EOF && lineLengh == 0 {
			break
		}
'''))
ref('the end of the file in a flag', (C, '''		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', '''		line, err := buf.ReadString('\\n')
		eof := err == io.EOF
		if err != nil && !eof {
			return err
		}
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
		if eof && line == "" {
			return nil
		}
'''))
ref('the loop ends with the file', (C, '''	for {
		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', '''	for eof := false; !eof; {
		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
		if err != nil {
			if err != io.EOF {
				return err
			}
			eof = true
		}
'''), (C, '''		// Reached end of file.
		if err == io.EOF {
			break
		}
''', ''))
ref('cycles asked of the map itself', (P, 'if status.has(prov.name) {', 'if _, busy := status[prov.name]; busy {'), (P, '	status.set(p.name)\n', '	status[p.name] = false\n'))
ref('dependencies by index', (P, '''	for i, dep := range p.deps {
''', '''	for i := 0; i < len(p.deps); i++ {
		dep := p.deps[i]
'''))
ref('dependencies by a helper', (P, '''		// avoid cycle dependencies
		if status.has(prov.name) {
			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
			return
		}

		// deep invoke
		ot, er := prov.invoke(inj, status)
		if er != nil {
			err = er
			return
		}
''', '''		ot, er := p.resolve(inj, prov, dep, status)
		if er != nil {
			err = er
			return
		}
'''), (P, '// create unique name of type', '''func (p *providerInfo) resolve(inj *injector, prov *providerInfo, dep string, status invokeStatus) ([]reflect.Value, error) {
	// avoid cycle dependencies
	if status.has(prov.name) {
		return nil, fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
	}
	return prov.invoke(inj, status)
}

// create unique name of type'''))
ref('the level at the call', (I, '	level += 1\n\n', ''), (I, 'if level >= INJECT_MAX_RECURSIVE_LEVEL {', 'if level+1 >= INJECT_MAX_RECURSIVE_LEVEL {'), (I, 'inj.apply(field.Interface(), status, level)', 'inj.apply(field.Interface(), status, level+1)'))
ref('the level around the call', (I, '''		if level >= INJECT_MAX_RECURSIVE_LEVEL {
			continue
		}

		if field.CanInterface() {''', '''		if level < INJECT_MAX_RECURSIVE_LEVEL && field.CanInterface() {'''))
ref('a number divided by Quo', (U, '	for x.Sign() > 0 {\n		x, m = x.DivMod(x, y, m)', '	for x.Sign() == 1 {\n		x.QuoRem(x, y, m)'))
ref('a number while there is one', (U, '	for x.Sign() > 0 {\n', '	for {\n		if x.Sign() <= 0 {\n			break\n		}\n'))
ref('bases checked apart', (U, '''	if !ok || len(alphabet) < 2 {
		return ""
	}
	y := big.NewInt(int64(len(alphabet)))
''', '''	if !ok {
		return ""
	}
	base := len(alphabet)
	if base <= 1 {
		return ""
	}
	y := big.NewInt(int64(base))
'''))
ref('a token through ranges', (U, '''	for i := len(token) - 1; i >= 0; i-- {
		v := bytes.IndexByte(alphabet, token[i])''', '''	for i := range token {
		v := bytes.IndexByte(alphabet, token[len(token)-1-i])'''))
ref('a token from its end', (U, '''	for i := len(token) - 1; i >= 0; i-- {
		v := bytes.IndexByte(alphabet, token[i])''', '''	for n := len(token); n > 0; n-- {
		v := bytes.IndexByte(alphabet, token[n-1])'''))
ref('a token that gets shorter', (U, '''	for i := len(token) - 1; i >= 0; i-- {
		v := bytes.IndexByte(alphabet, token[i])''', '''	for len(token) > 0 {
		v := bytes.IndexByte(alphabet, token[len(token)-1])
		token = token[:len(token)-1]'''))
ref('frames counted inside', (IN, '''	for i := skip; ; i++ { // Caller we care about is the user, 2 frames up
		pc, file, line, ok := runtime.Caller(i)
''', '''	for i := skip; ; { // Caller we care about is the user, 2 frames up
		pc, file, line, ok := runtime.Caller(i)
		i++
'''))
ref('the last cookie counted up', ('sessions/utils.go', '''	for i := len(cookies) - 1; i >= 0; i-- {
		if cookies[i].Name == name {
			ok = true
			cookie = cookies[i]
			break
		}
	}
''', '''	i := len(cookies)
	for i > 0 && !ok {
		i--
		if cookies[i].Name == name {
			ok = true
			cookie = cookies[i]
		}
	}
'''))
ref('functions before counted otherwise', ('response.go', '''	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {
		rw.beforeFuncs[i](rw)
	}
''', '''	for i := len(rw.beforeFuncs); i > 0; i-- {
		rw.beforeFuncs[i-1](rw)
	}
'''))
ref('functions before of a copy', ('response.go', '''	for i := len(rw.beforeFuncs) - 1; i >= 0; i-- {
		rw.beforeFuncs[i](rw)
	}
''', '''	fs := rw.beforeFuncs
	for i := len(fs) - 1; i >= 0; i-- {
		fs[i](rw)
	}
'''))
ref('fields counted once', (PA, '	for i := 0; i < elm.NumField(); i++ {\n', '	for i, n := 0, elm.NumField(); i < n; i++ {\n'))
ref('sections and structs', ('config/config_parse.go', '''		if fVal.Kind() == reflect.Struct && fType.Anonymous {
			Decode(config, fVal.Addr().Interface())
			continue
		}
''', '''		isStruct := fVal.Kind() == reflect.Struct
		if isStruct && fType.Anonymous {
			embedded := fVal.Addr().Interface()
			Decode(config, embedded)
			continue
		}
'''))
ref('the parent is asked apart', (C, '''		if value == "" && c.parent != nil {
			value = c.parent.Find(name)
		}
''', '''		if value == "" {
			value = c.inherited(name)
		}
'''), (C, 'func (c *config) setValue(', '''func (c *config) inherited(name string) string {
	if c.parent == nil {
		return ""
	}
	return c.parent.Find(name)
}

func (c *config) setValue('''))

# loops of many shapes, in a file of their own
import os as _os
for _d in ('/verif/selftest', _os.path.join(_os.getcwd(), 'selftest'), _os.getcwd()):
    if _os.path.exists(_os.path.join(_d, 'loops_ok.txt')):
        break
ref('loops that end', ('utils/zz_loops.go', None, open(_os.path.join(_d, 'loops_ok.txt')).read()))
for _p in open(_os.path.join(_d, 'loops_bad.txt')).read().split('@@ ')[1:]:
    _n, _b = _p.split('\n', 1)
    _h = 'package utils\n'
    if 'strings.' in _b:
        _h += 'import "strings"\n'
    bug('loop ' + _n, ('utils/zz_loops.go', None, _h + _b))
