C = 'config/config.go'
def B(t, old, new, f=C): return ('bug', 'C29', t, [(f, old, new)])
def R(t, *e): return ('ref', 'C29', t, [(C, o, n) for o, n in e])
V = [
B('read error ignored', '''			if err != io.EOF {
				return err
			}
''', '''			if err != io.EOF {
				break
			}
'''),
B('last line dropped', '''			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
''', '''			break
'''),
B('last line ends early', '''		// Reached end of file.
		if err == io.EOF {
			break
		}
''', '''		// Reached end of file.
		if lineLengh == 0 || section != "" && count > 100 {
			break
		}
'''),
B('only # is a comment', "line[0] == '#' || line[0] == ';'", "line[0] == '#' || line[0] == ';' && lineLengh > 1"),
B('header beats comment', "case line[0] == '[' && line[lineLengh-1] == ']'", "case line[0] == '['"),
B('header name raw', "section = strings.TrimSpace(line[1 : lineLengh-1])", "section = line[1 : lineLengh-1]"),
B('header name with bracket', "section = strings.TrimSpace(line[1 : lineLengh-1])", "section = strings.TrimSpace(line[1:])"),
B('blank section', '''			if section == "" {
				return readError{ERR_BLANK_SECTION_NAME, line}
			}
''', ''),
B('section not made', '''			c.setValue(section, "", "")
''', ''),
B('section replaced', '''	if _, ok := c.data[section]; !ok {
		// Execute add operation.
		c.data[section] = make(map[string]string)
	}

	if key == "" {
		return
	}
''', '''	if _, ok := c.data[section]; !ok || key == "" {
		// Execute add operation.
		c.data[section] = make(map[string]string)
	}

	if key == "" {
		return
	}
'''),
B('counter not reset', '''			// Reset counter.
			count = 1
''', ''),
B('counter from zero', 'count := 1 // Counter', 'count := 0 // Counter'),
B('counter not raised', '''				count++
''', ''),
B('counter raised for all', '''				key = "#" + fmt.Sprint(count)
				count++
			}
''', '''				key = "#" + fmt.Sprint(count)
			}
			count++
'''),
B('quote position', "pos = pos + qLen\n				i = strings.IndexAny(line[pos:]", "pos = pos + 1\n				i = strings.IndexAny(line[pos:]"),
B('key from whole line', 'i = strings.IndexAny(line[pos:], "=:")', 'i = strings.IndexAny(line, "=:") - pos'),
B('quoted key trimmed', "key = line[qLen:pos] //", "key = strings.TrimSpace(line[qLen:pos]) //"),
B('key not trimmed', "key = strings.TrimSpace(line[0:i])", "key = line[0:i]"),
B('no colon', '''i = strings.IndexAny(line, "=:")
				if i <= 0 {''', '''i = strings.IndexAny(line, "=")
				if i <= 0 {'''),
B('last separator', '''i = strings.IndexAny(line, "=:")
				if i <= 0 {''', '''i = strings.LastIndexAny(line, "=:")
				if i <= 0 {'''),
B('empty key accepted', '''i = strings.IndexAny(line, "=:")
				if i <= 0 {''', '''i = strings.IndexAny(line, "=:")
				if i < 0 {'''),
B('line without separator skipped', '''				i = strings.IndexAny(line, "=:")
				if i <= 0 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				key =''', '''				i = strings.IndexAny(line, "=:")
				if i <= 0 {
					continue
				}
				key ='''),
B('unclosed key quote', '''				if pos == -1 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}

				pos = pos + qLen
				i =''', '''				if pos == -1 {
					pos = 0
				}

				pos = pos + qLen
				i ='''),
B('unclosed value quote', '''				if pos == -1 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				pos = pos + qLen
				value =''', '''				if pos == -1 {
					pos = len(lineRight) - qLen
				}
				pos = pos + qLen
				value ='''),
B('first closing quote', "strings.LastIndex(lineRight[qLen:], valQuote)", "strings.Index(lineRight[qLen:], valQuote)"),
B('quoted value trimmed', "value = lineRight[qLen:pos]", "value = strings.TrimSpace(lineRight[qLen:pos])"),
B('value with separator', "lineRight := strings.TrimSpace(line[i+1:])", "lineRight := strings.TrimSpace(line[i:])"),
B('value up to comment', "value = strings.TrimSpace(lineRight[0:])", 'value = strings.TrimSpace(strings.SplitN(lineRight, "#", 2)[0])'),
B('double quotes as one', '''lineRight[0:3] == `"""` {
				valQuote = `"""`''', '''lineRight[0:3] == `"""` {
				valQuote = `"`'''),
B('plain double quote value', '''if firstChar == "`" {
				valQuote = "`"''', '''if firstChar == "`" || firstChar == "\\"" {
				valQuote = firstChar'''),
B('stored in the default section', "c.setValue(section, key, value)\n", 'c.setValue("", key, value)\n'),
B('empty values dropped', "			c.setValue(section, key, value)\n", '			if value != "" {\n				c.setValue(section, key, value)\n			}\n'),
B('first value wins', "	c.data[section][key] = value\n", '	if _, ok := c.data[section][key]; !ok {\n		c.data[section][key] = value\n	}\n'),
B('keys lower case', "	c.data[section][key] = value\n", '	c.data[section][strings.ToLower(key)] = value\n'),
B('default name', 'if section == "" {\n		section = defaultSectionName\n	}\n\n	// Check', 'if section == "" {\n		section = "main"\n	}\n\n	// Check'),
B('file not closed', "	defer f.Close()\n", ''),
B('file closed first', "	defer f.Close()\n", '	f.Close()\n'),
B('open error lost', '''	f, err := os.Open(fileName)
	if err != nil {
		return err
	}''', '''	f, err := os.Open(fileName)
	if err != nil {
		return nil
	}'''),
B('reader only without file', "if c.FileReader != nil {", 'if c.FileReader != nil && c.FileName == "" {'),
B('reader error lost', '''		err := c.loadFromReader(c.FileReader)
		if err != nil {
			return nil, err
		}
''', '''		c.loadFromReader(c.FileReader)
'''),
B('mark partly compared', "mask[0] == 239 && mask[1] == 187 && mask[2] == 191", "mask[0] == 239 && mask[1] == 187"),
B('mark kept', "buf.Read(mask)", "buf.Peek(3)"),
B('reader by line', '''		line, err := buf.ReadString('\\n')''', '''		if count > 1000 {
			buf = bufio.NewReader(r)
		}
		line, err := buf.ReadString('\\n')'''),
B('carriage return lines', "buf.ReadString('\\n')", "buf.ReadString('\\r')"),
B('long lines cut', "		line = strings.TrimSpace(line)\n", "		line = strings.TrimSpace(line)\n		if len(line) > 4096 {\n			line = line[:4096]\n		}\n"),
B('continuation', "		lineLengh := len(line) //[SWH|+]\n", "		for err == nil && strings.HasSuffix(line, \"\\\\\") {\n			var more string\n			more, err = buf.ReadString('\\n')\n			line = line[:len(line)-1] + strings.TrimSpace(more)\n		}\n		lineLengh := len(line) //[SWH|+]\n"),
R('helper for the key', ('''			if line[0] == '"' {
				if lineLengh >= 6 && line[0:3] == `"""` {
					keyQuote = `"""`
				} else {
					keyQuote = `"`
				}
			} else if line[0] == '`' {
				keyQuote = "`"
			}
''', '''			keyQuote = quoteOfKey(line)
'''), ('type ParseError int', '''func quoteOfKey(line string) string {
	switch {
	case strings.HasPrefix(line, `"`):
		if len(line) >= 6 && strings.HasPrefix(line, `"""`) {
			return `"""`
		}
		return `"`
	case strings.HasPrefix(line, "`"):
		return "`"
	}
	return ""
}

type ParseError int''')),
R('helper for the value', ('''			firstChar := ""
			if lineRightLength >= 2 {
				firstChar = lineRight[0:1]
			}

			if firstChar == "`" {
				valQuote = "`"
			} else if lineRightLength >= 6 && lineRight[0:3] == `"""` {
				valQuote = `"""`
			}

			if valQuote != "" {
				qLen := len(valQuote)
				pos := strings.LastIndex(lineRight[qLen:], valQuote)
				if pos == -1 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				pos = pos + qLen
				value = lineRight[qLen:pos]
			} else {
				value = strings.TrimSpace(lineRight[0:])
			}
''', '''			_, _ = valQuote, lineRightLength
			var ok bool
			if value, ok = unquoteValue(lineRight); !ok {
				return readError{ERR_COULD_NOT_PARSE, line}
			}
'''), ('type ParseError int', '''func unquoteValue(s string) (string, bool) {
	quote := ""
	if len(s) >= 2 && s[0] == '`' {
		quote = "`"
	} else if len(s) >= 6 && strings.HasPrefix(s, `"""`) {
		quote = `"""`
	}
	if quote == "" {
		return s, true
	}
	rest := s[len(quote):]
	end := strings.LastIndex(rest, quote)
	if end < 0 {
		return "", false
	}
	return rest[:end], true
}

type ParseError int''')),
R('if chain', ('''		switch {
		case lineLengh == 0: // Empty line
			continue

		case line[0] == '#' || line[0] == ';': // Comment
			continue

		case''', '''		if lineLengh == 0 || strings.HasPrefix(line, "#") || strings.HasPrefix(line, ";") {
			continue
		}
		switch {
		case''')),
R('header by prefix', ("case line[0] == '[' && line[lineLengh-1] == ']'", 'case strings.HasPrefix(line, "[") && strings.HasSuffix(line, "]")')),
R('header by trimming', ("section = strings.TrimSpace(line[1 : lineLengh-1])", 'section = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(line, "["), "]"))')),
R('errors is', ('if err != io.EOF {\n				return err', 'if !(err == io.EOF) {\n				return err')),
R('itoa', ('key = "#" + fmt.Sprint(count)', 'key = fmt.Sprintf("#%d", count)')),
R('count before', ('''				key = "#" + fmt.Sprint(count)
				count++
''', '''				count++
				key = "#" + fmt.Sprint(count)
'''), ('count := 1 // Counter', 'count := 0 // Counter'), ('			// Reset counter.\n			count = 1\n', '			count = 0\n')),
R('section var default', ('	section := ""\n', '	section := defaultSectionName\n')),
R('set value inline', ('			c.setValue(section, "", "")\n', '			if c.data[section] == nil {\n				c.data[section] = map[string]string{}\n			}\n')),
R('set value by local', ('''	if _, ok := c.data[section]; !ok {
		// Execute add operation.
		c.data[section] = make(map[string]string)
	}

	if key == "" {
		return
	}

	c.data[section][key] = value
''', '''	values, ok := c.data[section]
	if !ok {
		values = map[string]string{}
		c.data[section] = values
	}
	if key != "" {
		values[key] = value
	}
''')),
R('line parser type', ('''	count := 1 // Counter for auto increment.

	// Current section name.
	section := ""
''', '''	state := struct {
		count   int
		section string
	}{count: 1}
'''), ('			section = strings.TrimSpace(line[1 : lineLengh-1])', '			state.section = strings.TrimSpace(line[1 : lineLengh-1])'),
 ('			if section == "" {\n				return readError{ERR_BLANK', '			if state.section == "" {\n				return readError{ERR_BLANK'),
 ('			c.setValue(section, "", "")\n', '			c.setValue(state.section, "", "")\n'),
 ('			count = 1\n', '			state.count = 1\n'),
 ('fmt.Sprint(count)\n				count++\n', 'fmt.Sprint(state.count)\n				state.count++\n'),
 ('			c.setValue(section, key, value)\n', '			c.setValue(state.section, key, value)\n')),
R('close by closure', ("	defer f.Close()\n	return c.loadFromReader(f)", "	defer func() { f.Close() }()\n	return c.loadFromReader(f)")),
R('close after', ("	defer f.Close()\n	return c.loadFromReader(f)", "	err = c.loadFromReader(f)\n	f.Close()\n	return err")),
R('mark by bytes', ('mask[0] == 239 && mask[1] == 187 && mask[2] == 191', 'string(mask) == "\\xEF\\xBB\\xBF"')),
R('mark discarded', ('buf.Read(mask)', 'buf.Discard(3)')),
R('read line helper', ('''		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
''', '''		line, err := readLine(buf)
'''), ('type ParseError int', '''func readLine(buf *bufio.Reader) (string, error) {
	line, err := buf.ReadString('\\n')
	return strings.TrimSpace(line), err
}

type ParseError int''')),
R('done flag', ('''	for {
		line, err := buf''', '''	for done := false; !done; {
		line, err := buf'''), ('''			if lineLengh == 0 {
				break
			}
''', '''			done = true
'''), ('''		// Reached end of file.
		if err == io.EOF {
			break
		}
''', '')),
R('parse line method', ('''			c.setValue(section, key, value)
''', '''			put := c.setValue
			put(section, key, value)
''')),
R('separator helper', ('''				i = strings.IndexAny(line, "=:")
				if i <= 0 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				key =''', '''				if i = separator(line); i < 1 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				key ='''), ('type ParseError int', '''func separator(s string) int { return strings.IndexAny(s, "=:") }

type ParseError int''')),
R('rest after the quote', ('''				pos = pos + qLen
				i = strings.IndexAny(line[pos:], "=:")
				if i <= 0 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}

				i = i + pos
				key = line[qLen:pos] //''', '''				key = line[qLen:][:pos]
				end := qLen + pos + qLen
				i = strings.IndexAny(line[end:], "=:")
				if i < 0 {
					return readError{ERR_COULD_NOT_PARSE, line}
				}
				i += end
				//''')),
]
V += [
R('loop by error', ('''	for {
		line, err := buf.ReadString('\\n')
''', '''	err = nil
	for err == nil {
		var line string
		line, err = buf.ReadString('\\n')
'''), ('''		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', ''), ('''		// Reached end of file.
		if err == io.EOF {
			break
		}
	}
	return nil
''', '''	}
	if err != io.EOF {
		return err
	}
	return nil
''')),
R('parser type', ('''	count := 1 // Counter for auto increment.

	// Current section name.
	section := ""

	// Parse line-by-line
	for {
		line, err := buf.ReadString('\\n')
''', '''	p := &iniParser{c: c, count: 1}
	for {
		line, err := buf.ReadString('\\n')
		if err != nil && err != io.EOF {
			return err
		}
		if perr := p.parse(strings.TrimSpace(line)); perr != nil {
			return perr
		}
		if err == io.EOF {
			return nil
		}
	}
}

type iniParser struct {
	c       *config
	section string
	count   int
}

func (p *iniParser) parse(line string) error {
	{
		var err error
'''), ('''		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', ''), ('''			continue

		case line[0] == '#' ''', '''			return nil

		case line[0] == '#' '''), ('''			continue

		case line[0] == '[' ''', '''			return nil

		case line[0] == '[' '''), ('			section = strings.TrimSpace(line[1 : lineLengh-1])', '			p.section = strings.TrimSpace(line[1 : lineLengh-1])'),
 ('			if section == "" {\n				return readError{ERR_BLANK', '			if p.section == "" {\n				return readError{ERR_BLANK'),
 ('			c.setValue(section, "", "")\n', '			p.c.setValue(p.section, "", "")\n'),
 ('			count = 1\n			continue\n', '			p.count = 1\n			return nil\n'),
 ('fmt.Sprint(count)\n				count++\n', 'fmt.Sprint(p.count)\n				p.count++\n'),
 ('			c.setValue(section, key, value)\n', '			p.c.setValue(p.section, key, value)\n'), ('''		// Reached end of file.
		if err == io.EOF {
			break
		}
''', '		_ = err\n')),
B('loop by error without report', '''	for {
		line, err := buf.ReadString('\\n')
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
		if err != nil {
			if err != io.EOF {
				return err
			}

			// Reached end of file, if nothing to read then break,
			// otherwise handle the last line.
			if lineLengh == 0 {
				break
			}
		}
''', '''	err = nil
	for err == nil {
		var line string
		line, err = buf.ReadString('\\n')
		line = strings.TrimSpace(line)
		lineLengh := len(line) //[SWH|+]
'''),
]
