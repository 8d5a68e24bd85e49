B = 'params/binder.go'
P = 'params/params.go'
V = []
def bug(t, f, *e): V.append(('bug', 'C35', t, [(f, a, b) for a, b in e]))
def ref(t, f, *e): V.append(('ref', 'C35', 't35 ' + t, [(f, a, b) for a, b in e]))

# -- where the values come from
bug('the form comes before the query', P, ('''	for k, v := range p.Query {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Route.Values {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
''', '''	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Route.Values {
		values[k] = append(values[k], v...)
	}
'''))
bug('the form replaces', P, ('''	for k, v := range p.Form {
		values[k] = append(values[k], v...)''', '''	for k, v := range p.Form {
		values[k] = v'''))
bug('only the first value of the route', P, ('''	for k, v := range p.Route.Values {
		values[k] = append(values[k], v...)''', '''	for k, v := range p.Route.Values {
		values[k] = append(values[k], v[0])'''))
bug('the query when there is more of it', P, ('''	case len(p.Query):
		return p.Query
	case len(p.Route.Values):''', '''	case len(p.Query), len(p.Query) + 1:
		return p.Query
	case len(p.Route.Values):'''))
bug('the route is not counted', P, ('numParams := len(p.Query) + len(p.Route.Values) + len(p.Form)', 'numParams := len(p.Query) + len(p.Form)'))
bug('the form of the request, not the posted one', P, ('params.Form = req.PostForm', 'params.Form = req.Form'))
bug('the media type as it is spelled', P, ('strings.ToLower(strings.TrimSpace(strings.Split(contentType, ";")[0]))', 'strings.TrimSpace(strings.Split(contentType, ";")[0])'))
bug('the media type with its parameters', P, ('strings.ToLower(strings.TrimSpace(strings.Split(contentType, ";")[0]))', 'strings.ToLower(strings.TrimSpace(contentType))'))
bug('the values before the body is read', P, ('''	defer func() {
		params.Values = params.calcValues()
	}()
''', '''	params.Values = params.calcValues()
'''))
bug('the values only without an error', P, ('''	defer func() {
		params.Values = params.calcValues()
	}()
''', ''), ('''			params.Files = req.MultipartForm.File
		}
	}

	return nil''', '''			params.Files = req.MultipartForm.File
		}
	}

	params.Values = params.calcValues()
	return nil'''))
bug('files are lost', P, ('''			params.Files = req.MultipartForm.File
''', ''))
bug('the route after the values', P, ('''		if routeInfo != nil {
			params.Route = *routeInfo
		}

''', ''), ('''			log.Notice("parse params error", err)
		}
''', '''			log.Notice("parse params error", err)
		}
		if routeInfo != nil {
			params.Route = *routeInfo
		}
'''))
bug('one set of parameters for all requests', P, ('''	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
		params := new(Params)
''', '''	params := new(Params)
	return func(req *http.Request, ctx strip.Context, log strip.Logger, config *strip.Config) *Params {
'''))
bug('no parameters when the body is malformed', P, ('''			log.Notice("parse params error", err)
''', '''			log.Notice("parse params error", err)
			return new(Params)
'''))

# -- the body
bug('numbers as they are written never', P, ('if len(userNumber) > 0 && userNumber[0] {', 'if len(userNumber) > 1 && userNumber[0] {'))
bug('the error of the decoder is lost', P, ('''		err = fmt.Errorf("decode body err: %v, %v", err, string(body[:len(body)]))
''', '''		_ = fmt.Errorf("decode body err: %v, %v", err, string(body[:len(body)]))
		err = nil
'''))
bug('a small body is passed over', P, ('if len(body) == 0 {', 'if len(body) < 2 {'))
bug('a large body is cut before it is read', P, ('''	dec := json.NewDecoder(bytes.NewReader(body))
''', '''	dec := json.NewDecoder(bytes.NewReader(body[:len(body)-1]))
'''))
ref('body: the reader of strings', P, ('json.NewDecoder(bytes.NewReader(body))', 'json.NewDecoder(bytes.NewBuffer(body))'))
ref('body: early exits', P, ('''	if err != nil {
		return
	}

	if len(body) == 0 {
		return
	}

	dec :=''', '''	if err != nil || len(body) == 0 {
		return err
	}

	dec :='''))
ref('body: a flag', P, ('''	if len(userNumber) > 0 && userNumber[0] {
		dec.UseNumber()
	}''', '''	exact := false
	if len(userNumber) > 0 {
		exact = userNumber[0]
	}
	if exact {
		dec.UseNumber()
	}'''))

# -- binders
bug('kinds before types', B, ('''	binder, ok := TypeBinders[typ]
	if !ok {
		binder, ok = KindBinders[typ.Kind()]
''', '''	binder, ok := KindBinders[typ.Kind()]
	if !ok {
		binder, ok = TypeBinders[typ]
'''))
bug('the type of a pointer', B, ('TypeBinders[typ]\n', 'TypeBinders[reflect.PtrTo(typ)]\n'))
bug('time as a struct', B, ('''	TypeBinders[reflect.TypeOf(time.Time{})] = TimeBinder
''', ''))
bug('no conversion', B, ('''		if val.Type().ConvertibleTo(typ) {
			val = val.Convert(typ)
		}
		return val
''', '''		return val
'''))
bug('a value under another name', B, ('Values: map[string][]string{"": {val}}}, "", typ)', 'Values: map[string][]string{"": {val}}}, "value", typ)'))
bug('a file among the values', B, ('Bind(&Params{Files: map[string][]*multipart.FileHeader{"": {fileHeader}}}, "", typ)', 'Bind(&Params{Files: map[string][]*multipart.FileHeader{fileHeader.Filename: {fileHeader}}}, "", typ)'))
ref('a switch for the binder', B, ('''	binder, ok := TypeBinders[typ]
	if !ok {
		binder, ok = KindBinders[typ.Kind()]
		if !ok {
			// WARN.Println("no binder for type:", typ)
			return Binder{}, false
		}
	}
	return binder, true
''', '''	if binder, ok := TypeBinders[typ]; ok {
		return binder, true
	}
	binder, ok := KindBinders[typ.Kind()]
	return binder, ok
'''))
ref('early exit in Bind', B, ('''	if binder, found := binderForType(typ); found {
		val := binder.Bind(params, name, typ)
		if val.Type().ConvertibleTo(typ) {
			val = val.Convert(typ)
		}
		return val
	}
	return reflect.Zero(typ)
''', '''	binder, found := binderForType(typ)
	if !found {
		return reflect.Zero(typ)
	}
	val := binder.Bind(params, name, typ)
	if !val.Type().ConvertibleTo(typ) {
		return val
	}
	return val.Convert(typ)
'''))
ref('a named value', B, ('''	return Bind(&Params{Values: map[string][]string{"": {val}}}, "", typ)
''', '''	const name = "value"
	p := new(Params)
	p.Values = url.Values{}
	p.Values[name] = []string{val}
	return Bind(p, name, typ)
'''))
ref('kinds in a loop', B, ('''	KindBinders[reflect.Int] = IntBinder
	KindBinders[reflect.Int8] = IntBinder
	KindBinders[reflect.Int16] = IntBinder
	KindBinders[reflect.Int32] = IntBinder
	KindBinders[reflect.Int64] = IntBinder
''', '''	for _, kind := range []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64} {
		KindBinders[kind] = IntBinder
	}
'''))

# -- Bind of a variable
bug('the variable of another name', P, ('value.Set(Bind(p, name, value.Type()))', 'value.Set(Bind(p, strings.ToLower(name), value.Type()))'))
bug('the parameters of the form', P, ('value.Set(Bind(p, name, value.Type()))', 'value.Set(Bind(&Params{Values: p.Form}, name, value.Type()))'))
ref('a variable for the bound value', P, ('value.Set(Bind(p, name, value.Type()))', '''typ := value.Type()
	bound := Bind(p, name, typ)
	value.Set(bound)'''))

# -- slices
bug('an index off by one', B, ('strconv.Atoi(key[leftBracket+1 : rightBracket])', 'strconv.Atoi(key[leftBracket+2 : rightBracket])'))
bug('the last index', B, ('strings.Index(key[len(name):], "]")+len(name)', 'strings.LastIndex(key[len(name):], "]")+len(name)'))
bug('the key of the next element', B, ('subKeyIndex := rightBracket + 1', 'subKeyIndex := rightBracket'))
bug('the type of the slice', B, ('value: Bind(params, key[:subKeyIndex], typ.Elem()),', 'value: Bind(params, key[:subKeyIndex], typ),'))
bug('any index', B, ('if err != nil || index > MAX_SLICE_INDEX {', 'if err != nil {'))
bug('a larger limit', B, ('const MAX_SLICE_INDEX = 1<<16 - 1', 'const MAX_SLICE_INDEX = 1<<40 - 1'))
bug('the last index is the largest', B, ('''			if index > maxIndex {
				maxIndex = index
			}
''', '''			maxIndex = index
'''))
bug('only the first value without an index', B, ('''		for _, val := range vals {
			// Unindexed''', '''		for _, val := range vals[:len(vals)/2] {
			// Unindexed'''))
bug('values without an index are not counted', B, ('''		numNoIndex += len(vals) + len(files)
''', '''		numNoIndex += len(files) - len(vals)
'''))
bug('files are passed over', B, ('''	for key, fileHeaders := range params.Files {
		processElement(normalizeKey(key), nil, fileHeaders)
	}
''', ''))
bug('the plain name is passed over', B, ('''		if v := strings.TrimPrefix(key, name); v == "" {''', '''		if v := strings.TrimPrefix(key, name); v == "[" {'''))
bug('other names are taken', B, ('''		if v := strings.TrimPrefix(key, name); v == "" {''', '''		if v := strings.TrimPrefix(key, name); v == "" || v == "[]" {'''))
bug('names that only start alike', B, ('''		if !strings.HasPrefix(key, name+"[") {
			return
		}
''', '''		if !strings.HasPrefix(key, name) {
			return
		}
'''))
bug('room for fewer', B, ('reflect.MakeSlice(typ, maxIndex+1, maxIndex+1+numNoIndex)', 'reflect.MakeSlice(typ, maxIndex, maxIndex+1+numNoIndex)'))
bug('an empty element at the end', B, ('reflect.MakeSlice(typ, maxIndex+1, maxIndex+1+numNoIndex)', 'reflect.MakeSlice(typ, maxIndex+2, maxIndex+2+numNoIndex)'))
bug('the first element is appended', B, ('if sv.index != -1 {', 'if sv.index > 0 {'))
bug('the next place', B, ('resultArray.Index(sv.index).Set(sv.value)', 'resultArray.Index(sv.index % len(sliceValues)).Set(sv.value)'))
bug('the appended value is lost', B, ('resultArray = reflect.Append(resultArray, sv.value)', '_ = reflect.Append(resultArray, sv.value)'))
ref('append without a flag', B, ('''		if sv.index != -1 {
			resultArray.Index(sv.index).Set(sv.value)
		} else {
			resultArray = reflect.Append(resultArray, sv.value)
		}
''', '''		if sv.index < 0 {
			resultArray = reflect.Append(resultArray, sv.value)
			continue
		}
		resultArray.Index(sv.index).Set(sv.value)
'''))
ref('the plain name compared', B, ('''		if v := strings.TrimPrefix(key, name); v == "" {
			key += "[]"
		}
		return key
''', '''		if key == name {
			return name + "[]"
		}
		return key
'''))
ref('the largest with max', B, ('''			if index > maxIndex {
				maxIndex = index
			}
''', '''			maxIndex = largest(maxIndex, index)
'''), ('''// Break on dots and brackets.
''', '''func largest(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Break on dots and brackets.
'''))
ref('the key cut first', B, ('''		leftBracket, rightBracket := len(name), strings.Index(key[len(name):], "]")+len(name)
''', '''		leftBracket := len(name)
		rest := key[leftBracket:]
		rightBracket := leftBracket + strings.IndexByte(rest, ']')
'''))
ref('room without a capacity', B, ('reflect.MakeSlice(typ, maxIndex+1, maxIndex+1+numNoIndex)', 'reflect.MakeSlice(typ, maxIndex+1, maxIndex+1)'))
ref('one flat loop', B, ('''		for _, val := range vals {
			// Unindexed values can only be direct-bound.
			sliceValues = append(sliceValues, sliceValue{
				index: -1,
				value: BindValue(val, typ.Elem()),
			})
		}
''', '''		elem := typ.Elem()
		for i := range vals {
			sv := sliceValue{index: -1}
			sv.value = BindValue(vals[i], elem)
			sliceValues = append(sliceValues, sv)
		}
'''))
ref('the files first', B, ('''	for key, vals := range params.Values {
		processElement(normalizeKey(key), vals, nil)
	}
	for key, fileHeaders := range params.Files {
		processElement(normalizeKey(key), nil, fileHeaders)
	}
''', '''	for key, fileHeaders := range params.Files {
		processElement(normalizeKey(key), nil, fileHeaders)
	}
	for key, vals := range params.Values {
		processElement(normalizeKey(key), vals, nil)
	}
'''))
ref('the branches swapped', B, ('''		if index > -1 {
			if index > maxIndex {
				maxIndex = index
			}
			sliceValues = append(sliceValues, sliceValue{
				index: index,
				value: Bind(params, key[:subKeyIndex], typ.Elem()),
			})
			return
		}
''', '''		if index >= 0 {
			if maxIndex < index {
				maxIndex = index
			}
			elem := Bind(params, key[:subKeyIndex], typ.Elem())
			sliceValues = append(sliceValues, sliceValue{index, elem})
			return
		}
'''))

# -- structs
bug('a field up to the dot only', B, ('strings.IndexAny(key, ".[")', 'strings.IndexAny(key, ".")'))
bug('a field of the longest name', B, ('strings.IndexAny(key, ".[")', 'strings.LastIndexAny(key, ".[")'))
bug('the field keeps its dot', B, ('suffix := key[len(name)+1:]', 'suffix := key[len(name):]'))
bug('the name of the field only', B, ('Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())', 'Bind(params, key[len(name)+1:len(name)+1+fieldLen], fieldValue.Type())'))
bug('the whole key', B, ('Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())', 'Bind(params, key[:fieldLen*0+len(key)], fieldValue.Type())'))
bug('the wrong type', B, ('Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())', 'Bind(params, key[:len(name)+1+fieldLen], typ.Field(0).Type)'))
bug('the bound value is not stored', B, ('''			fieldValue.Set(boundVal)
''', ''))
bug('every field counts as bound', B, ('fieldValues[fieldName] = boundVal', 'fieldValues[name] = boundVal'), ('if _, ok := fieldValues[fieldName]; !ok {', 'if _, ok := fieldValues[name]; !ok {'))
bug('the first unknown field ends it', B, ('''			if !fieldValue.IsValid() {
				continue
			}
''', '''			if !fieldValue.IsValid() {
				break
			}
'''))
ref('next key with two looks', B, ('''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	for i := 0; i < len(key); i++ {
		if key[i] == '.' || key[i] == '[' {
			return key[:i]
		}
	}
	return key
'''))
ref('the prefix once', B, ('''	fieldValues := make(map[string]reflect.Value)
	for key, _ := range params.Values {
		if !strings.HasPrefix(key, name+".") {
			continue
		}

		// Get the name of the struct property.
		// Strip off the prefix. e.g. foo.bar.baz => bar.baz
		suffix := key[len(name)+1:]
		fieldName := nextKey(suffix)
		fieldLen := len(fieldName)
''', '''	fieldValues := make(map[string]reflect.Value)
	prefix := name + "."
	for key := range params.Values {
		if !strings.HasPrefix(key, prefix) {
			continue
		}

		// Get the name of the struct property.
		// Strip off the prefix. e.g. foo.bar.baz => bar.baz
		fieldName := nextKey(strings.TrimPrefix(key, prefix))
		fieldLen := len(fieldName)
'''))
ref('the name put together', B, ('		fieldLen := len(fieldName)\n', ''), ('Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())', 'Bind(params, name+"."+fieldName, fieldValue.Type())'))
ref('a set of the bound', B, ('fieldValues := make(map[string]reflect.Value)', 'bound := make(map[string]bool)'), ('if _, ok := fieldValues[fieldName]; !ok {', 'if !bound[fieldName] {'), ('fieldValues[fieldName] = boundVal', 'bound[fieldName] = true'), ('fieldLen := len(fieldName)\n', 'fieldLen := len(fieldName)\n'))
ref('bound every time', B, ('''		if _, ok := fieldValues[fieldName]; !ok {
			// Time''', '''		{
			// Time'''))
ref('skip what is bound', B, ('''		if _, ok := fieldValues[fieldName]; !ok {
			// Time to bind this field.  Get it and make sure we can set it.
			fieldValue := fieldByName(result, fieldName)
			if !fieldValue.IsValid() {
				continue
			}
			if !fieldValue.CanSet() {
				continue
			}
			boundVal := Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())
			fieldValue.Set(boundVal)
			fieldValues[fieldName] = boundVal
		}
''', '''		if _, done := fieldValues[fieldName]; done {
			continue
		}
		if fieldValue := fieldByName(result, fieldName); fieldValue.IsValid() && fieldValue.CanSet() {
			boundVal := Bind(params, key[:len(name)+1+fieldLen], fieldValue.Type())
			fieldValue.Set(boundVal)
			fieldValues[fieldName] = boundVal
		}
'''))

# -- maps
bug('key and value swapped', B, ('result.SetMapIndex(BindValue(key, keyType), BindValue(values[0], valueType))', 'result.SetMapIndex(BindValue(values[0], keyType), BindValue(key, valueType))'))
bug('the key keeps its bracket', B, ('key := paramName[len(name)+1 : len(paramName)-1]', 'key := paramName[len(name) : len(paramName)-1]'))
bug('the type of the key', B, ('result.SetMapIndex(BindValue(key, keyType), BindValue(values[0], valueType))', 'result.SetMapIndex(BindValue(key, valueType), BindValue(values[0], valueType))'))
bug('numbers as floats', B, ('''		dec.UseNumber()
		_ = dec.Decode(&raw)''', '''		_ = dec.Decode(&raw)'''))
bug('any end', B, (''' || paramName[len(paramName)-1] != ']' {''', ''' {'''))
bug('the last value', B, ('BindValue(values[0], valueType))\n		}\n	}\n	return', 'BindValue(values[len(values)-1], valueType))\n		}\n	}\n	return'))
bug('text is not read', B, ('''if v := params.Values.Get(name); v != "" {''', '''if v := params.Values.Get(name); v == "{}" {'''))
ref('a suffix', B, ('''paramName[len(paramName)-1] != ']' {''', '''!strings.HasSuffix(paramName, "]") {'''))
ref('the key trimmed', B, ('''key := paramName[len(name)+1 : len(paramName)-1]''', '''key := strings.TrimSuffix(paramName[len(name)+1:], "]")'''))
ref('early exit for text', B, ('''	} else {
		for paramName, values := range params.Values {
			if !strings.HasPrefix(paramName, name+"[") || paramName[len(paramName)-1] != ']' {
				continue
			}
			// a name may come without any value
			if len(values) == 0 {
				continue
			}

			key := paramName[len(name)+1 : len(paramName)-1]
			result.SetMapIndex(BindValue(key, keyType), BindValue(values[0], valueType))
		}
	}
	return result
''', '''		return result
	}
	for paramName, values := range params.Values {
		if len(values) > 0 && strings.HasPrefix(paramName, name+"[") && paramName[len(paramName)-1] == ']' {
			key := paramName[len(name)+1 : len(paramName)-1]
			k, v := BindValue(key, keyType), BindValue(values[0], valueType)
			result.SetMapIndex(k, v)
		}
	}
	return result
'''))

# -- pointers
bug('a pointer to the zero value', B, ('''			vals, ok := params.Values[name]
			if !ok || len(vals) == 0 {
				return reflect.Zero(typ)
			}

			v := Bind''', '''			v := Bind'''))
bug('a pointer to nothing', B, ('''			p.Set(v)
			return p.Addr()''', '''			return p.Addr()'''))
ref('a pointer with New', B, ('''			p := reflect.New(v.Type()).Elem()
			p.Set(v)
			return p.Addr()''', '''			p := reflect.New(v.Type())
			p.Elem().Set(v)
			return p'''))
ref('a pointer only for values', B, ('''			vals, ok := params.Values[name]
			if !ok || len(vals) == 0 {
				return reflect.Zero(typ)
			}

			v := Bind''', '''			if len(params.Values[name]) == 0 {
				return reflect.Zero(typ)
			}

			v := Bind'''))

# -- BindValuesToStruct
bug('options are part of the name', P, ('name = tag[:idx]', 'name = tag[:idx+1]'))
bug('the tag is not looked at', P, ('''		if tag == "-" {
			continue
		}

		name := tag
		if idx := strings.Index(tag, ","); idx != -1 {
			name = tag[:idx]
		}
		if name == "" {
			name = ftyp.Name
		}
''', '''		if tag == "-" {
			continue
		}

		name := ftyp.Name
'''))
bug('another tag', P, ('ftyp.Tag.Get("param")', 'ftyp.Tag.Get("form")'))
bug('a field that is left out', P, ('if tag == "-" {', 'if tag == "-" || tag == "" {'))
bug('the last field is left out', P, ('for i := 0; i < elm.NumField(); i++ {', 'for i := 0; i < elm.NumField()-1; i++ {'))
bug('embedded structs end it', P, ('''			} else {
				continue
			}

		} else {
			if !exits {''', '''			} else {
				return
			}

		} else {
			if !exits {'''))
bug('an embedded struct forgets', P, ('''				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
					exits = true
				}
			} else {
				continue''', '''				exits = p.bindValuesToStruct(inf, pointerMap, typeMap)
			} else {
				continue'''))
bug('an embedded pointer is not stored', P, ('''					if field.CanSet() {
						field.Set(newField)
					}
''', ''))
bug('an embedded pointer forgets', P, ('''				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
					exits = true
					if field.CanSet() {''', '''				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
					if field.CanSet() {'''))
bug('the last field decides', P, ('''			if !exits {
				exits = p.hasValue(name)
			}
''', '''			exits = p.hasValue(name)
'''))
bug('a value of the exact name only', P, ('''len(vals) > 0 && (key == name || strings.HasPrefix(key, name+"[") || strings.HasPrefix(key, name+"."))''', '''len(vals) > 0 && key == name'''))
bug('a new embedded struct every time', P, ('''				if field.IsNil() {
					if !field.CanSet() || typeMap[ftyp.Type.Elem()] {
						continue
					}
					newField''', '''				if field.CanSet() {
					newField'''))
bug('a type bound once is never bound again', P, ('''	delete(typeMap, typ)
''', ''))
bug('nothing of a type in progress', P, ('typeMap[ftyp.Type.Elem()]', 'typeMap[typ]'))
ref('types in progress asked first', P, ('''					if !field.CanSet() || typeMap[ftyp.Type.Elem()] {
						continue
					}
''', '''					elem := field.Type().Elem()
					if typeMap[elem] {
						continue
					}
					if !field.CanSet() {
						continue
					}
'''))
bug('the value is not converted', P, ('''			if paramValue.Type().ConvertibleTo(field.Type()) {
				field.Set(paramValue.Convert(field.Type()))
			}''', '''			if paramValue.Type() == field.Type() && exits {
				field.Set(paramValue)
			}'''))
bug('the wrong field', P, ('field.Set(paramValue.Convert(field.Type()))', 'elm.Field(0).Set(paramValue.Convert(field.Type()))'))
ref('tags cut', P, ('''		name := tag
		if idx := strings.Index(tag, ","); idx != -1 {
			name = tag[:idx]
		}
		if name == "" {''', '''		name := strings.Split(tag, ",")[0]
		if name == "" {'''))
ref('tags with IndexByte', P, ('''		if idx := strings.Index(tag, ","); idx != -1 {''', '''		if idx := strings.IndexByte(tag, ','); idx >= 0 {'''))
ref('content type up to the semicolon', P, ('''strings.ToLower(strings.TrimSpace(strings.Split(contentType, ";")[0]))''', '''strings.TrimSpace(strings.Split(strings.ToLower(contentType), ";")[0])'''))
ref('always look', P, ('''			if !exits {
				exits = p.hasValue(name)
			}
''', '''			exits = p.hasValue(name) || exits
'''))
ref('look into the values', P, ('''		if len(vals) > 0 && (key == name || strings.HasPrefix(key, name+"[") || strings.HasPrefix(key, name+".")) {
			return true
		}
''', '''		if len(vals) == 0 {
			continue
		}
		if key == name || strings.HasPrefix(key, name+".") || strings.HasPrefix(key, name+"[") {
			return true
		}
'''))
ref('the exits of embedded structs', P, ('''				inf = field
				if ok := p.bindValuesToStruct(inf, pointerMap, typeMap); ok {
					exits = true
				}
''', '''				exits = p.bindValuesToStruct(field, pointerMap, typeMap) || exits
'''))
ref('merge with a helper', P, ('''	for k, v := range p.Query {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Route.Values {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
''', '''	merge := func(from url.Values) {
		for k, v := range from {
			values[k] = append(values[k], v...)
		}
	}
	merge(p.Query)
	merge(p.Route.Values)
	merge(p.Form)
'''))
ref('merge in a loop', P, ('''	for k, v := range p.Query {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Route.Values {
		values[k] = append(values[k], v...)
	}
	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
''', '''	for _, from := range []url.Values{p.Query, p.Route.Values, p.Form} {
		for k, v := range from {
			values[k] = append(values[k], v...)
		}
	}
'''))
ref('merge value by value', P, ('''	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
''', '''	for k, vs := range p.Form {
		for _, v := range vs {
			values.Add(k, v)
		}
	}
'''))
ref('always a copy', P, ('''	// If only one of the param sources has anything, return that directly.
	switch numParams {
	case len(p.Query):
		return p.Query
	case len(p.Route.Values):
		return p.Route.Values
	case len(p.Form):
		return p.Form
	}

''', ''))
ref('values without a deferred function', P, ('''	defer func() {
		params.Values = params.calcValues()
	}()

	contentType''', '''	err := params.parseBody(maxMemory)
	params.Values = params.calcValues()
	return err
}

func (params *Params) parseBody(maxMemory int64) error {
	req := params.req
	contentType'''))
ref('the parser as a type', P, ('''		if routeInfo != nil {
			params.Route = *routeInfo
		}
''', '''		if routeInfo == nil {
			routeInfo = new(strip.RouteInfo)
		}
		params.Route = *routeInfo
'''))

ref('merge appends value by value', P, ("""	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
""", """	for k := range p.Form {
		for i := range p.Form[k] {
			values[k] = append(values[k], p.Form[k][i])
		}
	}
"""))
bug('the first value by value', P, ("""	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
""", """	for k, vs := range p.Form {
		for _, v := range vs {
			values.Set(k, v)
		}
	}
"""))
bug('all but the first value', P, ("""	for k, v := range p.Form {
		values[k] = append(values[k], v...)
	}
""", """	for k, vs := range p.Form {
		for i, v := range vs {
			if i > 0 {
				values.Add(k, v)
			}
		}
	}
"""))
bug('dots only, byte by byte', B, ('''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	for i := 0; i < len(key); i++ {
		if key[i] == '.' {
			return key[:i]
		}
	}
	return key
'''))
bug('from the second byte on', B, ('''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	for i := 1; i < len(key); i++ {
		if key[i] == '.' || key[i] == '[' {
			return key[:i]
		}
	}
	return key
'''))
ref('next key with two indexes', B, ('''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	if i := strings.IndexByte(key, '.'); i >= 0 {
		key = key[:i]
	}
	if i := strings.IndexByte(key, '['); i >= 0 {
		key = key[:i]
	}
	return key
'''))
ref('next key with runes', B, ('''	fieldLen := strings.IndexAny(key, ".[")
	if fieldLen == -1 {
		return key
	}
	return key[:fieldLen]
''', '''	for i, r := range key {
		if r == '.' || r == '[' {
			return key[:i]
		}
	}
	return key
'''))
