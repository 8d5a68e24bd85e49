A='app_util.go'; U='utils/converter.go'; W='utils/converter_value_to.go'; B='params/binder.go'
V=[
('bug','C23','int8 wide',[(U,'ParseInt(f.String(), 10, 8)','ParseInt(f.String(), 10, 64)')]),
('bug','C23','uint16 signed',[(U,'''	v, err := strconv.ParseUint(f.String(), 10, 16)
	return uint16(v), err''','''	v, err := strconv.ParseInt(f.String(), 10, 16)
	return uint16(v), err''')]),
('bug','C23','base 0',[(A,'''	v, err := strconv.ParseInt(f.String(), 10, 32)''','''	v, err := strconv.ParseInt(f.String(), 0, 32)''')]),
('bug','C23','error dropped',[(U,'''	v, err := strconv.ParseInt(f.String(), 10, 16)
	return int16(v), err''','''	v, _ := strconv.ParseInt(f.String(), 10, 16)
	return int16(v), nil''')]),
('bug','C23','float32 via 64',[(W,'''strconv.ParseFloat(v.String(), 32)''','''strconv.ParseFloat(v.String(), 64)''')]),
('bug','C23','yes is true',[(U,'	if f == "on" {','	if f == "on" || f == "ok" {')]),
('bug','C23','on is false',[(U,'		return true, nil\n	}\n	return strconv.ParseBool(f.String())','		return false, nil\n	}\n	return strconv.ParseBool(f.String())')]),
('bug','C23','own type reread',[(W,'''	if ret, ok := v.value.(int16); ok {
		return ret, nil
	}''','''	if ret, ok := v.value.(int32); ok {
		return int16(ret), nil
	}''')]),
('bug','C23','ToStr float swapped',[(U,'argInt(args).Get(1, 32)','argInt(args).Get(1, 64)')]),
('bug','C23','ToStr base',[(U,'strconv.FormatUint(val.Uint(), argInt(args).Get(0, 10))','strconv.FormatUint(val.Uint(), argInt(args).Get(0, 8))')]),
('bug','C23','ToStr uint as int',[(U,'strconv.FormatUint(val.Uint(), argInt(args).Get(0, 10))','strconv.FormatInt(int64(val.Uint()), argInt(args).Get(0, 10))')]),
('bug','C23','ToStr precision',[(U,"'f', argInt(args).Get(0, -1), argInt(args).Get(1, 64)","'f', argInt(args).Get(0, 6), argInt(args).Get(1, 64)")]),
('bug','C23','ToInt64 unbounded',[(U,'u > math.MaxInt64','u > math.MaxUint64-1')]),
('bug','C23','ToInt64 bound off',[(U,'u > math.MaxInt64','u > math.MaxInt64+1')]),
('bug','C23','kind swapped',[(A,'''	case reflect.Int16:
		v, _ = StrTo(str).Int16()''','''	case reflect.Int16:
		v, _ = StrTo(str).Int8()''')]),
('bug','C23','kind wide',[(A,'''	case reflect.Uint8:
		v, _ = StrTo(str).Uint8()''','''	case reflect.Uint8:
		v, _ = StrTo(str).Uint64()''')]),
('bug','C23','kind missing',[(A,'''	case reflect.Uint8:
		v, _ = StrTo(str).Uint8()
''','')]),
('bug','C23','binder fixed size',[(B,'strconv.ParseInt(val, 10, typ.Bits())','strconv.ParseInt(val, 10, 64)')]),
('bug','C23','binder uint as int',[(B,'uintValue, err := strconv.ParseUint(val, 10, typ.Bits())','intV, err := strconv.ParseInt(val, 10, typ.Bits())\n			uintValue := uint64(intV)')]),
('bug','C23','binder error ignored',[(B,'''			floatValue, err := strconv.ParseFloat(val, typ.Bits())
			if err != nil {
				return reflect.Zero(typ)
			}''','''			floatValue, _ := strconv.ParseFloat(val, typ.Bits())''')]),
('bug','C23','registered swapped',[(B,'KindBinders[reflect.Uint8] = UintBinder','KindBinders[reflect.Uint8] = IntBinder')]),
('bug','C23','not registered',[(B,'	KindBinders[reflect.Float32] = FloatBinder\n','')]),
('bug','C23','bool word',[(B,'case "true", "on", "1":','case "true", "on", "1", "off":')]),
('bug','C23','bool word lost',[(B,'case "true", "on", "1":','case "true", "1":')]),
('bug','C23','last value',[(B,'return f(vals[0], typ)','return f(vals[len(vals)-1], typ)')]),
('bug','C23','unix millis',[(B,'time.Unix(unixInt, 0)','time.Unix(0, unixInt)')]),
('bug','C23','long text lost',[(B,'			if len(val) == 0 {\n				return reflect.Zero(typ)\n			}\n			intValue','			if len(val) == 0 || len(val) > 10 {\n				return reflect.Zero(typ)\n			}\n			intValue')]),
('bug','C23','must saturate',[(U,'''func (f StrTo) MustUint8() uint8 {
	v, _ := f.Uint8()
	return v''','''func (f StrTo) MustUint8() uint8 {
	v, _ := f.Uint()
	return uint8(v)''')]),
('bug','C23','value must',[(W,'''func (v *Value) MustUint16() (ret uint16) {
	ret, _ = v.Uint16()''','''func (v *Value) MustUint16() (ret uint16) {
	w, _ := v.Int()
	ret = uint16(w)''')]),
('ref','C23','parse helper',[(U,'''	v, err := strconv.ParseInt(f.String(), 10, 8)
	return int8(v), err''','''	v, err := f.signed(8)
	return int8(v), err'''),(U,'''	v, err := strconv.ParseInt(f.String(), 10, 16)
	return int16(v), err''','''	v, err := f.signed(16)
	return int16(v), err'''),(U,'func (f StrTo) Bytes()','''func (f StrTo) signed(bits int) (int64, error) {
	return strconv.ParseInt(string(f), 10, bits)
}

func (f StrTo) Bytes()''')]),
('ref','C23','zero bits',[(U,'''func (f StrTo) Int() (int, error) {
	v, err := strconv.ParseInt(f.String(), 10, 64)''','''func (f StrTo) Int() (int, error) {
	v, err := strconv.ParseInt(f.String(), 10, 0)''')]),
('ref','C23','early error',[(U,'''	v, err := strconv.ParseUint(f.String(), 10, 32)
	return uint32(v), err''','''	v, err := strconv.ParseUint(f.String(), 10, 32)
	if err != nil {
		return uint32(v), err
	}
	return uint32(v), nil''')]),
('ref','C23','tostr ifs',[(U,'''	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s = strconv.FormatInt(val.Int(), argInt(args).Get(0, 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s = strconv.FormatUint(val.Uint(), argInt(args).Get(0, 10))
	case reflect.String:''','''	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		base := argInt(args).Get(0, 10)
		s = strconv.FormatUint(val.Uint(), base)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		base := argInt(args).Get(0, 10)
		return strconv.FormatInt(val.Int(), base)
	case reflect.String:''')]),
('ref','C23','toint64 range',[(U,'''	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d = val.Int()''','''	case reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8, reflect.Int:
		return val.Int(), nil''')]),
('ref','C23','toint64 ge',[(U,'''		if u > math.MaxInt64 {
			err = fmt.Errorf("ToInt64 value %d is too large", u)
			return
		}
		d = int64(u)''','''		if u <= math.MaxInt64 {
			d = int64(u)
		} else {
			err = fmt.Errorf("ToInt64 value %d is too large", u)
		}''')]),
('ref','C23','kind in helper',[(A,'''	case reflect.Uint8:
		v, _ = StrTo(str).Uint8()
	case reflect.Uint16:
		v, _ = StrTo(str).Uint16()
	case reflect.Uint32:
		v, _ = StrTo(str).Uint32()
''','''	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		v = smallUint(str, iTyp.Kind())
'''),(A,'func convertStringAsType(','''func smallUint(str string, kind reflect.Kind) interface{} {
	if kind == reflect.Uint8 {
		v, _ := StrTo(str).Uint8()
		return v
	}
	if kind == reflect.Uint16 {
		v, _ := StrTo(str).Uint16()
		return v
	}
	v, _ := StrTo(str).Uint32()
	return v
}

func convertStringAsType(''')]),
('ref','C23','kind error kept',[(A,'''		v, _ = StrTo(str).Int64()''','''		if n, err := StrTo(str).Int64(); err == nil {
			v = n
		} else {
			v = n
		}''')]),
('ref','C23','binder inverted',[(B,'''			intValue, err := strconv.ParseInt(val, 10, typ.Bits())
			if err != nil {
				return reflect.Zero(typ)
			}
			pValue := reflect.New(typ)
			pValue.Elem().SetInt(intValue)
			return pValue.Elem()''','''			if n, err := strconv.ParseInt(val, 10, typ.Bits()); err == nil {
				elm := reflect.New(typ).Elem()
				elm.SetInt(n)
				return elm
			}
			return reflect.Zero(typ)''')]),
('ref','C23','binder named function',[(B,'''	StringBinder = Binder{
		Bind: ValueBinder(func(val string, typ reflect.Type) reflect.Value {
			return reflect.ValueOf(val)
		}),
	}''','''	StringBinder = Binder{
		Bind: ValueBinder(bindString),
	}'''),(B,'// Used to keep track of','''func bindString(val string, typ reflect.Type) reflect.Value {
	return reflect.ValueOf(val)
}

// Used to keep track of''')]),
('ref','C23','value binder inverted',[(B,'''		vals, ok := params.Values[name]
		if !ok || len(vals) == 0 {
			return reflect.Zero(typ)
		}
		return f(vals[0], typ)''','''		if vals := params.Values[name]; len(vals) > 0 {
			return f(vals[0], typ)
		}
		return reflect.Zero(typ)''')]),
('ref','C23','bool helper',[(B,'''			v := strings.TrimSpace(strings.ToLower(val))
			switch v {
			case "true", "on", "1":
				return reflect.ValueOf(true)
			}
			// Return false by default.
			return reflect.ValueOf(false)''','''			v := strings.TrimSpace(strings.ToLower(val))
			return reflect.ValueOf(v == "true" || v == "on" || v == "1")''')]),
('ref','C23','register loop',[(B,'''	KindBinders[reflect.Float32] = FloatBinder
	KindBinders[reflect.Float64] = FloatBinder
''','''	for _, kind := range []reflect.Kind{reflect.Float32, reflect.Float64} {
		KindBinders[kind] = FloatBinder
	}
''')]),
('ref','C23','parsebool split',[(U,'	if f == "on" {\n		return true, nil\n	}\n	return strconv.ParseBool(f.String())','	if f != "on" {\n		return strconv.ParseBool(string(f))\n	}\n	return true, nil')]),
('ref','C23','value switch',[(W,'''	if ret, ok := v.value.(int16); ok {
		return ret, nil
	}''','''	switch ret := v.value.(type) {
	case int16:
		return ret, nil
	}''')]),
]
