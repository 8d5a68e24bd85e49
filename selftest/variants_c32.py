C='utils/context.go'; I='inject/inject_provider.go'; J='inject/inject.go'
V=[
('bug','C32','ctx no package',[(C,'v := elm.PkgPath() + ":" + name','v := name')]),
('bug','C32','ctx no extra',[(C,' + ":" + extraName',''),(C,'	var extraName string\n	if len(extraNames) > 0 {\n		extraName = extraNames[0]\n	}\n','')]),
('bug','C32','ctx unnamed share',[(C,'	if name == "" {\n		// unnamed types are told apart by their whole description\n		name = elm.String()\n	}\n','')]),
('bug','C32','ctx no separator',[(C,'name + ":" + extraName','name + extraName')]),
('bug','C32','ctx plain string key',[(C,'	k := ctxValueToKey(value, extraName...)\n	return context.WithValue(ctx, k, value)','	k := ctxValueToKey(value, extraName...)\n	return context.WithValue(ctx, string(k), value)'),(C,'	inf := ctx.Value(k)','	inf := ctx.Value(string(k))')]),
('bug','C32','ctx find without extra',[(C,'	k := ctxValueToKey(value, extraName...)\n	inf','	k := ctxValueToKey(value)\n	inf')]),
('bug','C32','ctx find last extra',[(C,'extraName = extraNames[0]','extraName = extraNames[len(extraNames)-1]')]),
('bug','C32','ctx missing nil',[(C,'	if inf == nil {\n		return CtxValueNotFound\n	}','	if inf == nil {\n		return nil\n	}')]),
('bug','C32','ctx elem twice not stripped',[(C,'	if elm.Kind() == reflect.Ptr {\n		elm = elm.Elem()\n	}\n','')]),
('bug','C32','ctx set addr wrong',[(C,'tarElm.Set(elm.Addr())','tarElm.Set(val.Elem())')]),
('bug','C32','ctx not set',[(C,'	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {\n		tarElm.Set(elm)\n	} else','	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {\n		tarElm.Set(reflect.New(tarElm.Type().Elem()))\n	} else')]),
('bug','C32','inject no package',[(I,'	return typ.PkgPath() + ":" + typName','	return typName')]),
('bug','C32','inject string only',[(I,'	typName := typ.Name()\n	if typName == "" {\n		// unnamed type like slice, map or func\n		typName = typ.String()\n	}\n	return typ.PkgPath() + ":" + typName + ":" + name','	return typ.String() + ":" + name')]),
('bug','C32','inject name dropped for unnamed',[(I,'		typName = typ.String()\n	}\n	return','		return typ.PkgPath() + ":" + typ.String()\n	}\n	return')]),
('bug','C32','inject kind',[(I,'		typName = typ.String()','		typName = typ.Kind().String()')]),
('bug','C32','dep not stripped',[(I,'		typ := indirectType(info.ptyp.In(i))','		typ := info.ptyp.In(i)')]),
('bug','C32','strip once',[(I,'	for typ.Kind() == reflect.Ptr {\n		typ = typ.Elem()\n	}\n	return typ','	if typ.Kind() == reflect.Ptr {\n		typ = typ.Elem()\n	}\n	return typ')]),
('bug','C32','out not stripped',[(I,'info.typ = indirectType(info.ptyp.Out(0))','info.typ = info.ptyp.Out(0)')]),
('bug','C32','find one level',[(J,'createName(indirectType(val.Type())','createName(val.Type().Elem()')]),
('ref','C32','ctx inline',[(C,'	v := elm.PkgPath() + ":" + name + ":" + extraName\n	return key(v)','	return key(strings.Join([]string{elm.PkgPath(), name, extraName}, ":"))'),(C,'	"reflect"\n','	"reflect"\n	"strings"\n')][:0] or [(C,'	v := elm.PkgPath() + ":" + name + ":" + extraName\n	return key(v)','	return key(elm.PkgPath() + ":" + name + ":" + extraName)')]),
('ref','C32','ctx switch',[(C,'''	if tarElm.Kind() == reflect.Ptr && elm.Kind() != reflect.Ptr {
		tarElm.Set(elm.Addr())
	} else if tarElm.Kind() != reflect.Ptr && elm.Kind() == reflect.Ptr {
		tarElm.Set(elm.Elem())
	} else if tarElm.Kind() == reflect.Ptr && elm.Kind() == reflect.Ptr {
		tarElm.Set(elm)
	} else {
		tarElm.Set(elm)
	}
''','''	wantPtr, havePtr := tarElm.Kind() == reflect.Ptr, elm.Kind() == reflect.Ptr
	switch {
	case wantPtr && !havePtr:
		elm = elm.Addr()
	case havePtr && !wantPtr:
		elm = elm.Elem()
	}
	tarElm.Set(elm)
''')]),
('ref','C32','ctx String always',[(C,'	name := elm.Name()\n	if name == "" {\n		// unnamed types are told apart by their whole description\n		name = elm.String()\n	}\n','	name := elm.String()\n')]),
('ref','C32','ctx extra helper',[(C,'	var extraName string\n	if len(extraNames) > 0 {\n		extraName = extraNames[0]\n	}\n','	extraName := first(extraNames)\n'),(C,'func MustCtxFind','func first(names []string) string {\n	if len(names) == 0 {\n		return ""\n	}\n	return names[0]\n}\n\nfunc MustCtxFind')]),
('ref','C32','inject typeName helper',[(I,'	typName := typ.Name()\n	if typName == "" {\n		// unnamed type like slice, map or func\n		typName = typ.String()\n	}\n	return typ.PkgPath() + ":" + typName + ":" + name','	return typ.PkgPath() + ":" + typeName(typ) + ":" + name'),(I,'// reflect indirect of reflect.Value','func typeName(typ reflect.Type) string {\n	if n := typ.Name(); n != "" {\n		return n\n	}\n	return typ.String()\n}\n\n// reflect indirect of reflect.Value')]),
('ref','C32','inject value local',[(I,'		info.typ = indirectValue(info.val).Type()\n','		v := indirectValue(info.val)\n		info.typ = v.Type()\n')]),
('ref','C32','inject dep inline',[(I,'		typ := indirectType(info.ptyp.In(i))\n		deps = append(deps, createName(typ, depMap[i]))','		deps = append(deps, createName(indirectType(info.ptyp.In(i)), depMap[i]))')]),
]
