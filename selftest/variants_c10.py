I='inject/inject.go'; P='inject/inject_provider.go'
V=[
('bug','C10','parent first',[(I,"""	// get provider in current injector
	if prov := inj.values[name]; prov != nil {
		return prov
	}

	// back to parent injector
	if inj.parent != nil {
		return inj.parent.get(name)
	}

	return nil
""","""	if inj.parent != nil {
		if prov := inj.parent.get(name); prov != nil {
			return prov
		}
	}
	return inj.values[name]
""")]),
('bug','C10','parent name',[(I,'return inj.parent.get(name)','return inj.parent.get(getName(name))'),(I,'func getName(names ...string) string {\n	if len(names) > 0 {','func getName(names ...string) string {\n	if len(names) > 1 {')]),
('bug','C10','assign swallowed in apply',[(I,"				if err := assignValue(out[0], field); err != nil {\n					return err\n				}","				if err := assignValue(out[0], field); err != nil && field.Kind() != reflect.Interface {\n					return err\n				}")]),
('bug','C10','nested error lost',[(I,"				if _, ok := err.(*typeError); !ok {\n					return err","				if _, ok := err.(*typeError); !ok && level < 2 {\n					return err")]),
('bug','C10','missing skipped in apply',[(I,'			if prov == nil {\n				return fmt.Errorf("provider not found for type','			if prov == nil && tagVal != "" {\n				continue\n			}\n			if prov == nil {\n				return fmt.Errorf("provider not found for type')]),
('bug','C10','dep missing zero',[(P,"""		if prov == nil {
			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
			return
		}
""","""		if prov == nil {
			if p.ptyp.In(i).Kind() == reflect.Interface {
				in = append(in, reflect.Zero(p.ptyp.In(i)))
				continue
			}
			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
			return
		}
""")]),
('bug','C10','cycle check weaker',[(P,'		if status.has(prov.name) {','		if status.has(prov.name) && prov.name != p.name {')]),
('bug','C10','mark late',[(P,"""	// on process
	status.set(p.name)
	defer status.unset(p.name)

	if p.value""","""	if p.value"""),(P,"	// invoke provider function\n","	status.set(p.name)\n	defer status.unset(p.name)\n\n	// invoke provider function\n")]),
('bug','C10','new status',[(P,'ot, er := prov.invoke(inj, status)','ot, er := prov.invoke(inj, make(invokeStatus))')]),
('bug','C10','deps reversed',[(P,'		typ := indirectType(info.ptyp.In(i))','		typ := indirectType(info.ptyp.In(numIn - 1 - i))')]),
('bug','C10','unassignable zero',[(P,"		if err = assignValue(ot[0], arg); err != nil {\n			return\n		}","		if err = assignValue(ot[0], arg); err != nil && arg.Kind() != reflect.Func {\n			return\n		}")]),
('bug','C10','assign convert',[(I,"	if out.Type().AssignableTo(elm.Type()) {\n		elm.Set(out)","	if out.Type().ConvertibleTo(elm.Type()) {\n		elm.Set(out.Convert(elm.Type()))")]),
('bug','C10','find no error',[(I,"	out, err := prov.invoke(inj, status)\n	if err != nil {\n		return err\n	}\n\n	if len(out) > 0 {\n		if !out[0].IsValid() {\n			return fmt.Errorf(\"provider value not valid of type `%s`\", provName)\n		}\n\n		return assignValue(out[0], val.Elem())\n	}","	out, err := prov.invoke(inj, status)\n	if err != nil && len(out) == 0 {\n		return err\n	}\n\n	if len(out) > 0 {\n		if !out[0].IsValid() {\n			return fmt.Errorf(\"provider value not valid of type `%s`\", provName)\n		}\n\n		assignValue(out[0], val.Elem())\n	}")]),
('bug','C10','invoke in parent',[(I,'func (inj *injector) Find(ptr interface{}, names ...string) error {\n	val := reflect.ValueOf(ptr)\n	if val.Kind() != reflect.Ptr {\n		panic("need ptr instance")\n	}\n	provName := createName(indirectType(val.Type()), getName(names...))','func (inj *injector) Find(ptr interface{}, names ...string) error {\n	val := reflect.ValueOf(ptr)\n	if val.Kind() != reflect.Ptr {\n		panic("need ptr instance")\n	}\n	provName := createName(indirectType(val.Type()), "")')]),
('bug','C10','apply skips tag name',[(I,'		if structField.Tag == "inject" || tagVal != "" {','		if structField.Tag == "inject" || tagVal != "" && level == 1 {')]),
('bug','C10','apply stops',[(I,"		if !field.CanSet() {\n			continue","		if !field.CanSet() {\n			break")]),
('bug','C11','cache hit ignores own',[(P,'	if v, ok := inj.caches[p.name]; ok {','	if v, ok := inj.caches[p.name]; ok && p.value == nil {')]),
('bug','C11','cache all',[(P,'	if p.name != "" {\n		inj.caches','	if len(out) > 0 {\n		inj.caches')]),
('bug','C11','cache not dropped',[(I,'	delete(inj.caches, info.name)\n','	if obj.Name == "" {\n		delete(inj.caches, info.name)\n	}\n')]),
('bug','C11','only if has values',[(P,'	if p.name != "" {\n		inj.caches','	if p.name != "" && len(out) == 1 {\n		inj.caches')]),
('bug','C11','invoke named',[(I,'	info.name = ""\n','	if info.ptyp != nil && info.ptyp.NumOut() == 0 {\n		info.name = ""\n	}\n')]),
('bug','C11','unset lost',[(P,'	status.set(p.name)\n	defer status.unset(p.name)\n\n	if p.value != nil {','	status.set(p.name)\n\n	if p.value != nil {'),(P,'	// invoke provider function\n','	status.unset(p.name)\n\n	// invoke provider function\n')]),
('bug','C11','cache parent instance',[(P,'	if v, ok := inj.caches[p.name]; ok {\n		out = v\n		return\n	}','	if v, ok := inj.caches[p.name]; ok {\n		out = v\n		return\n	}\n	if par, ok := inj.parent.(*injector); ok {\n		if v, ok := par.caches[p.name]; ok {\n			out = v\n			return\n		}\n	}')]),
('ref','C10','lookup else',[(I,"""	if prov := inj.values[name]; prov != nil {
		return prov
	}

	// back to parent injector
	if inj.parent != nil {
		return inj.parent.get(name)
	}

	return nil
""","""	prov, ok := inj.values[name]
	if ok && prov != nil || inj.parent == nil {
		return prov
	}
	return inj.parent.get(name)
""")]),
('ref','C10','arg helper',[(P,"""		arg := reflect.New(p.ptyp.In(i)).Elem()
		if err = assignValue(ot[0], arg); err != nil {
			return
		}
		in = append(in, arg)
""","""		arg, e := p.argument(i, ot[0])
		if e != nil {
			err = e
			return
		}
		in = append(in, arg)
"""),(P,"// create unique name of type","""func (p *providerInfo) argument(i int, v reflect.Value) (reflect.Value, error) {
	arg := reflect.New(p.ptyp.In(i)).Elem()
	err := assignValue(v, arg)
	return arg, err
}

// create unique name of type""")]),
('ref','C10','field helper',[(I,"""			// create name of inject value
			provName := createName(indirectType(field.Type()), tagVal)

			prov := inj.get(provName)
			if prov == nil {
				return fmt.Errorf("provider not found for type %s:%v", provName, field)
			}

			out, err := prov.invoke(inj, status)

			if err != nil {
				return fmt.Errorf("provider invoke of type %s:%v err: %v", provName, field, err)
			}

			if len(out) > 0 {
				if !out[0].IsValid() {
					return fmt.Errorf("value not found for type %s:%v", provName, field)
				}

				if err := assignValue(out[0], field); err != nil {
					return err
				}
			}

			continue
""","""			if err := inj.applyField(field, tagVal, status); err != nil {
				return err
			}
			continue
"""),(I,"func (inj *injector) get(name","""func (inj *injector) applyField(field reflect.Value, tagVal string, status invokeStatus) error {
	provName := createName(indirectType(field.Type()), tagVal)
	prov := inj.get(provName)
	if prov == nil {
		return fmt.Errorf("provider not found for type %s:%v", provName, field)
	}
	out, err := prov.invoke(inj, status)
	if err != nil {
		return fmt.Errorf("provider invoke of type %s:%v err: %v", provName, field, err)
	}
	if len(out) == 0 {
		return nil
	}
	if !out[0].IsValid() {
		return fmt.Errorf("value not found for type %s:%v", provName, field)
	}
	return assignValue(out[0], field)
}

func (inj *injector) get(name""")]),
('ref','C10','status bool map',[(P,'		if status.has(prov.name) {','		if _, busy := status[prov.name]; busy {')]),
('ref','C11','call helper',[(P,"""	out = p.pval.Call(in)
	if p.name != "" {
		inj.caches[p.name] = out
	}
	return
""","""	out = inj.remember(p, p.pval.Call(in))
	return
"""),(P,"// create unique name of type","""func (inj *injector) remember(p *providerInfo, out []reflect.Value) []reflect.Value {
	if p.name == "" {
		return out
	}
	inj.caches[p.name] = out
	return out
}

// create unique name of type""")]),
('ref','C11','deps first',[(I,"""	// remove exists cache of provider
	delete(inj.caches, info.name)

	// replace with new prvoder info
	inj.values[info.name] = info
""","""	name := info.name
	inj.values[name] = info
	delete(inj.caches, name)
""")]),
('ref','C11','args helper',[(P,"""	in := make([]reflect.Value, 0, len(p.deps))
	for i, dep := range p.deps {
		prov := inj.get(dep)
		if prov == nil {
			err = fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
			return
		}

		// avoid cycle dependencies
		if status.has(prov.name) {
			err = fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
			return
		}

		// deep invoke
		ot, er := prov.invoke(inj, status)
		if er != nil {
			err = er
			return
		}

		if len(ot) > 0 {
			if !ot[0].IsValid() {
				out = ot
				return
			}
		}
""","""	in := make([]reflect.Value, 0, len(p.deps))
	for i, dep := range p.deps {
		ot, er := p.dependency(inj, dep, status)
		if er != nil {
			return nil, er
		}

		if len(ot) > 0 && !ot[0].IsValid() {
			return ot, nil
		}
"""),(P,"// create unique name of type","""func (p *providerInfo) dependency(inj *injector, dep string, status invokeStatus) ([]reflect.Value, error) {
	prov := inj.get(dep)
	switch {
	case prov == nil:
		return nil, fmt.Errorf("provider not found of dep <%s> by %v", dep, p.ptyp)
	case status.has(prov.name):
		return nil, fmt.Errorf("provider cycle dependencies of dep <%s> by %v", dep, p.ptyp)
	}
	return prov.invoke(inj, status)
}

// create unique name of type""")]),
]

# what a provider is described by
V.append(('bug', 'C10', 'described: numout1', [('inject/inject_provider.go', 'NumOut() > 0 {\n\t\tif obj', 'NumOut() == 1 {\n\t\tif obj')]))
V.append(('bug', 'C10', 'described: type ignored', [('inject/inject_provider.go', '\t\tif obj.Type == nil {\n\t\t\tinfo.typ', '\t\tif info.ptyp.NumOut() > 0 {\n\t\t\tinfo.typ')]))
V.append(('bug', 'C10', 'described: last out', [('inject/inject_provider.go', 'info.ptyp.Out(0)', 'info.ptyp.Out(info.ptyp.NumOut()-1)')]))
V.append(('bug', 'C10', 'described: dep0', [('inject/inject_provider.go', 'depMap[i]', 'depMap[0]')]))
V.append(('bug', 'C10', 'described: in0', [('inject/inject_provider.go', 'indirectType(info.ptyp.In(i))', 'indirectType(info.ptyp.In(0))')]))
V.append(('bug', 'C10', 'described: dep prepended', [('inject/inject_provider.go', 'deps = append(deps, createName(typ, depMap[i]))', 'deps = append([]string{createName(typ, depMap[i])}, deps...)')]))
V.append(('bug', 'C10', 'described: from1', [('inject/inject_provider.go', 'for i := 0; i < numIn; i++ {', 'for i := numIn - 1; i >= 0; i-- {')]))
V.append(('bug', 'C10', 'described: prov0', [('inject/inject_provider.go', 'info.prov = provs[len(provs)-1]', 'info.prov = provs[0]')]))
V.append(('bug', 'C10', 'described: value type ignored', [('inject/inject_provider.go', '\tif obj.Type == nil {\n\t\tinfo.typ = indirectValue', '\tif obj.Value != nil {\n\t\tinfo.typ = indirectValue')]))
V.append(('bug', 'C10', 'described: name ignored', [('inject/inject_provider.go', 'info.setName(obj.Name)\n\t}', 'info.setName("")\n\t}')]))
V.append(('bug', 'C10', 'described: value name ignored', [('inject/inject_provider.go', '\tinfo.setName(obj.Name)\n\n\treturn info', '\tinfo.setName("")\n\n\treturn info')]))
V.append(('bug', 'C10', 'described: dep map of last', [('inject/inject_provider.go', 'depMap, _ = provs[0].(Dep)', 'depMap, _ = provs[len(provs)-1].(Dep)')]))
V.append(('bug', 'C10', 'described: value other', [('inject/inject_provider.go', '\tinfo.val = val\n', '\tinfo.val = reflect.New(val.Type().Elem())\n')]))
V.append(('bug', 'C10', 'described: as type ignored', [('inject/inject.go', '\t\tobj.Type = typ\n', '\t\t_ = typ\n')]))
V.append(('bug', 'C10', 'described: as name last', [('inject/inject.go', 'obj.Name = names[0]', 'obj.Name = names[len(names)-1]')]))
V.append(('bug', 'C10', 'described: as name if none', [('inject/inject.go', '\t\tobj.Name = names[0]\n', '\t\tif obj.Name == "" {\n\t\t\tobj.Name = names[0]\n\t\t}\n')]))
V.append(('bug', 'C10', 'described: as type if none', [('inject/inject.go', '\tif typ != nil {\n\t\tobj.Type', '\tif typ != nil && obj.Type == nil {\n\t\tobj.Type')]))
V.append(('bug', 'C10', 'described: provide first only', [('inject/inject.go', '\t\tinj.ProvideAs(prov, nil)\n\t}', '\t\tinj.ProvideAs(prov, nil)\n\t\tbreak\n\t}')]))
V.append(('bug', 'C10', 'described: ptr obj fresh', [('inject/inject.go', '\t\tobj = *p\n', '\t\tobj = Object{Value: p.Value, Name: p.Name}\n')]))
V.append(('bug', 'C10', 'described: dep of the last result', [('inject/inject_provider.go', 'depMap[i]', 'depMap[numIn-1-i]')]))
V.append(('bug', 'C10', 'described: dep only second', [('inject/inject_provider.go', 'if len(provs) > 0 {\n\t\tinfo.prov', 'if len(provs) > 1 {\n\t\tinfo.prov')]))
V.append(('bug', 'C10', 'described: provide first only', [('inject/inject.go', '\t\tinj.ProvideAs(prov, nil)\n\t}', '\t\tinj.ProvideAs(prov, nil)\n\t\tbreak\n\t}')]))
V.append(('bug', 'C16', 'described: no create', [('sessions/manager.go', '\t\tsess, err = m.createSession(CreateSid())\n', '')]))
V.append(('bug', 'C10', 'described: from second', [('inject/inject.go', 'range provs {\n\t\tinj', 'range provs[1:] {\n\t\tinj')]))
V.append(('bug', 'C10', 'described: skip nil type', [('inject/inject.go', '\t\tinj.ProvideAs(prov, nil)', '\t\tif _, ok := prov.(Object); !ok {\n\t\t\tinj.ProvideAs(prov, nil)\n\t\t}')]))
V.append(('ref', 'C10', 'described: each by index', [('inject/inject.go', '\tfor _, prov := range provs {\n\t\tinj.ProvideAs(prov, nil)\n', '\tfor i := range provs {\n\t\tinj.ProvideAs(provs[i], nil)\n')]))
V.append(('ref', 'C10', 'described: last by count', [('inject/inject_provider.go', '\tif len(provs) > 0 {\n\t\tinfo.prov = provs[len(provs)-1]', '\tif n := len(provs); n != 0 {\n\t\tinfo.prov = provs[n-1]')]))
V.append(('ref', 'C10', 'described: results counted from one', [('inject/inject_provider.go', 'NumOut() > 0 {', 'NumOut() >= 1 {')]))
V.append(('ref', 'C10', 'described: results not none', [('inject/inject_provider.go', 'NumOut() > 0 {', 'NumOut() != 0 {')]))
V.append(('ref', 'C10', 'described: names asked', [('inject/inject_provider.go', 'depMap, _ = provs[0].(Dep)', 'if table, ok := provs[0].(Dep); ok {\n\t\t\tdepMap = table\n\t\t}')]))
V.append(('ref', 'C10', 'described: name inline', [('inject/inject_provider.go', '\tinfo.setName(obj.Name)\n\n\treturn info', '\tinfo.name = createName(info.typ, obj.Name)\n\n\treturn info')]))
V.append(('ref', 'C10', 'described: name of place first', [('inject/inject_provider.go', 'deps = append(deps, createName(typ, depMap[i]))', 'given := depMap[i]\n\t\tdeps = append(deps, createName(typ, given))')]))
V.append(('ref', 'C10', 'described: object by if', [('inject/inject.go', '\tswitch p := prov.(type) {\n\tcase Object:\n\t\tobj = p\n\tcase *Object:\n\t\tobj = *p\n\tdefault:\n\t\tobj = Object{Value: prov}\n\t}\n', '\tif p, ok := prov.(Object); ok {\n\t\tobj = p\n\t} else if p, ok := prov.(*Object); ok {\n\t\tobj = *p\n\t} else {\n\t\tobj.Value = prov\n\t}\n')]))
V.append(('ref', 'C10', 'described: object apart', [('inject/inject.go', '\tif typ != nil {\n\t\tobj.Type = typ\n\t}\n\tif len(names) > 0 {\n\t\tobj.Name = names[0]\n\t}\n\n\tinfo := newProvider(obj)\n', '\tinfo := newProvider(obj.as(typ, names))\n'), ('inject/inject.go', 'func (inj *injector) Find(', 'func (o Object) as(typ interface{}, names []string) Object {\n\tif typ != nil {\n\t\to.Type = typ\n\t}\n\tif len(names) != 0 {\n\t\to.Name = names[0]\n\t}\n\treturn o\n}\n\nfunc (inj *injector) Find(')]))
