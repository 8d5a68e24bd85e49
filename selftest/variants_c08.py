A='router_action.go'
LOOP="""		if len(params) > i {
			param := ""
			for _, v := range params[i] {
				param = v
			}
			value = convertStringAsType(param, typ)
"""
V=[
('bug','C08','controller reused',[(A,"	newStruct := reflect.New(r.controller.typ)\n	if val := indirectValue(r.controller.val); val.IsValid() {\n		newStruct.Elem().Set(val)\n	}\n","	newStruct := r.controller.val\n	if newStruct.Kind() != reflect.Ptr || newStruct.IsNil() {\n		newStruct = reflect.New(r.controller.typ)\n		if val := indirectValue(r.controller.val); val.IsValid() {\n			newStruct.Elem().Set(val)\n		}\n	}\n")]),
('bug','C08','copy dropped',[(A,"if val := indirectValue(r.controller.val); val.IsValid() {","if val := indirectValue(r.controller.val); val.IsValid() && r.controller.kind != reflect.Ptr {")]),
('bug','C08','apply before copy',[(A,"	newStruct := reflect.New(r.controller.typ)\n","	newStruct := reflect.New(r.controller.typ)\n	if err := ctx.Apply(newStruct.Interface()); err != nil {\n		panic(err)\n	}\n"),(A,"""	err := ctx.Apply(newStruct.Interface())
	if err != nil {
		panic(err)
	}

""","")]),
('bug','C08','apply error ignored',[(A,"""	err := ctx.Apply(newStruct.Interface())
	if err != nil {
		panic(err)
	}
""","""	err := ctx.Apply(newStruct.Interface())
	if err != nil && len(in) == 0 {
		panic(err)
	}
""")]),
('bug','C08','param off by receiver',[(A,"for _, v := range params[i] {","for _, v := range params[len(params)-1-i] {")]),
('bug','C08','param bound len',[(A,"		if len(params) > i {","		if len(params) > i+1 {")]),
('bug','C08','cached types',[(A,"	for i := 0; i < len(actionIn); i++ {\n		typ := actionIn[i]","	if len(r.controller.actionIn) == len(actionIn) {\n		actionIn = r.controller.actionIn\n	}\n	for i := 0; i < len(actionIn); i++ {\n		typ := actionIn[i]")]),
('bug','C08','receiver kept',[(A,"	for i := 1; i < m.Type.NumIn(); i++ {","	for i := 0; i < m.Type.NumIn()-1; i++ {")]),
('bug','C08','empty path value not converted',[(A,"			value = convertStringAsType(param, typ)\n","			if param != \"\" && param != \"0\" {\n				value = convertStringAsType(param, typ)\n			}\n")]),
('bug','C08','pointer shared',[(A,"""				ptr := reflect.New(typ.Elem())
				if value.Type().AssignableTo(typ.Elem()) {
					ptr.Elem().Set(value)
					value = ptr""","""				ptr := reflect.New(typ.Elem())
				if value.Type().AssignableTo(typ.Elem()) {
					value = ptr""")]),
('bug','C08','stop at last path value',[(A,"	for i := 0; i < len(actionIn); i++ {\n		typ := actionIn[i]","	for i := 0; i < len(actionIn) && (i < len(params) || i < 8); i++ {\n		typ := actionIn[i]")]),
('bug','C08','output dropped on empty',[(A,"	res := actionOut(out)\n","	if len(out) == 0 {\n		return\n	}\n	res := actionOut(out)\n")]),
('bug','C08','function value',[(A,"			out, err = ctx.Invoke(r.controller.value)\n			if err != nil {","			out, err = ctx.Invoke(r.controller.value)\n			if err != nil && len(out) > 0 {")]),
('bug','C08','method by other name',[(A,"	m, ok := r.controller.pTyp.MethodByName(action)\n","	name := action\n	if r.action != \"\" {\n		name = r.action\n	}\n	m, ok := r.controller.pTyp.MethodByName(name)\n")]),
('bug','C08','invoke twice',[(A,"			out, err = ctx.Invoke(r.controller.value)\n","			out, err = ctx.Invoke(r.controller.value)\n			if err == nil && len(out) == 0 {\n				out, err = ctx.Invoke(r.controller.value)\n			}\n")]),
('bug','C08','write into registered',[(A,"	err := ctx.Apply(newStruct.Interface())\n","	if val := indirectValue(r.controller.val); val.CanSet() {\n		val.Set(newStruct.Elem())\n	}\n	err := ctx.Apply(newStruct.Interface())\n")]),
('ref','C08','fused loop',[(A,"""	// parameters of the method to call, without receiver
	actionIn := make([]reflect.Type, 0, m.Type.NumIn())
	for i := 1; i < m.Type.NumIn(); i++ {
		actionIn = append(actionIn, m.Type.In(i))
	}

	in := make([]reflect.Value, 0, len(actionIn))
	for i := 0; i < len(actionIn); i++ {
		typ := actionIn[i]
""","""	n := m.Type.NumIn() - 1
	in := make([]reflect.Value, 0, n)
	for i := 0; i < n; i++ {
		typ := m.Type.In(i + 1)
""")]),
('ref','C08','fused loop from one',[(A,"""	// parameters of the method to call, without receiver
	actionIn := make([]reflect.Type, 0, m.Type.NumIn())
	for i := 1; i < m.Type.NumIn(); i++ {
		actionIn = append(actionIn, m.Type.In(i))
	}

	in := make([]reflect.Value, 0, len(actionIn))
	for i := 0; i < len(actionIn); i++ {
		typ := actionIn[i]
""","""	var in []reflect.Value
	for j := 1; j < m.Type.NumIn(); j++ {
		i := j - 1
		typ := m.Type.In(j)
""")]),
('ref','C08','index assignment',[(A,"	in := make([]reflect.Value, 0, len(actionIn))","	in := make([]reflect.Value, len(actionIn))"),(A,"		in = append(in, value)\n","		in[i] = value\n")]),
('ref','C08','helper for one argument',[(A,"""		typ := actionIn[i]
		value := reflect.Value{}

"""+LOOP+"""
			// converted value is never a pointer
			if value.IsValid() && typ.Kind() == reflect.Ptr {
				ptr := reflect.New(typ.Elem())
				if value.Type().AssignableTo(typ.Elem()) {
					ptr.Elem().Set(value)
					value = ptr
				} else {
					value = reflect.Value{}
				}
			}
		}

		if !value.IsValid() {
			value = reflect.New(typ).Elem()
		}

		in = append(in, value)
	}
""","""		in = append(in, argument(params, i, actionIn[i]))
	}
"""),(A,"func (r *routerAction) writeResult","""func pathValue(m map[string]string) (param string) {
	for _, v := range m {
		param = v
	}
	return
}

func argument(params paramList, i int, typ reflect.Type) reflect.Value {
	if i >= len(params) {
		return reflect.Zero(typ)
	}
	value := convertStringAsType(pathValue(params[i]), typ)
	if !value.IsValid() {
		return reflect.Zero(typ)
	}
	if typ.Kind() != reflect.Ptr {
		return value
	}
	if !value.Type().AssignableTo(typ.Elem()) {
		return reflect.Zero(typ)
	}
	ptr := reflect.New(typ.Elem())
	ptr.Elem().Set(value)
	return ptr
}

func (r *routerAction) writeResult""")]),
('ref','C08','range loop',[(A,"	for i := 0; i < len(actionIn); i++ {\n		typ := actionIn[i]\n","	for i, typ := range actionIn {\n")]),
('ref','C08','copy helper and early method',[(A,"""	newStruct := reflect.New(r.controller.typ)
	if val := indirectValue(r.controller.val); val.IsValid() {
		newStruct.Elem().Set(val)
	}

	err := ctx.Apply(newStruct.Interface())
	if err != nil {
		panic(err)
	}

	out := newStruct.MethodByName(action).Call(in)
	return out
""","""	newStruct := r.controller.instance()
	if err := ctx.Apply(newStruct.Interface()); err != nil {
		panic(err)
	}
	return newStruct.MethodByName(action).Call(in)
"""),(A,"func (r *routerAction) writeResult","""func (c *routerController) instance() reflect.Value {
	v := reflect.New(c.typ)
	src := indirectValue(c.val)
	if !src.IsValid() {
		return v
	}
	v.Elem().Set(src)
	return v
}

func (r *routerAction) writeResult""")]),
]
