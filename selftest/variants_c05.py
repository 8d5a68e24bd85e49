R='router.go'; U='router_util.go'; M='router_method.go'; A='router_action.go'
SEGLOOP_HEAD="			var rt *route\n\n			for _, er := range targetRoute.paramRoutes {\n				if er.pathParam.path == p {\n					rt = er\n					break\n				}\n			}\n"
LIT='''			if rt == nil && targetRoute.pathRoutes != nil &&
				targetRoute.pathRoutes[p] != nil {
				rt = targetRoute.pathRoutes[p]
			}
'''
WILD='''			if rt == nil && targetRoute.wildRoute != nil &&
				targetRoute.wildRoute.pathParam.path == p {
				rt = targetRoute.wildRoute
			}
'''
PARAM='''				if isNew {
					if rt.pathParam.customVerb != "" {
						targetRoute.paramRoutes = append([]*route{rt}, targetRoute.paramRoutes...)
					} else {
						targetRoute.paramRoutes = append(targetRoute.paramRoutes, rt)
					}
				}
'''
V=[
('bug','C05','verbs last',[(R,'if rt.pathParam.customVerb != "" {\n						targetRoute','if rt.pathParam.customVerb == "" {\n						targetRoute')]),
('bug','C05','literal not reused',[(R,LIT,LIT.replace('targetRoute.pathRoutes[p] != nil','targetRoute.pathRoutes[p] != nil && targetRoute.pathRoutes[p].isEnd'))]),
('bug','C05','param reinserted',[(R,'				if isNew {','				if isNew || rt.isEnd {')]),
('bug','C05','no conflict check',[(R,'					if exists != setting {\n						panic(fmt.Sprintf("route param conflict, please change `:%s` to `:%s`", setting, exists))\n					}\n				}\n				if isNew','					if exists != setting && er.isEnd {\n						panic(fmt.Sprintf("route param conflict, please change `:%s` to `:%s`", setting, exists))\n					}\n				}\n				if isNew')]),
('bug','C05','wild no conflict',[(R,'					if exists != setting {\n						panic(fmt.Sprintf("route param conflict, please change `:%s` to `:%s`", setting, exists))\n					}\n				}\n\n				targetRoute.wildRoute','					if exists != setting && setting == "" {\n						panic(fmt.Sprintf("route param conflict, please change `:%s` to `:%s`", setting, exists))\n					}\n				}\n\n				targetRoute.wildRoute')]),
('bug','C05','end for all',[(R,'			isEnd := i == len(paths)-1','			isEnd := i >= len(paths)-2')]),
('bug','C05','wild anywhere',[(R,'			if rt.pathParam.isWild && !isEnd {','			if rt.pathParam.isWild && !isEnd && isNew {')]),
('bug','C05','head always get',[(R,'if r.action[HEAD] == nil && r.action[GET] != nil','if r.action[GET] != nil')]),
('bug','C05','head not for struct',[(R,'if r.action[HEAD] == nil && r.action[GET] != nil {','if r.action[HEAD] == nil && r.action[GET] != nil && r.action[GET].controller.isFunc() {')]),
('bug','C05','explicit ignored',[(R,'		if act == "" {\n			act = method.action()\n		}','		if act == "" || method == PATCH {\n			act = method.action()\n		}')]),
('bug','C05','any uses all',[(R,'newRouteAction(anyArgs.ctroler, act','newRouteAction(allArgs.ctroler, act')]),
('bug','C05','any no ensure',[(R,'		if act != "" {\n			anyArgs.ctroler','		if act != "" && act != "Any" {\n			anyArgs.ctroler')]),
('bug','C05','all is any',[(R,'		if method.isAll() {','		if method.isAll() && allMethod == nil {')]),
('bug','C05','all default dropped',[(R,'				act = "All"','				act = ""')]),
('bug','C05','parse verb without colon',[(R,'d.customVerb = suffix[i:]','d.customVerb = suffix[i+1:]')]),
('bug','C05','parse last colon',[(R,'strings.Index(suffix, ":")','strings.LastIndex(suffix, ":")')]),
('bug','C05','parse wild any',[(R,"if p[0] == '*' && len(p) > 1 && p[1] == ':' {","if p[0] == '*' && len(p) > 1 {")]),
('bug','C05','parse name kept',[(R,"		paramName = suffix[:i]\n","		paramName = suffix[:i]\n		if i == 0 {\n			paramName = suffix\n		}\n")]),
('bug','C05','below wrong node',[(R,'			targetRoute = rt\n','			if !rt.isEnd || isEnd {\n				targetRoute = rt\n			}\n')]),
('bug','C05','parent lost',[(R,'rt = newRoute(targetRoute.root, targetRoute)','rt = newRoute(targetRoute.root, r)')]),
('bug','C05','literal without slash end',[(R,'				rt.isEnd = true','				rt.isEnd = len(rtArgs.methods) > 0')]),
('bug','C05','no default ensure',[(U,'			!args.method.isAll() &&','			args.method != HEAD &&\n			!args.method.isAll() &&')]),
('bug','C05','explicit no ensure',[(M,'	rc.ensureHasAction(name)\n','	if !rc.actionFuncExists("All") {\n		rc.ensureHasAction(name)\n	}\n')]),
('bug','C05','ensure weaker',[(A,'	panic(fmt.Sprintf("controller action','	if m.Kind() == reflect.Invalid && r.pTyp.NumMethod() > 0 && action == "Head" {\n		return\n	}\n	panic(fmt.Sprintf("controller action')]),
('bug','C05','patch registers put',[(M,'methodParams{makeRouterController(c), PATCH}','methodParams{makeRouterController(c), PUT}')]),
('bug','C05','registration of other node',[(R,'		r.action[HEAD] = r.action[GET]','		r.action[HEAD] = r.action[GET]\n		if r.parent != nil {\n			r.parent.action[HEAD] = r.action[GET]\n		}')]),
('ref','C05','find child helper',[(R,SEGLOOP_HEAD+"\n"+LIT+"\n"+WILD,'			rt := targetRoute.child(p)\n'),(R,'// config current router\n','''func (r *route) child(p string) *route {
	for _, er := range r.paramRoutes {
		if er.pathParam.path == p {
			return er
		}
	}
	if rt := r.pathRoutes[p]; rt != nil {
		return rt
	}
	if r.wildRoute != nil && r.wildRoute.pathParam.path == p {
		return r.wildRoute
	}
	return nil
}

// config current router
''')]),
('ref','C05','insert helper',[(R,PARAM,'				if isNew {\n					targetRoute.addParam(rt)\n				}\n'),(R,'// config current router\n','''func (r *route) addParam(rt *route) {
	if rt.pathParam.customVerb == "" {
		r.paramRoutes = append(r.paramRoutes, rt)
		return
	}
	r.paramRoutes = append([]*route{rt}, r.paramRoutes...)
}

// config current router
''')]),
('ref','C05','end merged',[(R,'''			isEnd := i == len(paths)-1
			if isEnd {
				rt.isEnd = true
			}

			if rt.pathParam.isWild && !isEnd {
				panic(''','''			if i+1 == len(paths) {
				rt.isEnd = true
			} else if rt.pathParam.isWild {
				panic(''')]),
('ref','C05','lookup order',[(R,SEGLOOP_HEAD+"\n"+LIT,'''			rt := targetRoute.pathRoutes[p]
			if rt == nil {
				for _, er := range targetRoute.paramRoutes {
					if er.pathParam.path == p {
						rt = er
						break
					}
				}
			}
''')]),
('ref','C05','parse prefix',[(R,'''	if p[0] == ':' {
		d.isParam = true
		paramName = p[1:]
	}

	if p[0] == '*' && len(p) > 1 && p[1] == ':' {
		d.isWild = true
		paramName = p[2:]
	}
''','''	switch {
	case strings.HasPrefix(p, ":"):
		d.isParam = true
		paramName = p[1:]
	case strings.HasPrefix(p, "*:"):
		d.isWild = true
		paramName = p[2:]
	}
''')]),
('ref','C05','act name helper',[(R,'''		act := string(mArgs.action)
		if act == "" {
			act = method.action()
		}

		actFilters := args.filters.append(mArgs.filters...).remove(mArgs.exempts...)
''','''		act := mArgs.actionName()
		actFilters := args.filters.append(mArgs.filters...).remove(mArgs.exempts...)
'''),(R,'// config current router\n','''func (a *routeArgs) actionName() string {
	if a.action != "" {
		return string(a.action)
	}
	return a.method.action()
}

// config current router
''')]),
('ref','C05','segment helper',[(R,'''			isNew := rt == nil
			if rt == nil {
				rt = newRoute(targetRoute.root, targetRoute)
				rt.pathParam.set(p)
			}
''','''			isNew := rt == nil
			if isNew {
				rt = targetRoute.newChild(p)
			}
'''),(R,'// config current router\n','''func (r *route) newChild(p string) *route {
	rt := newRoute(r.root, r)
	rt.pathParam.set(p)
	return rt
}

// config current router
''')]),
('ref','C05','methods switch',[(R,'''		// detect All method
		if method.isAll() {
			allMethod = mt
			allArgs = mArgs
			continue
		}

		// detect Any method
		if method.isAny() {
			anyMethod = mt
			anyArgs = mArgs
			continue
		}
''','''		switch {
		case method.isAll():
			allMethod, allArgs = mt, mArgs
			continue
		case method.isAny():
			anyMethod, anyArgs = mt, mArgs
			continue
		}
''')]),
('ref','C05','loop index',[(R,'		for i, p := range paths {\n			var rt *route\n','		for i := 0; i < len(paths); i++ {\n			p := paths[i]\n			var rt *route\n')]),
('ref','C05','nested loop helper',[(R,'''	// loop nested routers
	for _, rtParam := range args.routers {
''','''	r.configNested(args)
}

func (r *route) configNested(args routeArgs) {
	// loop nested routers
	for _, rtParam := range args.routers {
''')]),
('ref','C05','default check reordered',[(U,'''	if args.ctroler != nil {
		// ensure controller has action

		if args.action == "" &&
			!args.ctroler.isFunc() &&
			!args.method.isAll() &&
			!args.method.isAny() {
			args.ctroler.ensureHasAction(args.method.action())
		}
	}

	return args
''','''	c := args.ctroler
	if c == nil || args.action != "" || c.isFunc() {
		return args
	}
	if m := args.method; !m.isAll() && !m.isAny() {
		c.ensureHasAction(m.action())
	}
	return args
''')]),
]
