R='router.go'
PARAMLOOP='''		for _, pr := range r.paramRoutes {
			value, matched := pr.pathParam.matchParamRoute(p)
			if !matched {
				continue
			}

			if !more && !pr.isEnd {
				continue
			}

			if !more && pr.isEnd {
				rt = pr
				*params = append(*params, map[string]string{pr.pathParam.paramName: value})
				break
			}

			if more {
				newParams := make(paramList, 0, len(paths))
				nr := pr.match(paths, &newParams)
				if nr != nil && nr.isEnd {
					*params = append(*params, map[string]string{pr.pathParam.paramName: value})
					*params = append(*params, newParams...)
					rt = nr
					break
				}
			}
		}
'''
V=[
('bug','C04','shared values list',[(R,"	if rt == nil && len(r.paramRoutes) > 0 {\n","	if rt == nil && len(r.paramRoutes) > 0 {\n		newParams := make(paramList, 0, len(paths))\n"),(R,"			if more {\n				newParams := make(paramList, 0, len(paths))\n				nr :=","			if more {\n				nr :=")]),
('bug','C04','values before search',[(R,"				nr := pr.match(paths, &newParams)\n				if nr != nil && nr.isEnd {\n					*params = append(*params, map[string]string{pr.pathParam.paramName: value})\n","				*params = append(*params, map[string]string{pr.pathParam.paramName: value})\n				nr := pr.match(paths, &newParams)\n				if nr != nil && nr.isEnd {\n")]),
('bug','C04','literal hides param',[(R,"		if rt != nil && !rt.isEnd {\n			rt = nil\n		}","		if rt != nil && !rt.isEnd && !more {\n			rt = nil\n		}\n		if more && r.pathRoutes[p] != nil && len(paths) == 1 && rt == nil {\n			return\n		}")]),
('bug','C04','values reversed',[(R,"					*params = append(*params, map[string]string{pr.pathParam.paramName: value})\n					*params = append(*params, newParams...)\n","					*params = append(*params, newParams...)\n					*params = append(*params, map[string]string{pr.pathParam.paramName: value})\n")]),
('bug','C04','wild rest only',[(R,'strings.Join(nextPaths, "/")','strings.Join(paths, "/")')]),
('bug','C04','verb ignored',[(R,"		ok = len(value) != len(p)\n","		ok = true\n")]),
('bug','C04','verb kept in value',[(R,"				*params = append(*params, map[string]string{pr.pathParam.paramName: value})\n				break","				*params = append(*params, map[string]string{pr.pathParam.paramName: p})\n				break")]),
('bug','C04','only first param child',[(R,"			if !more && !pr.isEnd {\n				continue\n			}","			if !more && !pr.isEnd {\n				break\n			}")]),
('bug','C04','wild before param',[(R,"	if rt == nil && len(r.paramRoutes) > 0 {","	if rt == nil && len(r.paramRoutes) > 0 && (r.wildRoute == nil || more) {")]),
('bug','C04','not end found',[(R,"		if route != nil && !route.isEnd {\n			route = nil\n		}","")]),
('bug','C04','unclean path',[('router_util.go','	p = path.Clean("/" + strings.TrimSpace(p))','	if strings.Contains(p, "..") {\n		p = path.Clean(p)\n	}\n	p = "/" + strings.Trim(p, "/")')]),
('bug','C04','last param child skipped',[(R,"range r.paramRoutes {\n			value","range r.paramRoutes[:len(r.paramRoutes)-1] {\n			value")]),
('bug','C04','inner not end',[(R,"				if nr != nil && nr.isEnd {","				if nr != nil && nr.isEnd && len(newParams) < 8 {")]),
('bug','C04','notfound filters app',[(R,"r.notFoundFilters, nil)\n		ctx.run()\n		return\n	}\n\n	routeAction :=","nil, nil)\n		ctx.run()\n		return\n	}\n\n	routeAction :=")]),
('bug','C04','no return after notfound',[(R,"	// deal with not found\n	if routeAction == nil {\n		ctx := newNestContext(ctx, rw.(ResponseWriter), r.notFoundFilters, nil)\n		ctx.run()\n		return\n	}","	// deal with not found\n	if routeAction == nil {\n		ctx := newNestContext(ctx, rw.(ResponseWriter), r.notFoundFilters, nil)\n		ctx.run()\n		if ctx.Written() {\n			return\n		}\n		routeAction = route.anyRoute\n		if routeAction == nil {\n			return\n		}\n	}")]),
('bug','C04','wild drops values',[(R,"	if rt = r.wildRoute; rt != nil {","	if rt = r.wildRoute; rt != nil && rt.pathParam.paramName != \"\" {")]),
('ref','C04','helper param',[(R,PARAMLOOP,'''		rt = r.matchParams(p, paths, params)
'''),(R,'''// config current router
''','''func (r *route) matchParams(p string, paths []string, params *paramList) *route {
	for i := 0; i < len(r.paramRoutes); i++ {
		pr := r.paramRoutes[i]
		value, matched := pr.pathParam.matchParamRoute(p)
		if !matched {
			continue
		}
		entry := map[string]string{pr.pathParam.paramName: value}
		if len(paths) == 0 {
			if pr.isEnd {
				*params = append(*params, entry)
				return pr
			}
			continue
		}
		var below paramList
		if nr := pr.match(paths, &below); nr != nil {
			*params = append(append(*params, entry), below...)
			return nr
		}
	}
	return nil
}

// config current router
''')]),
('ref','C04','has suffix',[(R,"		value = strings.TrimSuffix(p, d.customVerb)\n		ok = len(value) != len(p)\n		return","		if !strings.HasSuffix(p, d.customVerb) {\n			return\n		}\n		return p[:len(p)-len(d.customVerb)], true")]),
('ref','C04','early returns',[(R,'''		// a literal path without a route must not hide param routes
		if rt != nil && !rt.isEnd {
			rt = nil
		}
	}
''','''		if rt != nil && rt.isEnd {
			return rt
		}
		rt = nil
	}
'''),(R,"	if rt == nil && len(r.paramRoutes) > 0 {\n","	{\n")]),
('ref','C04','wild order',[(R,'''	if rt != nil && rt.isEnd || r.wildRoute == nil {
		return
	}

	if rt = r.wildRoute; rt != nil {
		*params''','''	if rt != nil {
		return
	}

	if r.wildRoute != nil {
		rt = r.wildRoute
		*params''')]),
('ref','C04','find helper',[(R,'''	if paths[0] != "" {
		// non root route go deep match
		route = r.match(paths, &params)
		if route != nil && !route.isEnd {
			route = nil
		}
	}
''','''	if paths[0] != "" {
		route = r.find(paths, &params)
	}
'''),(R,"func (r *routeRoot) handle(","""func (r *routeRoot) find(paths []string, params *paramList) *route {
	if found := r.match(paths, params); found != nil && found.isEnd {
		return found
	}
	return nil
}

func (r *routeRoot) handle(""")]),
('ref','C04','notfound helper',[(R,'''	if route == nil {
		ctx := newNestContext(ctx, rw.(ResponseWriter), r.notFoundFilters, nil)
		ctx.run()
		return
	}
''','''	if route == nil {
		r.runNotFound(ctx, rw)
		return
	}
'''),(R,'''	if routeAction == nil {
		ctx := newNestContext(ctx, rw.(ResponseWriter), r.notFoundFilters, nil)
		ctx.run()
		return
	}
''','''	if routeAction == nil {
		r.runNotFound(ctx, rw)
		return
	}
'''),(R,"func (r *routeRoot) handle(","""func (r *routeRoot) runNotFound(ctx Context, rw http.ResponseWriter) {
	nest := newNestContext(ctx, rw.(ResponseWriter), r.notFoundFilters, nil)
	nest.run()
}

func (r *routeRoot) handle(""")]),
]
