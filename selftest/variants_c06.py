R='router.go'
SEL='''	routeAction := route.action[method]
	actionFunc := method.action()

	if routeAction != nil {
		actionFunc = routeAction.action
	}

	if routeAction == nil && route.allRoute != nil {
		allRoute := route.allRoute
		if allRoute.controller.isFunc() ||
			allRoute.controller.actionFuncExists(actionFunc) {
			routeAction = allRoute

		} else if allRoute.action != "" {
			routeAction = allRoute
			actionFunc = allRoute.action
		}
	}

	if routeAction == nil && route.anyRoute != nil {
		anyRoute := route.anyRoute
		if anyRoute.controller.isFunc() ||
			anyRoute.controller.actionFuncExists(anyRoute.action) {
			routeAction = anyRoute
			actionFunc = anyRoute.action
		}
	}
'''
V=[
('bug','C06','any before all',[(R,"	if routeAction == nil && route.allRoute != nil {","	if routeAction == nil && route.allRoute != nil && route.anyRoute == nil {")]),
('bug','C06','all action first',[(R,'''		if allRoute.controller.isFunc() ||
			allRoute.controller.actionFuncExists(actionFunc) {
			routeAction = allRoute

		} else if allRoute.action != "" {
			routeAction = allRoute
			actionFunc = allRoute.action
		}''','''		if allRoute.action != "" {
			routeAction = allRoute
			actionFunc = allRoute.action
		} else if allRoute.controller.isFunc() ||
			allRoute.controller.actionFuncExists(actionFunc) {
			routeAction = allRoute
		}''')]),
('bug','C06','registered name lost',[(R,"	if routeAction != nil {\n		actionFunc = routeAction.action\n	}","	if routeAction != nil && routeAction.action != \"\" && !routeAction.controller.actionFuncExists(actionFunc) {\n		actionFunc = routeAction.action\n	}")]),
('bug','C06','filters of other',[(R,"		routeAction.filters,\n","		route.action[GET].filters,\n")]),
('bug','C06','any action lost',[(R,"			routeAction = anyRoute\n			actionFunc = anyRoute.action","			routeAction = anyRoute")]),
('bug','C06','all overrides',[(R,"	if routeAction == nil && route.allRoute != nil {","	if (routeAction == nil || routeAction.action == \"\") && route.allRoute != nil {")]),
('bug','C06','head to get at run time',[(R,"	routeAction := route.action[method]\n","	routeAction := route.action[method]\n	if method == HEAD && routeAction == nil {\n		routeAction = route.action[GET]\n	}\n	if method == OPTIONS && routeAction == nil {\n		routeAction = route.action[GET]\n	}\n")]),
('bug','C06','all unreachable',[(R,"		} else if allRoute.action != \"\" {","		} else if allRoute.action != \"\" && method != HEAD {")]),
('bug','C06','action name case',[('router_method.go',"	return string(m[:1]) + strings.ToLower(string(m[1:]))","	return string(m[:1]) + strings.ToLower(string(m[1:2])) + string(m[2:])")]),
('ref','C06','select helper',[(R,SEL,'''	routeAction, actionFunc := route.selectAction(method)
'''),(R,"// config current router\n",'''func (r *route) selectAction(m method) (*routerAction, string) {
	if ra := r.action[m]; ra != nil {
		return ra, ra.action
	}
	name := m.action()
	if all := r.allRoute; all != nil {
		switch {
		case all.controller.isFunc(), all.controller.actionFuncExists(name):
			return all, name
		case all.action != "":
			return all, all.action
		}
	}
	if any := r.anyRoute; any != nil && (any.controller.isFunc() || any.controller.actionFuncExists(any.action)) {
		return any, any.action
	}
	return nil, ""
}

// config current router
''')]),
('ref','C06','ok idiom',[(R,"	routeAction := route.action[method]\n	actionFunc := method.action()\n\n	if routeAction != nil {\n","	routeAction, found := route.action[method]\n	actionFunc := method.action()\n\n	if found && routeAction != nil {\n")]),
]
