F='router_filter.go'; R='router.go'; U='router_util.go'
V=[
('bug','C07','dup kept when own',[(F,'			if v.value == f.value {\n				continue outFor','			if v.value == f.value && len(h) > 1 {\n				continue outFor')]),
('bug','C07','dup by kind',[(F,'			if v.value == f.value {\n				continue outFor','			if v.value.Type() == f.value.Type() {\n				continue outFor')]),
('bug','C07','remove first only',[(F,'			if v.value == f.value {\n				exempt = true','			if v.value == f.value && len(newFilters) == 0 {\n				exempt = true')]),
('bug','C07','prepend',[(F,'		h = append(h, f)','		h = append(filters{f}, h...)')]),
('bug','C07','exempt not own',[(R,'args.filters.append(mArgs.filters...).remove(mArgs.exempts...)','args.filters.remove(mArgs.exempts...).append(mArgs.filters...)')]),
('bug','C07','any no exempt',[(R,'args.filters.append(anyArgs.filters...).remove(anyArgs.exempts...)','args.filters.append(anyArgs.filters...)')]),
('bug','C07','all own only',[(R,'args.filters.append(allArgs.filters...).remove(allArgs.exempts...)','allArgs.filters.remove(allArgs.exempts...)')]),
('bug','C07','nested own first',[(R,'rtArgs.filters = args.filters.append(rtArgs.filters...)','rtArgs.filters = rtArgs.filters.append(args.filters...)')]),
('bug','C07','nested lost when exempt',[(R,'		rtArgs.filters = args.filters.append(rtArgs.filters...)','		if len(rtArgs.exempts) == 0 {\n			rtArgs.filters = args.filters.append(rtArgs.filters...)\n		}')]),
('bug','C07','group exempt late',[(R,'	args.filters = args.filters.remove(args.exempts...)','	if len(args.methods) > 0 {\n		args.filters = args.filters.remove(args.exempts...)\n	}')]),
('bug','C07','include as exempt',[(U,'			args.exempts = args.exempts.append(arg...)','			args.exempts = filters(arg)')]),
('bug','C07','include replaced',[(U,'			args.filters = args.filters.append(arg...)','			args.filters = filters(arg)')]),
('bug','C07','make filters skips',[(F,'		val := reflect.ValueOf(filter)\n\n		ff','		val := reflect.ValueOf(filter)\n		if len(res) > 0 && res[len(res)-1].value == val {\n			break\n		}\n\n		ff')]),
('bug','C07','make filters value of wrapper',[(F,"		f := newFilter(val, ff)","		f := newFilter(reflect.ValueOf(ff), ff)\n		_ = val")]),
('ref','C07','contains helper',[(F,"""	newFilters := make(filters, 0, len(h))
	for _, v := range h {
		exempt := false
	innerFor:
		for _, f := range values {
			if v.value == f.value {
				exempt = true
				break innerFor
			}
		}
		if !exempt {
			newFilters = append(newFilters, v)
		}
	}
	return newFilters
""","""	kept := make(filters, 0, len(h))
	for _, v := range h {
		if !filters(values).has(v) {
			kept = append(kept, v)
		}
	}
	return kept
"""),(F,"""outFor:
	for _, f := range values {
		for _, v := range h {
			if v.value == f.value {
				continue outFor
			}
		}
		h = append(h, f)
	}
	return h
}
""","""	for _, f := range values {
		if h.has(f) {
			continue
		}
		h = append(h, f)
	}
	return h
}

func (h filters) has(f *filter) bool {
	for i := range h {
		if h[i].value == f.value {
			return true
		}
	}
	return false
}
""")]),
('ref','C07','own helper',[(R,'		actFilters := args.filters.append(mArgs.filters...).remove(mArgs.exempts...)\n		r.action[method] = newRouteAction(mArgs.ctroler, act, actFilters)','		r.action[method] = newRouteAction(mArgs.ctroler, act, args.ownFilters(mArgs))'),
(R,'		actFilters := args.filters.append(allArgs.filters...).remove(allArgs.exempts...)\n		r.allRoute = newRouteAction(allArgs.ctroler, act, actFilters)','		r.allRoute = newRouteAction(allArgs.ctroler, act, args.ownFilters(allArgs))'),
(R,'// config current router\n','func (a routeArgs) ownFilters(own routeArgs) filters {\n	return a.filters.append(own.filters...).remove(own.exempts...)\n}\n\n// config current router\n')]),
('ref','C07','make filters short',[(F,"""		val := reflect.ValueOf(filter)

		ff := makeFilter(filter)
		f := newFilter(val, ff)
		res = append(res, f)
""","""		res = append(res, newFilter(reflect.ValueOf(filter), makeFilter(filter)))
""")]),
('ref','C07','make filters index',[(F,"""	res := make(filters, 0, len(handlers))
	for _, filter := range handlers {
		val := reflect.ValueOf(filter)

		ff := makeFilter(filter)
		f := newFilter(val, ff)
		res = append(res, f)
	}
	return res
""","""	res := make(filters, len(handlers))
	for i, h := range handlers {
		res[i] = newFilter(reflect.ValueOf(h), makeFilter(h))
	}
	return res
""")]),
('ref','C07','early copies',[(F,'	newFilters := make(filters, 0, len(h))\n','	if len(values) == 0 {\n		return append(filters{}, h...)\n	}\n	newFilters := make(filters, 0, len(h))\n'),(F,'outFor:\n','	if len(values) == 0 {\n		return h\n	}\noutFor:\n')]),
('ref','C07','early nil copy',[(F,'	newFilters := make(filters, 0, len(h))\n','	if len(values) == 0 {\n		return append(filters(nil), h...)\n	}\n	newFilters := make(filters, 0, len(h))\n')]),
('bug','C07','early same list',[(F,'	newFilters := make(filters, 0, len(h))\n','	if len(values) == 0 {\n		return h\n	}\n	newFilters := make(filters, 0, len(h))\n')]),
('bug','C07','copy instead of removing',[(F,'	newFilters := make(filters, 0, len(h))\n','	if len(values) == 1 {\n		return append(filters{}, h...)\n	}\n	newFilters := make(filters, 0, len(h))\n')]),
]
