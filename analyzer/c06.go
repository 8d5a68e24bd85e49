package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06",
		"Path-sensitive dataflow over the request handler, with the found node and its registrations arbitrary: the registration of the request's own method is used whenever there is one, else the All registration when it can serve the method, else the Any registration, else not found, each step only on proof that the earlier ones do not apply; the filters that run are those of the registration whose controller is called, and the method called on a struct controller is the one registered or named after the request method.",
		"which methods an application registers; the spelling of method names clients send beyond upper-casing",
		c06)
}

type actionModel struct {
	t                         *types.Named
	controller, name, filters *types.Var
	all, any                  *types.Var
}

func (c *Ctx) actions(m *routeModel) *actionModel {
	a := &actionModel{}
	mt := m.action.Type().Underlying().(*types.Map)
	p, ok := mt.Elem().Underlying().(*types.Pointer)
	c.Need(ok, "the action registered for a method")
	a.t, _ = p.Elem().(*types.Named)
	c.Need(a.t != nil, "the action registered for a method")
	s := structOf(a.t)
	a.controller = fieldNamed(s, func(f *types.Var) bool {
		x, ok := f.Type().Underlying().(*types.Pointer)
		return ok && structOf(x) != nil
	}, "controller", "ctrl", "ctroler")
	a.name = fieldNamed(s, func(f *types.Var) bool {
		b, ok := f.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String && !insideStruct(s, f)
	}, "action", "name")
	a.filters = fieldNamed(s, func(f *types.Var) bool { return isSlice(f.Type()) && !insideStruct(s, f) }, "filter")
	isAct := func(f *types.Var) bool { return types.Identical(f.Type(), p) }
	a.all = fieldNamed(structOf(m.t), isAct, "all")
	a.any = fieldNamed(structOf(m.t), isAct, "any")
	c.Need(a.controller != nil && a.name != nil && a.filters != nil && a.all != nil && a.any != nil, "the parts of a registered action")
	return a
}

// insideStruct: f is no direct field of s.
func insideStruct(s *types.Struct, f *types.Var) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			return false
		}
	}
	return true
}

// captured lists the values reachable from a function value through what it
// captures.
func captured(st *eng.State, t *eng.Term) []*eng.Term {
	var out []*eng.Term
	seen := map[*eng.Term]bool{}
	var visit func(t *eng.Term, d int)
	visit = func(t *eng.Term, d int) {
		if t == nil || seen[t] || d > 8 {
			return
		}
		seen[t] = true
		out = append(out, t)
		t = eng.Strip(t)
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		switch t.Op {
		case eng.OClosure:
			for _, a := range t.Args {
				visit(a, d+1)
			}
		case eng.OIface, eng.OConv:
			visit(t.Args[0], d+1)
		case eng.OAlloc:
			if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
				visit(st.Load(t), d+1)
			}
		}
	}
	visit(t, 0)
	return out
}

func c06(c *Ctx) {
	m := c.routes()
	for _, f := range m.callers {
		handleRules(c, m, f, "C06")
	}
	c.Min("dispatch-method", 1)
	c.Min("dispatch-all", 1)
	c.Min("dispatch-any", 1)
	c.Min("dispatch-none", 1)
	c.Min("dispatch-filters", 1)
	c.Min("dispatch-name", 1)
}

// handleRules analyses the function that turns a request into a search and a
// handler chain; id selects which of its obligations are reported.
func handleRules(c *Ctx, m *routeModel, f *ssa.Function, id string) {
	u := c.U
	ch := c.chain()
	am := c.actions(m)
	chainFns := c.walkers(ch)
	name := "request handler"
	on := func(which string, st *eng.State, ok bool, rule, construct string, e *eng.Event, format string, a ...interface{}) bool {
		if which != id {
			return ok
		}
		return c.On(st, ok, rule, construct, e.Pos, format, a...)
	}
	s := &search{c: c, m: m}
	// the field holding the filters for requests without a route
	var notFound *types.Var
	if rv := f.Signature.Recv(); rv != nil && structOf(rv.Type()) != nil {
		notFound = fieldNamed(structOf(rv.Type()), func(v *types.Var) bool {
			return types.Identical(v.Type(), ch.filters.Type()) || isSlice(v.Type()) && types.AssignableTo(v.Type(), ch.filters.Type())
		}, "notfound")
	}
	c.Need(notFound != nil, "the filters for requests without a route")

	// the registration of the method on a node
	byMethod := func(t *eng.Term) (node, key *eng.Term) {
		cell := cellOf(t)
		if cell == nil || cell.Op != eng.OMAddr {
			return nil, nil
		}
		mc := cellOf(cell.Args[0])
		if mc == nil || mc.Op != eng.OFAddr || mc.Obj != m.action {
			return nil, nil
		}
		return mc.Args[0], cell.Args[1]
	}
	special := func(t *eng.Term, f *types.Var) *eng.Term {
		cell := cellOf(t)
		if cell == nil || cell.Op != eng.OFAddr || cell.Obj != f {
			return nil
		}
		return cell.Args[0]
	}
	// facts of a path
	type view struct {
		st       *eng.State
		found    *eng.Term // result of the search
		noMethod *eng.Term // node proved to have no registration for the method
	}
	each := func(st *eng.State, fn func(t *eng.Term, neg bool)) {
		for _, l := range st.Facts() {
			fn(l.T, l.Neg)
		}
	}
	nilFact := func(st *eng.State, pick func(*eng.Term) bool) *eng.Term {
		var r *eng.Term
		each(st, func(t *eng.Term, neg bool) {
			if t.Op == eng.OBin && t.Sym == "eq" && !neg {
				for i, a := range t.Args {
					if t.Args[1-i].IsNil() && pick(a) {
						r = a
					}
				}
			}
		})
		return r
	}
	// isFunc / has method facts about a registration: 1, 0, -1
	isFunc := func(st *eng.State, reg *eng.Term) int {
		v := -1
		each(st, func(t *eng.Term, neg bool) {
			if t.Op != eng.OBin || t.Sym != "eq" {
				return
			}
			for i, a := range t.Args {
				if k, ok := t.Args[1-i].IntVal(); ok && k == 19 && u.Mentions(a, reg) { // reflect.Func
					v = 1
					if neg {
						v = 0
					}
				}
			}
		})
		return v
	}
	hasMethod := func(st *eng.State, reg *eng.Term, name func(*eng.Term) bool) int {
		v := -1
		each(st, func(t *eng.Term, neg bool) {
			if t.Op == eng.OExtract && t.Sym == "1" && strings.Contains(t.Args[0].Sym, "MethodByName") && u.Mentions(t, reg) {
				args := t.Args[0].Args
				if len(args) > 0 && name(args[len(args)-1]) {
					v = 1
					if neg {
						v = 0
					}
				}
			}
		})
		return v
	}
	// the controller method named after the request method
	methodName := func(t *eng.Term) bool {
		up := func(x *eng.Term) bool {
			return callTerm(x, "strings.ToUpper") || fieldOf(x) != nil && fieldOf(x).Name() == "Method"
		}
		if str, ok := t.StrVal(); ok {
			return str == ""
		}
		ps := eng.ConcatParts(t)
		if len(ps) != 2 {
			return false
		}
		if ps[0].Op != eng.OSlice || !up(eng.Strip(ps[0].Args[0])) {
			return false
		}
		if hi, ok := ps[0].Args[2].IntVal(); !ok || hi != 1 {
			return false
		}
		if !callTerm(ps[1], "strings.ToLower") {
			return false
		}
		in := eng.Strip(ps[1].Args[0])
		lo, ok := int64(0), false
		if in.Op == eng.OSlice {
			lo, ok = in.Args[1].IntVal()
		}
		return ok && lo == 1 && up(eng.Strip(in.Args[0]))
	}
	fieldStr := func(t, reg *eng.Term) bool { return isFieldOf(t, reg, am.name) && t.Op == eng.OLoad }
	emptyName := func(st *eng.State, reg *eng.Term) int {
		v := -1
		each(st, func(t *eng.Term, neg bool) {
			if t.Op == eng.OBin && t.Sym == "eq" {
				for i, a := range t.Args {
					if isStr(t.Args[1-i], "") && fieldStr(a, reg) {
						v = 1
						if neg {
							v = 0
						}
					}
				}
			}
		})
		return v
	}
	allUnusable := func(st *eng.State, node *eng.Term) bool {
		if nilFact(st, func(t *eng.Term) bool { return special(t, am.all) == node }) != nil {
			return true
		}
		var reg *eng.Term
		each(st, func(t *eng.Term, neg bool) {
			eng.Any(t, func(x *eng.Term) bool {
				if special(x, am.all) == node {
					reg = x
				}
				return reg != nil
			})
		})
		return reg != nil && isFunc(st, reg) == 0 && hasMethod(st, reg, methodName) == 0 && emptyName(st, reg) == 1
	}
	anyUnusable := func(st *eng.State, node *eng.Term) bool {
		if nilFact(st, func(t *eng.Term) bool { return special(t, am.any) == node }) != nil {
			return true
		}
		var reg *eng.Term
		each(st, func(t *eng.Term, neg bool) {
			eng.Any(t, func(x *eng.Term) bool {
				if special(x, am.any) == node {
					reg = x
				}
				return reg != nil
			})
		})
		return reg != nil && isFunc(st, reg) == 0 && hasMethod(st, reg, func(n *eng.Term) bool { return fieldStr(n, reg) }) == 0
	}
	// the lookup of the method in a node's registrations found no entry
	missing := func(t *eng.Term) (node, key *eng.Term) {
		if t.Op != eng.OMOk {
			return nil, nil
		}
		mc := cellOf(t.Args[0])
		if mc == nil || mc.Op != eng.OFAddr || mc.Obj != m.action {
			return nil, nil
		}
		return mc.Args[0], t.Args[1]
	}
	noMethod := func(st *eng.State, node *eng.Term) bool {
		absent := false
		each(st, func(t *eng.Term, neg bool) {
			if n, k := missing(t); neg && n == node && isMethodKey(k) {
				absent = true
			}
		})
		if absent {
			return true
		}
		return nilFact(st, func(t *eng.Term) bool {
			n, k := byMethod(t)
			return n == node && k != nil && isMethodKey(k)
		}) != nil
	}
	// the first segment of the path
	firstSeg := func(t *eng.Term) bool {
		b, _, ok := index(t)
		return ok && eng.Any(b, func(x *eng.Term) bool { return callTerm(x, "strings.Split") })
	}
	emptyPath := func(st *eng.State) int {
		v := -1
		each(st, func(t *eng.Term, neg bool) {
			if t.Op == eng.OBin && t.Sym == "eq" {
				for i, a := range t.Args {
					if isStr(t.Args[1-i], "") && firstSeg(a) {
						v = 1
						if neg {
							v = 0
						}
					}
				}
			}
		})
		return v
	}
	// the node is the result of the search and a route, or the root for an
	// empty path
	okNode := func(st *eng.State, node *eng.Term) bool {
		if _, _, ok := s.rec(node); ok {
			return st.IsNil(node) == 0 && knownBool(st, node, m.isEnd) == 1
		}
		return emptyPath(st) == 1 && isRoot(node, st.Recv(), m)
	}
	runs := 0
	r := c.Run(f, &eng.Options{
		Exact: true,
		Inline: func(g *ssa.Function) bool {
			return !chainFns[g] && !m.cycle[g] && !loops(g) && g.Pkg != nil && g.Pkg.Pkg.Path() == c.P.Mod
		},
		Stable:     func(v *types.Var) bool { return v.Pkg() != nil && v.Pkg().Path() == c.P.Mod },
		StableCell: func(k *eng.Term) bool { return k.Op == eng.OAlloc },
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "store" && fieldOf(e.Addr) != nil && fieldOf(e.Addr).Name() == "Method" {
				v := eng.Strip(e.Val)
				on("C06", st, callTerm(v, "strings.ToUpper") && fieldOf(eng.Strip(v.Args[0])) != nil && fieldOf(eng.Strip(v.Args[0])).Name() == "Method",
					"dispatch-method", name, e, "the method of the request is replaced by %v", v)
				return false
			}
			if e.Kind != "call" {
				return false
			}
			if m.cycle[target(e)] {
				args := e.Args
				if e.Recv != nil {
					args = append([]*eng.Term{e.Recv}, args...)
				}
				p := args[m.paths]
				clean := eng.Any(p, func(t *eng.Term) bool {
					return callTerm(t, "path.Clean") && eng.Any(t, func(x *eng.Term) bool { return fieldOf(x) != nil && x.Op == eng.OLoad && fieldOf(x).Name() == "Path" })
				})
				split := p
				if p.Op == eng.OSlice {
					if lo, ok := p.Args[1].IntVal(); ok && lo == 1 {
						split = p.Args[0]
					}
				}
				on("C04", st, isRoot(args[m.node], st.Recv(), m), "handle-search", name, e, "the search does not start at the root of the route tree: %v", args[m.node])
				on("C04", st, clean && split != p && callTerm(split, "strings.Split") && isStr(split.Args[1], "/"), "handle-path", name, e, "the path searched is not the cleaned path of the request, segment by segment: %v", p)
				on("C04", st, emptyList(st, args[m.out]), "handle-search", name, e, "the search does not start without values")
				return false
			}
			if !chainFns[target(e)] || e.Recv == nil {
				return false
			}
			runs++
			base := e.Recv
			fl := st.Load(u.FAddr(base, ch.filters))
			act := st.Load(u.FAddr(base, ch.action))
			if act.IsNil() || st.IsNil(act) == 1 {
				on("C04", st, isFieldOf(fl, st.Recv(), notFound), "handle-notfound", name, e, "a request without a route does not run the not-found filters but %v", fl)
				// why nothing was found
				none := nilFact(st, func(t *eng.Term) bool { _, _, ok := s.rec(t); return ok }) != nil
				each(st, func(t *eng.Term, neg bool) {
					if n := subFieldRec(t, m.isEnd); n != nil && neg {
						if _, _, ok := s.rec(n); ok {
							none = true
						}
					}
				})
				if emptyPath(st) == 1 && nilFact(st, func(t *eng.Term) bool { return t.Op == eng.OLoad && isRoot(t, st.Recv(), m) }) != nil {
					none = true // no root at all
				}
				if none {
					on("C04", st, true, "handle-notfound", name, e, "")
					return true
				}
				var node *eng.Term
				each(st, func(t *eng.Term, neg bool) {
					if n, _ := missing(t); n != nil && node == nil && okNode(st, n) {
						node = n
					}
					for _, a := range t.Args {
						if n, k := byMethod(a); n != nil && k != nil && node == nil && okNode(st, n) {
							node = n
						}
					}
				})
				on("C04", st, node != nil, "handle-notfound", name, e, "a request is not found although the search may have found a route")
				if node != nil {
					on("C06", st, noMethod(st, node) && allUnusable(st, node) && anyUnusable(st, node), "dispatch-none", name, e, "a request is not found although the route may have a registration that serves it")
				}
				return true
			}
			// the registration whose controller the chain ends in
			var reg, nm *eng.Term
			strs := []*eng.Term{}
			for _, t := range captured(st, act) {
				if p, ok := tPtr(t); ok && types.Identical(p, am.t) {
					reg = t
				}
				if b, ok := tBasic(t); ok && b.Kind() == types.String {
					strs = append(strs, t)
				}
			}
			if len(strs) == 1 {
				nm = strs[0]
			}
			if !on("C06", st, reg != nil, "dispatch-reg", name, e, "the chain does not end in a registered action: %v", act) {
				return true
			}
			run := contents(st, c.U, fl)
			on("C06", st, isFieldOf(run, reg, am.filters) && run.Op == eng.OLoad, "dispatch-filters", name, e, "the filters that run are not those registered with the action: %v", fl)
			node, key := byMethod(reg)
			switch {
			case node != nil:
				on("C06", st, isMethodKey(key), "dispatch-method", name, e, "the registration is not looked up by the method of the request: %v", key)
				on("C06", st, st.IsNil(reg) == 0, "dispatch-method", name, e, "a registration that may not exist is used")
				on("C06", st, nm != nil && fieldStr(nm, reg), "dispatch-name", name+", own method", e, "not the registered controller method is called but %v", nm)
			case special(reg, am.all) != nil:
				node = special(reg, am.all)
				on("C06", st, noMethod(st, node), "dispatch-all", name, e, "the All registration is used although the method may have its own")
				on("C06", st, st.IsNil(reg) == 0, "dispatch-all", name, e, "a registration that may not exist is used")
				fn := isFunc(st, reg)
				named := nm != nil && methodName(nm) && (fn == 1 || hasMethod(st, reg, methodName) == 1)
				fallback := nm != nil && fieldStr(nm, reg) && fn == 0 && hasMethod(st, reg, methodName) == 0 && emptyName(st, reg) == 0
				on("C06", st, named || fallback || fn == 1, "dispatch-name", name+", All", e, "the All registration does not call the method named after the request method, or its own action when there is none: %v", nm)
			case special(reg, am.any) != nil:
				node = special(reg, am.any)
				on("C06", st, noMethod(st, node), "dispatch-any", name, e, "the Any registration is used although the method may have its own")
				on("C06", st, allUnusable(st, node), "dispatch-any", name, e, "the Any registration is used although the All registration may serve the method")
				on("C06", st, st.IsNil(reg) == 0, "dispatch-any", name, e, "a registration that may not exist is used")
				on("C06", st, isFunc(st, reg) == 1 || nm != nil && fieldStr(nm, reg), "dispatch-name", name+", Any", e, "not the registered controller method is called but %v", nm)
			default:
				on("C06", st, false, "dispatch-reg", name, e, "the chain ends in something that is not registered for the route: %v", reg)
			}
			if node != nil {
				on("C04", st, okNode(st, node), "handle-found", name, e, "the registration does not belong to a route the search found")
			}
			return true
		},
	})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		n := 0
		for _, e := range x.St.Trace {
			if chainFns[target(e)] {
				n++
				if e.Many {
					n++
				}
			}
		}
		if id == "C04" {
			c.On(x.St, n == 1, "handle-once", name, x.Pos, "%d handler chains run for one request", n)
		}
	}
	if id == "C04" {
		c.Check(runs > 0, "handle-once", name, f.Pos(), "no handler chain is run")
	}
}

// walkers: the functions stepping through a handler chain.
func (c *Ctx) walkers(ch *chainModel) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range c.invokers() {
		if rv := f.Signature.Recv(); rv != nil && f.Parent() == nil {
			if p, ok := rv.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), ch.t) {
				out[f] = true
			}
		}
	}
	return out
}

// isMethodKey: the (upper-cased) method of the request.
func isMethodKey(k *eng.Term) bool {
	k = eng.Strip(k)
	if callTerm(k, "strings.ToUpper") {
		k = eng.Strip(k.Args[0])
	}
	f := fieldOf(k)
	return f != nil && f.Name() == "Method" && f.Pkg() != nil && f.Pkg().Path() == "net/http"
}

func isRoot(node, recv *eng.Term, m *routeModel) bool {
	if node == recv {
		return true
	}
	cell := cellOf(node)
	if cell == nil {
		cell = node
	}
	return cell.Op == eng.OFAddr && cell.Args[0] == recv
}

func tPtr(t *eng.Term) (types.Type, bool) {
	if t == nil || t.Typ == nil {
		return nil, false
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func tBasic(t *eng.Term) (*types.Basic, bool) {
	if t == nil || t.Typ == nil {
		return nil, false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return b, ok
}
