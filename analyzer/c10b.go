package main

import (
	"go/types"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// described: a provider is described by what was given: its value or function,
// the type and the name it is asked for by.
func (c *Ctx) described(m *injModel) {
	u := c.U
	prov := c.Meth(m.t, "ProvideAs")
	name := "ProvideAs"
	for _, f := range c.topFuncs("inject") {
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if rs.Len() == 1 && ps.Len() == 1 && rs.At(0).Type().String() == "reflect.Value" && ps.At(0).Type().String() == "reflect.Value" {
			m.pure[eng.FuncName(f)] = true
		}
	}
	objT := c.Type("inject", "Object")
	chain := c.Type("inject", "Provide")
	part := func(n string) *types.Var {
		s := structOf(objT)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return s.Field(i)
			}
		}
		return nil
	}
	fVal, fTyp, fName := part("Value"), part("Type"), part("Name")
	c.Need(fVal != nil && fTyp != nil && fName != nil, "what is said with a provider")
	r := c.Run(prov, &eng.Options{Exact: true, CutAt: cutAll,
		Pure:   func(n string) bool { return m.pure[n] },
		Inline: func(f *ssa.Function) bool { return !m.mkName[f] && !m.flat[f] && !m.pure[eng.FuncName(f)] },
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "store" {
				switch fieldOf(e.Addr) {
				case m.name, m.val, m.pval, m.inst:
					return true
				}
			}
			return e.Kind == "mapset"
		}})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		ps := st.Params()
		if len(ps) == 4 {
			ps = ps[1:]
		}
		given, typ, names := ps[0], ps[1], ps[2]
		// what was given comes as it is or with a type and a name
		whole := 0
		for _, l := range st.Facts() {
			if t := l.T; !l.Neg && t.Op == eng.OIs && t.Args[0] == given && (tid(eng.IsType(t), objT) || tid(eng.IsType(t), types.NewPointer(objT))) {
				whole = 1
			}
		}
		of := func(t *eng.Term, f *types.Var) bool {
			return fieldOf(t) == f && eng.Any(t, func(t *eng.Term) bool { return t == given })
		}
		isVal := func(t *eng.Term) bool {
			t = bare(t)
			if whole == 1 {
				return of(t, fVal)
			}
			return t == given
		}
		// the value itself or the last of a list
		isProv := func(t *eng.Term) bool {
			t = bare(t)
			if isVal(t) {
				return true
			}
			b, i, ok := index(t)
			if !ok || b.Op != eng.OTA || !isVal(b.Args[0]) || !tid(b.Typ, chain) {
				return false
			}
			n := u.Bin("-", u.Len(b), u.Int(1), types.Typ[types.Int])
			return leProved(st, u, n, i, nil)
		}
		single := func(t *eng.Term) bool { // not one of a list
			return hasFact(st, func(f *eng.Term) bool { return f.Op == eng.OIs && isVal(f.Args[0]) && tid(eng.IsType(f), chain) }) == 0
		}
		listed := func(t *eng.Term) bool { _, _, ok := index(bare(t)); return ok }
		var set *eng.Event
		got := map[*types.Var]*eng.Event{}
		for _, e := range st.Trace {
			if e.Kind == "mapset" && fieldOf(e.Recv) == m.values {
				set = e
			}
			if e.Kind == "store" {
				got[fieldOf(e.Addr)] = e
			}
		}
		if set == nil {
			continue
		}
		ofValue := func(e *eng.Event) *eng.Term {
			if e != nil && callTerm(e.Val, "reflect.ValueOf") {
				return e.Val.Args[0]
			}
			return nil
		}
		v, f := ofValue(got[m.val]), ofValue(got[m.pval])
		switch {
		case f != nil:
			c.On(st, isProv(f), "describe", name, got[m.pval].Pos, "the function called is not the one given: %v", f)
			if !listed(f) {
				c.On(st, single(f) || eqFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OBuiltin && t.Sym == "len" && t.Args[0].Op == eng.OTA && isVal(t.Args[0].Args[0])
				}, func(t *eng.Term) bool { k, ok := t.IntVal(); return ok && k == 0 }) == 1, "describe", name, got[m.pval].Pos, "a list of providers is taken for one")
			}
		case v != nil:
			c.On(st, isVal(v), "describe", name, got[m.val].Pos, "the value handed out is not the one given: %v", v)
		default:
			c.On(st, false, "describe", name, x.Pos, "the provider has neither the value nor the function given")
			continue
		}
		if e := got[m.inst]; e != nil {
			c.On(st, isVal(e.Val) || isProv(e.Val), "describe", name, e.Pos, "the provider keeps something else: %v", e.Val)
		}
		e := got[m.name]
		if e == nil {
			// only a function without results has no name
			none := false
			for _, l := range st.Facts() {
				eng.Any(l.T, func(t *eng.Term) bool {
					if callTerm(t, "(reflect.Type).NumOut") {
						_, hi, _, ok := st.Interval(t)
						none = none || ok && hi <= 0
					}
					return false
				})
			}
			c.On(st, f != nil && none, "describe", name, x.Pos, "a provider of something has no name")
			continue
		}
		var t, extra *eng.Term
		why := "it is no key"
		for g := range m.mkName {
			if e.Val.Op == eng.OPure && e.Val.Sym == eng.FuncName(g) {
				t, extra, why = e.Val.Args[0], e.Val.Args[1], ""
			}
		}
		if why != "" {
			t, extra, why = typeKey(c, st, e.Val)
		}
		if !c.On(st, why == "", "describe", name, e.Pos, "the name of the provider: %s", why) {
			continue
		}
		// the type it is asked for by
		root := t
		for root.Op == eng.OPure && m.pure[root.Sym] && len(root.Args) == 1 {
			root = root.Args[0]
		}
		noTyp := st.IsNil(typ)
		objNil := 1
		if whole == 1 {
			objNil = hasFactNil(st, func(t *eng.Term) bool { return of(t, fTyp) })
		}
		switch {
		case callTerm(root, "reflect.TypeOf"):
			a := bare(root.Args[0])
			c.On(st, a == typ && noTyp == 0 || whole == 1 && of(a, fTyp) && noTyp == 1 && objNil == 0, "describe", name, e.Pos, "the provider is not found under the type given: %v", a)
		default:
			c.On(st, noTyp == 1 && objNil == 1, "describe", name, e.Pos, "a type was given but not used")
			if f != nil {
				ok := callTerm(root, "(reflect.Type).Out")
				if ok {
					k, is := root.Args[1].IntVal()
					ok = is && k == 0 && eng.Any(root.Args[0], func(t *eng.Term) bool { return t == f })
				}
				c.On(st, ok, "describe", name, e.Pos, "the type of a function is not that of its first result: %v", root)
			} else {
				c.On(st, eng.Any(root, func(t *eng.Term) bool { return t == v }), "describe", name, e.Pos, "the type of a value is not its own: %v", root)
			}
		}
		// the name it is asked for by
		extra = bare(extra)
		some := eqFact(st, func(t *eng.Term) bool { return t.Op == eng.OBuiltin && t.Sym == "len" && t.Args[0] == names }, func(t *eng.Term) bool { k, ok := t.IntVal(); return ok && k == 0 })
		b, i, isIdx := index(extra)
		k, isK := int64(0), false
		if isIdx {
			k, isK = i.IntVal()
		}
		s, isC := extra.StrVal()
		ok := isIdx && b == names && isK && k == 0 || some == 1 && (whole == 1 && of(extra, fName) || whole != 1 && isC && s == "")
		c.On(st, ok, "describe", name, e.Pos, "the provider is not found under the name given: %v", extra)
	}
	c.Min("describe", 6)
	// several at once: each of them, in order
	all := c.Meth(m.t, "Provide")
	yes := u.Bool(true)
	several := c.Run(all, &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(f *ssa.Function) bool { return f != prov },
		Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
			ps := st.Params()
			if list := exhausted(l); list != nil && list == ps[len(ps)-1] {
				st.SetVar("all", yes)
			}
		},
		Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if back {
				c.On(st, st.Var("one") != nil, "several", "Provide", h.Instrs[0].Pos(), "a provider of several is left out")
			}
			st.SetVar("one", nil)
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "call" && target(e) == prov {
				ps := st.Params()
				b, i, ok := index(bare(e.Args[0]))
				c.On(st, ok && b == ps[len(ps)-1] && forward(u, i) && e.Args[1].IsNil() && st.Var("one") == nil, "several", "Provide", e.Pos, "something else is provided than each of those given: %v", e.Args[0])
				if es, ok := st.Elems(e.Args[2]); !e.Args[2].IsNil() && (!ok || len(es) > 0) {
					c.On(st, false, "several", "Provide", e.Pos, "a provider is given a name")
				}
				st.SetVar("one", yes)
			}
			return false
		}})
	for _, x := range several.Exits {
		if x.Kind == "return" {
			c.On(x.St, x.St.Var("all") != nil, "several", "Provide", x.Pos, "not all providers given are provided")
		}
	}
	c.Min("several", 2)
}
