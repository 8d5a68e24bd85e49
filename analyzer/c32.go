package main

import (
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32",
		"The key of a value is decomposed, as a term over the type and the name it is made of, on every path that stores or looks up a value: it holds the path of the package, the name of the type (its description where it has none) and the extra name, kept apart by separators, and storing and looking up derive it from the type and names given in the same way.",
		"unnamed types built from equally named packages; names with separators in them",
		c32)
}

const reflectType = "(reflect.Type)."

// typeKey decomposes a key: the type it is made of and the extra name.
func typeKey(c *Ctx, st *eng.State, t *eng.Term) (typ, extra *eng.Term, why string) {
	ps := joined(c.U, parts(t))
	var vars []*eng.Term
	sepd := true
	kind := 0 // 1 path, 2 name
	for _, p := range ps {
		if s, ok := p.StrVal(); ok {
			if len(vars) > 0 && strings.ContainsAny(s, ":|#;,!@$%^&*()<>\x00 \t\n") {
				sepd = true
			}
			continue
		}
		if !sepd {
			return nil, nil, "its parts are not kept apart"
		}
		sepd = false
		vars = append(vars, p)
		switch {
		case callTerm(p, reflectType+"PkgPath"):
			if typ != nil && typ != p.Args[0] || kind&1 != 0 {
				return nil, nil, "it is made of two types"
			}
			typ, kind = p.Args[0], kind|1
		case callTerm(p, reflectType+"Name") || callTerm(p, reflectType+"String"):
			if typ != nil && typ != p.Args[0] || kind&2 != 0 {
				return nil, nil, "it is made of two types"
			}
			typ, kind = p.Args[0], kind|2
			if callTerm(p, reflectType+"Name") {
				empty := eqFact(st, func(y *eng.Term) bool { return y == p }, isStrFn(""))
				if empty != 0 {
					return nil, nil, "unnamed types share it"
				}
			}
		default:
			if extra != nil {
				return nil, nil, "it has more parts than the type and the name"
			}
			extra = p
		}
	}
	if kind != 3 {
		return nil, nil, "it does not hold the package and the name of the type"
	}
	return typ, extra, ""
}

func c32(c *Ctx) {
	c.ctxKeys()
	c.injectKeys()
	for rule, n := range map[string]int{"key": 8, "extra": 6, "store": 2, "found": 4, "missing": 2, "name": 6} {
		c.Min(rule, n)
	}
}

// noPointer: t is known to be no pointer.
func noPointer(st *eng.State, t *eng.Term) bool {
	return hasFact(st, func(y *eng.Term) bool {
		if y.Op != eng.OBin || y.Sym != "eq" {
			return false
		}
		for i := 0; i < 2; i++ {
			k, ok := y.Args[i].IntVal()
			if ok && k == 22 && callTerm(y.Args[1-i], reflectType+"Kind") && y.Args[1-i].Args[0] == t {
				return true
			}
		}
		return false
	}) == 0
}

// typeOfParam: t is what is left of the type of the value without pointers.
func typeOfParam(t, v *eng.Term) bool {
	for i := 0; i < 6 && callTerm(t, reflectType+"Elem"); i++ {
		t = t.Args[0]
	}
	if callTerm(t, "(reflect.Value).Type") && len(t.Args) == 1 {
		t = t.Args[0]
		for i := 0; i < 6 && (callTerm(t, "(reflect.Value).Elem") || callTerm(t, "reflect.Indirect")); i++ {
			t = t.Args[0]
		}
		return callTerm(t, "reflect.ValueOf") && bare(t.Args[0]) == bare(v)
	}
	return callTerm(t, "reflect.TypeOf") && bare(t.Args[0]) == bare(v)
}

// extraOK: the extra name is the first of those given, or empty without any.
func extraOK(st *eng.State, extra, names *eng.Term) bool {
	ln := st.U.Len(names)
	none := st.EqTerms(ln, st.U.Int(0))
	if none < 0 {
		if k := st.EvalTerm(st.U.Lt(st.U.Int(0), ln)); k >= 0 {
			none = 1 - k
		}
	}
	if extra == nil {
		return none == 1
	}
	b, i, ok := index(extra)
	if !ok || b != names {
		return false
	}
	n, isC := i.IntVal()
	return isC && n == 0 && none != 1
}

func (c *Ctx) ctxKeys() {
	keep := func(st *eng.State, e *eng.Event) bool {
		return e.Kind == "call" && (e.Name == "context.WithValue" || e.Name == "(context.Context).Value" || strings.HasPrefix(e.Name, "(reflect.Value).Set"))
	}
	depths := map[string]int{} // one or two pointers
	key := func(st *eng.State, con string, e *eng.Event, t, v, names *eng.Term) {
		c.On(st, t.Op == eng.OIface && strings.HasPrefix(t.Sym, c.P.Mod), "key", con, e.Pos, "the key may be one of another package: %v", t)
		typ, extra, why := typeKey(c, st, t)
		if why == "" && !(typeOfParam(typ, v) && noPointer(st, typ)) {
			why = "it is not made of the type of the value without its pointers"
		}
		c.On(st, why == "", "key", con, e.Pos, "values of different types or names may share a key: %s: %v", why, t)
		if why == "" {
			n := 0
			for t := typ; callTerm(t, reflectType+"Elem"); t = t.Args[0] {
				n++
			}
			depths[con] |= n
			c.On(st, extraOK(st, extra, names), "extra", con, e.Pos, "the key is not made of the name given: %v", t)
		}
	}
	with := c.Fn("utils", "CtxWithValue")
	con := eng.FuncName(with)
	for _, x := range c.Run(with, &eng.Options{Exact: true, CutAt: cutAll, Event: keep}).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		ps := st.Params()
		var w *eng.Event
		for _, e := range st.Trace {
			if e.Name == "context.WithValue" {
				c.On(st, w == nil, "store", con, e.Pos, "two values are stored")
				w = e
			}
		}
		if !c.On(st, w != nil, "store", con, x.Pos, "the value is not stored") {
			continue
		}
		c.On(st, bare(w.Args[0]) == bare(ps[0]) && bare(w.Args[2]) == bare(ps[1]) && x.Results[0] == w.Res, "store", con, w.Pos, "what is stored is not the value given in the context given: %s", w.String())
		key(st, con, w, w.Args[1], ps[1], ps[2])
	}
	find := c.Fn("utils", "CtxFindValue")
	con = eng.FuncName(find)
	kinds := map[string]bool{}
	for _, x := range c.Run(find, &eng.Options{Exact: true, CutAt: cutAll, Event: keep}).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		ps := st.Params()
		var get, set *eng.Event
		for _, e := range st.Trace {
			if e.Name == "(context.Context).Value" {
				c.On(st, get == nil && bare(e.Recv) == bare(ps[0]), "found", con, e.Pos, "another context or another value is looked at")
				get = e
			} else {
				c.On(st, set == nil && get != nil, "found", con, e.Pos, "the target is set twice or without looking")
				set = e
			}
		}
		if !c.On(st, get != nil, "found", con, x.Pos, "no value is looked for") {
			continue
		}
		key(st, con, get, get.Args[0], ps[1], ps[2])
		switch st.IsNil(get.Res) {
		case 1:
			c.On(st, set == nil && c.isVar(x.Results[0], "utils", "CtxValueNotFound"), "missing", con, x.Pos, "a missing value is not reported: %v", x.Results[0])
			continue
		case -1:
			c.On(st, false, "missing", con, x.Pos, "it is not looked at whether a value was found")
			continue
		}
		c.On(st, st.IsNil(x.Results[0]) == 1, "found", con, x.Pos, "a value found is reported as missing")
		isVal := func(t *eng.Term) bool { return callTerm(t, "reflect.ValueOf") && bare(t.Args[0]) == bare(get.Res) }
		nilPtr := hasFact(st, func(y *eng.Term) bool { return callTerm(y, "(reflect.Value).IsNil") && isVal(y.Args[0]) })
		if set == nil {
			c.On(st, nilPtr == 1, "found", con, x.Pos, "a value found is not handed over")
			continue
		}
		tar := func(t *eng.Term) bool {
			return callTerm(t, "(reflect.Value).Elem") && callTerm(t.Args[0], "reflect.ValueOf") && bare(t.Args[0].Args[0]) == bare(ps[1])
		}
		elm := func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).Elem") && isVal(t.Args[0]) }
		isPtr := func(of func(*eng.Term) bool) int {
			return hasFact(st, func(y *eng.Term) bool {
				if y.Op != eng.OBin || y.Sym != "eq" {
					return false
				}
				for i := 0; i < 2; i++ {
					k, ok := y.Args[i].IntVal()
					if ok && k == 22 && callTerm(y.Args[1-i], "(reflect.Value).Kind") && of(y.Args[1-i].Args[0]) {
						return true
					}
				}
				return false
			})
		}
		a, b := isPtr(tar), isPtr(elm)
		v := set.Args[0]
		if !c.On(st, tar(set.Recv) && strings.HasSuffix(set.Name, ".Set"), "found", con, set.Pos, "what is set is not the target: %s", set.String()) {
			continue
		}
		how := ""
		switch {
		case elm(v):
			how = "same"
			c.On(st, a >= 0 && a == b, "found", con, set.Pos, "a pointer is set from a value or a value from a pointer")
		case callTerm(v, "(reflect.Value).Addr") && elm(v.Args[0]) || isVal(v):
			how = "addr"
			c.On(st, a == 1 && b == 0, "found", con, set.Pos, "the address of the value is set where it is not asked for")
		case callTerm(v, "(reflect.Value).Elem") && elm(v.Args[0]):
			how = "elem"
			c.On(st, a == 0 && b == 1, "found", con, set.Pos, "what a value points to is set where it is not asked for")
		default:
			c.On(st, false, "found", con, set.Pos, "what is set is not the value found: %v", v)
		}
		kinds[how] = true
	}
	for _, f := range []*ssa.Function{with, find} {
		c.Check(depths[eng.FuncName(f)] == 3, "key", eng.FuncName(f), f.Pos(), "a pointer and a pointer to a pointer are not both accepted")
	}
	c.Check(kinds["same"] && kinds["addr"] && kinds["elem"], "found", con, find.Pos(), "values of another pointer level are never handed over")
}

// injectKeys: the names of providers.
func (c *Ctx) injectKeys() {
	var fns []*ssa.Function
	for _, f := range c.topFuncs("inject") {
		r := f.Signature.Results()
		if r.Len() != 1 || !isString(r.At(0).Type()) || !callsNamed(f, reflectType+"PkgPath") {
			continue
		}
		fns = append(fns, f)
	}
	c.Need(len(fns) == 1, "the function naming the provider of a type")
	nm := fns[0]
	con := eng.FuncName(nm)
	ti, ni := -1, -1
	for i, p := range nm.Params {
		if p.Type().String() == "reflect.Type" {
			ti = i
		} else if isString(p.Type()) {
			ni = i
		}
	}
	c.Need(ti >= 0 && ni >= 0, "the type and the name a provider is named by")
	for _, x := range c.Run(nm, &eng.Options{Exact: true, Event: func(*eng.State, *eng.Event) bool { return false }}).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		typ, extra, why := typeKey(c, st, x.Results[0])
		if why == "" && typ != st.Params()[ti] {
			why = "it is made of another type"
		}
		c.On(st, why == "", "key", con, x.Pos, "providers of different types or names may share a name: %s: %v", why, x.Results[0])
		c.On(st, extra != nil && extra == st.Params()[ni], "extra", con, x.Pos, "the name is not made of the name given: %v", x.Results[0])
	}
	// every use: the type is stripped of its pointers
	strip := map[*ssa.Function]bool{}
	for _, f := range c.topFuncs("inject") {
		r := f.Signature.Results()
		if r.Len() != 1 || len(f.Params) != 1 || !loops(f) || !tid(r.At(0).Type(), f.Params[0].Type()) || f.Params[0].Type().String() != "reflect.Type" && f.Params[0].Type().String() != "reflect.Value" {
			continue
		}
		ok, n := true, 0
		for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(*eng.State, *eng.Event) bool { return false }}).Exits {
			if x.Kind != "return" {
				continue
			}
			n++
			res := x.Results[0]
			np := noPointer(x.St, res) || hasFact(x.St, func(y *eng.Term) bool {
				return y.Op == eng.OBin && y.Sym == "eq" && (callTerm(y.Args[0], "(reflect.Value).Kind") && y.Args[0].Args[0] == res || callTerm(y.Args[1], "(reflect.Value).Kind") && y.Args[1].Args[0] == res)
			}) == 0
			ok = ok && np
			c.On(x.St, np, "name", eng.FuncName(f), x.Pos, "a pointer may be left")
		}
		if ok && n > 0 {
			strip[f] = true
		}
	}
	var stripped func(v ssa.Value, d int) bool
	stripped = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Call:
			if g := y.Call.StaticCallee(); g != nil {
				if strip[g] {
					return true
				}
				if eng.FuncName(g) == "(reflect.Value).Type" {
					return stripped(y.Call.Args[0], d+1)
				}
				if eng.FuncName(g) == "reflect.Indirect" {
					return false
				}
				// a helper that hands back stripped types
				if g.Pkg == nm.Pkg && g.Blocks != nil {
					all, any := true, false
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
							any = true
							all = all && stripped(r.Results[0], d+1)
						}
					}
					return any && all
				}
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				if !stripped(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			// a field that is only ever set to stripped types
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				fv := structOf(fa.X.Type()).Field(fa.Field)
				any := false
				for _, f := range c.FuncsOf("inject") {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							s, ok := in.(*ssa.Store)
							if !ok {
								continue
							}
							if a, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(a.X.Type()).Field(a.Field) == fv {
								any = true
								if !stripped(s.Val, d+1) {
									return false
								}
							}
						}
					}
				}
				return any
			}
			if al, ok := y.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && !stripped(s.Val, d+1) {
						return false
					}
				}
				return true
			}
		case *ssa.Parameter:
			// what every caller gives
			g := y.Parent()
			if g.Object() != nil && g.Object().Exported() {
				return false
			}
			i := -1
			for k, p := range g.Params {
				if p == y {
					i = k
				}
			}
			any := false
			for _, f := range c.FuncsOf("inject") {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
							any = true
							if !stripped(ci.Common().Args[i], d+1) {
								return false
							}
						}
					}
				}
			}
			return any
		}
		return false
	}
	for _, f := range c.FuncsOf("inject") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == nm {
					c.Check(stripped(ci.Common().Args[ti], 0), "name", eng.FuncName(f), ci.Pos(), "a provider is named by a type that may be a pointer here and not elsewhere")
				}
			}
		}
	}
}
