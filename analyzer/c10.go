package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10",
		"Dataflow over the injector, one arbitrary iteration per loop: a lookup gives the own provider if there is one, else what the parent gives; the dependencies of a provider are looked up by the names of its parameters in order and each value is assigned to the parameter of its own position; a provider in progress is never entered again; a missing provider, the failure of a provider and a value of the wrong type end in an error the caller gets; Find and Apply store the value found, and Apply leaves out only fields that cannot be set or are not marked. Whatever is provided is described by what was given: its value or the function at the end of its list, the type and the name given for it (else the type of the value or of the first result), and the names given for the places of its parameters; of several each is provided.",
		"the values of provider functions; depth limit of fields that are not marked",
		c10)
	register("C11",
		"Typestate of the per-injector cache: a result enters it only under the non-empty name of the provider that was just called, and is what the call returned; a hit returns exactly that entry; providing a name again drops the entry before or after the new provider is stored; what Invoke is given has no name, so that it is neither found in nor stored to the cache; the mark of a provider in progress is taken back on every way out.",
		"concurrent use of one injector (an injector belongs to one request)",
		c11)
}

type injModel struct {
	t, p                        *types.Named
	values, caches, parent      *types.Var
	name, deps, val, pval, inst *types.Var
	get, invoke, assign, apply  map[*ssa.Function]bool
	find                        []*ssa.Function // exported operations
	mkName, flat                map[*ssa.Function]bool
	pure                        map[string]bool
}

func (c *Ctx) injector() *injModel {
	m := &injModel{get: map[*ssa.Function]bool{}, invoke: map[*ssa.Function]bool{}, assign: map[*ssa.Function]bool{}, apply: map[*ssa.Function]bool{}, mkName: map[*ssa.Function]bool{}, flat: map[*ssa.Function]bool{}, pure: map[string]bool{}}
	it := c.Type("inject", "Injector").Underlying().(*types.Interface)
	for _, n := range c.Impls("inject", it) {
		c.Need(m.t == nil, "a single injector type")
		m.t = n
	}
	c.Need(m.t != nil, "the injector")
	s := structOf(m.t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if mt, ok := f.Type().Underlying().(*types.Map); ok {
			if p, ok := mt.Elem().Underlying().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok {
					m.values, m.p = f, n
				}
			}
			if sl, ok := mt.Elem().Underlying().(*types.Slice); ok && sl.Elem().String() == "reflect.Value" {
				m.caches = f
			}
		} else if types.IsInterface(f.Type()) {
			m.parent = f
		}
	}
	c.Need(m.values != nil && m.caches != nil && m.parent != nil, "providers, cache and parent of the injector")
	ps := structOf(m.p)
	isV := func(f *types.Var) bool { return f.Type().String() == "reflect.Value" }
	m.name = fieldNamed(ps, isBasic(types.String), "name")
	m.deps = fieldNamed(ps, func(f *types.Var) bool { return f.Type().String() == "[]string" }, "dep")
	m.pval = fieldNamed(ps, isV, "pval", "fn", "prov")
	m.val = fieldNamed(ps, func(f *types.Var) bool { return isV(f) && f != m.pval }, "val")
	m.inst = fieldNamed(ps, func(f *types.Var) bool { return types.IsInterface(f.Type()) && f.Type().String() != "reflect.Type" }, "value", "inst")
	c.Need(m.name != nil && m.deps != nil && m.val != nil && m.pval != nil && m.inst != nil, "the parts of a provider")
	ptrP := types.NewPointer(m.p)
	isT := func(t types.Type, s string) bool { return t.String() == s }
	for _, f := range c.topFuncs("inject") {
		ps, rs := f.Signature.Params(), f.Signature.Results()
		last := func(t types.Type) bool { return rs.Len() > 0 && tid(rs.At(rs.Len()-1).Type(), t) }
		switch {
		case rs.Len() == 1 && tid(rs.At(0).Type(), ptrP) && ps.Len() >= 1 && ps.Len() <= 2 && isT(ps.At(ps.Len()-1).Type(), "string"):
			m.get[f] = true
			m.pure[eng.FuncName(f)] = true
		case callsNamed(f, "(reflect.Value).Call") && rs.Len() == 2 && last(errorType):
			m.invoke[f] = true
		case last(errorType) && rs.Len() == 1 && ps.Len() == 2 && isT(ps.At(0).Type(), "reflect.Value") && isT(ps.At(1).Type(), "reflect.Value"):
			m.assign[f] = true
		case last(errorType) && rs.Len() == 1 && callsNamed(f, "(reflect.Value).NumField", "(reflect.Type).NumField"):
			m.apply[f] = true
		case rs.Len() == 1 && isT(rs.At(0).Type(), "string") && ps.Len() == 2 && isT(ps.At(0).Type(), "reflect.Type"):
			m.mkName[f] = true
			m.pure[eng.FuncName(f)] = true
		case rs.Len() == 1 && isT(rs.At(0).Type(), "reflect.Type") && ps.Len() == 1 && isT(ps.At(0).Type(), "reflect.Type"):
			m.flat[f] = true
			m.pure[eng.FuncName(f)] = true
		}
	}
	c.Need(len(m.get) == 1 && len(m.invoke) == 1 && len(m.apply) == 1 && len(m.assign) == 1, "lookup, call, field injection and assignment of the injector")
	return m
}

// in a pure get call: the injector and the name.
func (m *injModel) got(t *eng.Term) (inj, name *eng.Term) {
	if t.Op == eng.OPure && m.pure[t.Sym] && len(t.Args) >= 2 {
		for f := range m.get {
			if eng.FuncName(f) == t.Sym {
				return t.Args[0], t.Args[len(t.Args)-1]
			}
		}
	}
	return nil, nil
}

func (m *injModel) opts(u *eng.Universe, keep func(st *eng.State, e *eng.Event) bool) *eng.Options {
	return &eng.Options{Exact: true, CutAt: cutAll,
		Pure: func(n string) bool { return m.pure[n] },
		Inline: func(f *ssa.Function) bool {
			return !m.get[f] && !m.invoke[f] && !m.assign[f] && !m.apply[f] && !m.mkName[f] && !m.flat[f]
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			if keep != nil && keep(st, e) {
				return true
			}
			f := target(e)
			return e.Kind == "call" && (m.get[f] || m.invoke[f] || m.assign[f] || m.apply[f])
		}}
}

// recvArgs gives all arguments of a call, the receiver first.
func recvArgs(e *eng.Event) []*eng.Term {
	if e.Recv != nil {
		return append([]*eng.Term{e.Recv}, e.Args...)
	}
	return e.Args
}

// mine picks the argument of the given type.
func argOf(e *eng.Event, t types.Type) *eng.Term {
	for _, a := range recvArgs(e) {
		if a.Typ != nil && tid(a.Typ, t) {
			return a
		}
	}
	return nil
}

// notMissing: a provider looked up is there, or the error says it is not.
func (c *Ctx) lookups(m *injModel, st *eng.State, res *eng.Term, name string, e *eng.Event, x *eng.Exit) {
	for _, p := range st.Trace {
		if p.Kind == "call" && m.get[target(p)] && p.Res != nil {
			ok := st.IsNil(p.Res) == 0 || res != nil && st.IsNil(p.Res) == 1 && newError(st, res)
			pos := p.Pos
			c.On(st, ok, "missing", name, pos, "a missing provider is not reported")
		}
	}
}

func c10(c *Ctx) {
	u := c.U
	m := c.injector()
	yes := u.Bool(true)
	isErr := func(e *eng.Event) bool {
		f := target(e)
		return m.invoke[f] || m.assign[f] || m.apply[f]
	}
	// lookup
	for f := range m.get {
		name := "lookup"
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			ps := st.Params()
			inj, key := ps[0], ps[len(ps)-1]
			own := func(t *eng.Term) bool {
				cell := cellOf(t)
				return cell != nil && cell.Op == eng.OMAddr && isFieldOf(cell.Args[0], inj, m.values) && cell.Args[1] == key
			}
			ownNil := -1
			for _, l := range st.Facts() {
				if l.T.Op == eng.OMOk && isFieldOf(l.T.Args[0], inj, m.values) && l.T.Args[1] == key && l.Neg {
					ownNil = 1
				}
			}
			if v := eqFact(st, own, func(t *eng.Term) bool { return t.IsNil() }); v >= 0 && ownNil < 0 {
				ownNil = v
			}
			for _, l := range st.Facts() {
				if l.T.Op == eng.OMOk && isFieldOf(l.T.Args[0], inj, m.values) && l.T.Args[1] == key && !l.Neg && ownNil < 0 {
					ownNil = 0
				}
			}
			res := x.Results[0]
			asked := false
			for _, e := range st.Trace {
				if e.Kind == "call" && e.Res != nil && e.Res == res && e.Recv != nil && isFieldOf(e.Recv, inj, m.parent) && e.Args[len(e.Args)-1] == key {
					asked = true
				}
			}
			par := eqFact(st, func(t *eng.Term) bool { return isFieldOf(t, inj, m.parent) }, func(t *eng.Term) bool { return t.IsNil() })
			switch {
			case own(res):
				c.On(st, ownNil == 0 || par == 1, "lookup", name, x.Pos, "nothing may be found although an ancestor may have a provider")
			case asked:
				c.On(st, ownNil == 1, "lookup", name, x.Pos, "the parent is asked although there may be a provider of one's own")
			case res.IsNil():
				c.On(st, ownNil == 1 && par == 1, "lookup", name, x.Pos, "nothing is found although there may be a provider")
			default:
				c.On(st, false, "lookup", name, x.Pos, "a lookup gives something else: %v", res)
			}
		}
	}
	// assignment
	for f := range m.assign {
		name := "assignment"
		r := c.Run(f, &eng.Options{Exact: true, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" && e.Name == "(reflect.Value).Set" }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			out, elm := st.Params()[0], st.Params()[1]
			res := x.Results[0]
			if newError(st, res) {
				continue
			}
			ok := hasFact(st, func(t *eng.Term) bool {
				return callTerm(t, "(reflect.Value).IsNil") && t.Args[0] == out
			}) == 1
			for _, e := range st.Trace {
				if e.Recv == elm && len(e.Args) == 1 {
					v := e.Args[0]
					fits := hasFact(st, func(t *eng.Term) bool {
						return callTerm(t, "(reflect.Type).AssignableTo") && typeOfValue(t.Args[0], v) && typeOfValue(t.Args[1], elm)
					}) == 1
					if v == out || callTerm(v, "(reflect.Value).Elem", "reflect.Indirect") && v.Args[0] == out {
						ok = ok || fits
					}
				}
			}
			c.On(st, ok && st.IsNil(res) == 1, "assign", name, x.Pos, "a value is dropped or stored without its type having been found to fit")
		}
	}
	// what a provider needs
	for f := range m.invoke {
		name := "call of a provider"
		var depIdx func(st *eng.State, t *eng.Term) *eng.Term // position of a dependency name
		depIdx = func(st *eng.State, t *eng.Term) *eng.Term {
			b, idx, ok := index(t)
			if ok && fieldOf(b) == m.deps {
				return idx
			}
			return nil
		}
		o := m.opts(u, func(st *eng.State, e *eng.Event) bool {
			switch e.Kind {
			case "mapset", "delete":
				return true
			case "call":
				if e.Name == "(reflect.Value).Call" {
					return true
				}
			}
			return false
		})
		ev := o.Event
		params := func(st *eng.State) (p, inj, status *eng.Term) {
			for _, x := range st.Params() {
				t := x.Typ
				switch {
				case tid(t, types.NewPointer(m.p)):
					p = x
				case tid(t, types.NewPointer(m.t)):
					inj = x
				default:
					if _, ok := t.Underlying().(*types.Map); ok {
						status = x
					}
				}
			}
			return
		}
		o.Branch = func(st *eng.State, l eng.Lit, in *ssa.If) {
			if b := exhausted(l); b != nil && fieldOf(noOld(u, b)) == m.deps {
				st.SetVar("all", yes)
			}
		}
		o.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if back {
				c.errKept(st, nil, "failure", name, h.Instrs[0].Pos(), isErr, nil)
				c.lookups(m, st, nil, name, nil, nil)
				c.On(st, st.Var("given") != nil, "args", name, h.Instrs[0].Pos(), "a parameter is passed over")
			}
			st.SetVar("given", nil)
		}
		o.Event = func(st *eng.State, e *eng.Event) bool {
			p, inj, status := params(st)
			switch {
			case e.Kind == "call" && m.get[target(e)]:
				a := recvArgs(e)
				idx := depIdx(st, a[len(a)-1])
				c.On(st, a[0] == inj && idx != nil && forward(u, idx), "args", name, e.Pos, "the dependencies are not looked up one by one, where the provider was asked for: %v", a[len(a)-1])
			case e.Kind == "call" && m.invoke[target(e)]:
				q := argOf(e, types.NewPointer(m.p))
				gi, gn := (*eng.Term)(nil), (*eng.Term)(nil)
				if q != nil {
					gi, gn = m.got(q)
				}
				if !c.On(st, gi == inj && gn != nil && depIdx(st, gn) != nil, "args", name, e.Pos, "another provider than that of the parameter is called: %v", q) {
					return true
				}
				c.On(st, st.IsNil(q) == 0, "missing", name, e.Pos, "a missing provider is called")
				c.On(st, argOf(e, types.NewPointer(m.t)) == inj, "args", name, e.Pos, "the provider is called for another injector")
				s2 := argOf(e, status.Typ)
				c.On(st, s2 == status, "cycle", name, e.Pos, "the providers in progress are forgotten")
				mark := func(t, of *eng.Term) bool {
					if t.Op == eng.OMOk {
						return t.Args[0] == status && isFieldOf(t.Args[1], of, m.name)
					}
					cell := cellOf(t)
					return cell != nil && cell.Op == eng.OMAddr && cell.Args[0] == status && isFieldOf(cell.Args[1], of, m.name)
				}
				c.On(st, hasFact(st, func(t *eng.Term) bool { return mark(t, q) }) == 0, "cycle", name, e.Pos, "a provider in progress may be called again")
				marked := false
				for _, x := range st.Trace {
					if x.Kind == "mapset" && x.Recv == status && isFieldOf(x.Args[0], p, m.name) {
						marked = true
					}
					if x.Kind == "delete" && x.Recv == status {
						marked = false
					}
				}
				c.On(st, marked, "cycle", name, e.Pos, "the provider is not marked as in progress while its dependencies are called")
			case e.Kind == "call" && m.assign[target(e)]:
				a := recvArgs(e)
				out, to := a[0], a[1]
				src := c.valueOf(m, st, out)
				ok := src != nil
				var in *eng.Term
				eng.Any(to, func(t *eng.Term) bool {
					if callTerm(t, "(reflect.Type).In") {
						in = t.Args[1]
						return true
					}
					return false
				})
				if ok {
					_, gn := m.got(src)
					ok = gn != nil && in != nil && depIdx(st, gn) == in
				}
				c.On(st, ok, "args", name, e.Pos, "a value is not assigned to the parameter it was looked up for: %v", out)
				st.SetVar("arg", to)
				st.SetVar("argErr", errOf(st, e))
			case e.Kind == "append":
				es, ok := st.Elems(e.Args[1])
				if !ok || len(es) != 1 || es[0].Typ == nil || es[0].Typ.String() != "reflect.Value" {
					return false
				}
				arg, err := st.Var("arg"), st.Var("argErr")
				c.On(st, arg != nil && es[0] == arg && st.IsNil(err) == 1 && st.Var("given") == nil, "args", name, e.Pos, "an argument is not the value assigned to its parameter")
				st.SetVar("given", yes)
			case e.Kind == "call" && e.Name == "(reflect.Value).Call":
				c.On(st, e.Recv != nil && isFieldOf(e.Recv, p, m.pval), "args", name, e.Pos, "another function is called")
				c.On(st, st.Var("all") != nil, "args", name, e.Pos, "the provider function is called before all its parameters were looked up")
			}
			return ev(st, e)
		}
		r := c.Run(f, o)
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			p, inj, _ := params(st)
			err := x.Results[1]
			c.errKept(st, err, "failure", name, x.Pos, isErr, nil)
			c.lookups(m, st, err, name, nil, x)
			if st.IsNil(err) != 1 {
				continue
			}
			res := x.Results[0]
			ok := false
			if cell := cellOf(res); cell != nil && cell.Op == eng.OMAddr && isFieldOf(cell.Args[0], inj, m.caches) {
				ok = true // decided with the cache
			}
			if es, is := st.Elems(res); is && len(es) == 1 && isFieldOf(es[0], p, m.val) {
				ok = true
			}
			for _, e := range st.Trace {
				if e.Kind == "call" && e.Res == res && e.Name == "(reflect.Value).Call" {
					ok = true
				}
				if e.Kind == "call" && m.invoke[target(e)] && st.Ext(e.Res, 0) == res && hasFact(st, func(t *eng.Term) bool {
					return callTerm(t, "(reflect.Value).IsValid") && c.valueOf(m, st, t.Args[0]) != nil
				}) == 0 {
					ok = true // an invalid value, for the caller to report
				}
			}
			c.On(st, ok, "result", name, x.Pos, "a provider gives something else than its value: %v", res)
		}
	}
	// Find, Exists, Invoke, Apply
	itf := c.Type("inject", "Injector").Underlying().(*types.Interface)
	for i := 0; i < itf.NumMethods(); i++ {
		mm := itf.Method(i)
		sig := mm.Type().(*types.Signature)
		if sig.Results().Len() == 0 || !tid(sig.Results().At(sig.Results().Len()-1).Type(), errorType) || !mm.Exported() {
			continue
		}
		c.injOp(m, c.Meth(m.t, mm.Name()), mm.Name(), isErr)
	}
	for f := range m.apply {
		c.injFields(m, f, isErr)
	}
	c.Min("lookup", 3)
	c.Min("assign", 2)
	c.Min("cycle", 3)
	c.Min("missing", 4)
	c.Min("failure", 5)
	c.Min("args", 6)
	c.Min("found", 1)
	c.Min("field", 3)
	c.depNames(m)
	c.described(m)
	c.Min("names", 2)
}

// typeOfValue: t is the type of value v.
func typeOfValue(t, v *eng.Term) bool {
	if callTerm(t, "(reflect.Value).Type") && t.Args[0] == v {
		return true
	}
	if callTerm(v, "(reflect.Value).Elem", "reflect.Indirect") && callTerm(t, "(reflect.Type).Elem") {
		return typeOfValue(t.Args[0], v.Args[0])
	}
	return false
}

// valueOf: t is the first result of calling a provider: gives the provider.
func (c *Ctx) valueOf(m *injModel, st *eng.State, t *eng.Term) *eng.Term {
	b, idx, ok := index(t)
	if !ok {
		return nil
	}
	if k, is := idx.IntVal(); !is || k != 0 {
		return nil
	}
	for _, e := range st.Trace {
		if e.Kind == "call" && m.invoke[target(e)] && st.Ext(e.Res, 0) == b {
			return argOf(e, types.NewPointer(m.p))
		}
	}
	if b.Op == eng.OExtract && b.Sym == "0" && b.Args[0].Op == eng.ORet {
		for f := range m.invoke {
			if strings.HasPrefix(b.Args[0].Sym, eng.FuncName(f)+"@") {
				for _, a := range b.Args[0].Args {
					if a.Typ != nil && tid(a.Typ, types.NewPointer(m.p)) {
						return a
					}
				}
			}
		}
	}
	return nil
}

// injOp: the operations of an injector report every failure and give the value
// found.
func (c *Ctx) injOp(m *injModel, f *ssa.Function, op string, isErr func(e *eng.Event) bool) {
	name := op
	o := m.opts(c.U, nil)
	r := c.Run(f, o)
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		err := x.Results[len(x.Results)-1]
		c.errKept(st, err, "failure", name, x.Pos, isErr, nil)
		c.lookups(m, st, err, name, nil, x)
		if st.IsNil(err) == 0 || newError(st, err) {
			continue
		}
		switch op {
		case "Find":
			ok := false
			for _, e := range st.Trace {
				if e.Kind != "call" {
					continue
				}
				if m.assign[target(e)] {
					a := recvArgs(e)
					q := c.valueOf(m, st, a[0])
					if q == nil {
						continue
					}
					_, gn := m.got(q)
					ok = gn != nil && eng.Any(gn, func(t *eng.Term) bool { return t == st.Params()[1] }) &&
						(len(st.Params()) < 3 || eng.Any(gn, func(t *eng.Term) bool { return t == st.Params()[2] }) || st.EvalTerm(c.U.Eq(c.U.Len(st.Params()[2]), c.U.Int(0))) == 1 || st.EvalTerm(c.U.Lt(c.U.Int(0), c.U.Len(st.Params()[2]))) == 0) &&
						callTerm(a[1], "(reflect.Value).Elem", "reflect.Indirect") && eng.Any(a[1], func(t *eng.Term) bool { return t == st.Params()[1] })
					c.On(st, ok, "found", name, e.Pos, "the value found is not that of the type asked for, or is not stored where it was asked for")
				}
				if m.invoke[target(e)] { // a provider without results
					out := st.Ext(e.Res, 0)
					ok = ok || st.EvalTerm(c.U.Eq(c.U.Len(out), c.U.Int(0))) == 1
				}
			}
			c.On(st, ok, "found", name, x.Pos, "nothing is stored although no error is reported")
		case "Invoke":
			ok := false
			for _, e := range st.Trace {
				if e.Kind == "call" && m.invoke[target(e)] && st.Ext(e.Res, 0) == x.Results[0] {
					ok = true
				}
			}
			c.On(st, ok, "found", name, x.Pos, "the results are not those of the function called")
		case "Apply":
			ok := false
			for _, e := range st.Trace {
				if e.Kind == "call" && m.apply[target(e)] {
					for _, a := range recvArgs(e) {
						ok = ok || a == st.Params()[1]
					}
				}
			}
			ok = ok || m.apply[f]
			c.On(st, ok, "found", name, x.Pos, "the fields of the value are not looked at")
		}
	}
}

// injFields: every marked field gets the value of its type and name.
func (c *Ctx) injFields(m *injModel, f *ssa.Function, isErr func(e *eng.Event) bool) {
	u := c.U
	name := "field injection"
	typeErr := func(st *eng.State, e *eng.Event, err *eng.Term) bool {
		if !m.apply[target(e)] {
			return false
		}
		return hasFact(st, func(t *eng.Term) bool {
			return t.Op == eng.OIs && t.Args[0] == err || callTerm(t, "errors.As", "errors.Is") && t.Args[0] == err
		}) == 1
	}
	tag := func(t *eng.Term) bool {
		return callTerm(t, "(reflect.StructTag).Get") || t.Op == eng.OExtract && callTerm(t.Args[0], "(reflect.StructTag).Lookup")
	}
	isTag := func(t *eng.Term) bool {
		f := fieldOf(t)
		return f != nil && f.Name() == "Tag" && f.Pkg() != nil && f.Pkg().Path() == "reflect"
	}
	fieldIdx := func(t *eng.Term) *eng.Term {
		var idx *eng.Term
		eng.Any(t, func(y *eng.Term) bool {
			if callTerm(y, "(reflect.Value).Field", "(reflect.Type).Field") {
				idx = y.Args[1]
				return true
			}
			return false
		})
		return idx
	}
	o := m.opts(u, nil)
	ev := o.Event
	o.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if !back {
			return
		}
		pos := h.Instrs[0].Pos()
		c.errKept(st, nil, "failure", name, pos, isErr, typeErr)
		c.lookups(m, st, nil, name, nil, nil)
		looked, set, none := false, false, false
		for _, e := range st.Trace {
			if e.Kind != "call" {
				continue
			}
			if m.get[target(e)] {
				looked = true
			}
			if m.assign[target(e)] {
				set = true
			}
			if m.invoke[target(e)] {
				none = st.EvalTerm(u.Eq(u.Len(st.Ext(e.Res, 0)), u.Int(0))) == 1
			}
		}
		if looked {
			c.On(st, set || none, "field", name, pos, "a marked field is left as it is")
			return
		}
		ok := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).CanSet") }) == 0
		ok = ok || eqFact(st, tag, isStrFn("-")) == 1
		ok = ok || eqFact(st, isTag, isStrFn("inject")) == 0 && eqFact(st, tag, isStrFn("")) == 1
		c.On(st, ok, "field", name, pos, "a field that may be marked is passed over")
	}
	o.Event = func(st *eng.State, e *eng.Event) bool {
		if e.Kind == "call" && m.assign[target(e)] {
			a := recvArgs(e)
			q := c.valueOf(m, st, a[0])
			ok := false
			if q != nil {
				_, gn := m.got(q)
				i := fieldIdx(a[1])
				ok = gn != nil && i != nil && forward(u, i)
				if ok {
					typed, named := false, false
					eng.Any(gn, func(y *eng.Term) bool {
						typed = typed || callTerm(y, "(reflect.Value).Type", "(reflect.Type).Field") && fieldIdx(y) == i && !isTag(y)
						named = named || tag(y) && fieldIdx(y) == i
						return false
					})
					ok = typed && (named || eqFact(st, tag, isStrFn("")) == 1)
				}
			}
			c.On(st, ok, "field", name, e.Pos, "a field gets another value than that of its own type and name")
		}
		return ev(st, e)
	}
	r := c.Run(f, o)
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		err := x.Results[0]
		c.errKept(st, err, "failure", name, x.Pos, isErr, typeErr)
		c.lookups(m, st, err, name, nil, x)
		if st.IsNil(err) == 1 {
			ok := hasFact(st, func(t *eng.Term) bool {
				return t.Op == eng.OBin && t.Sym == "lt" && eng.Any(t.Args[1], func(y *eng.Term) bool { return callTerm(y, "(reflect.Value).NumField", "(reflect.Type).NumField") })
			}) == 0
			ok = ok || eqFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).NumField", "(reflect.Type).NumField") }, func(t *eng.Term) bool { k, is := t.IntVal(); return is && k == 0 }) == 1
			c.On(st, ok, "field", name, x.Pos, "the fields are not all looked at")
		}
	}
}

// depNames: the names dependencies are looked up by are those of the types of
// the parameters, in order.
func (c *Ctx) depNames(m *injModel) {
	u := c.U
	yes := u.Bool(true)
	n := 0
	for _, f := range c.topFuncs("inject") {
		if !stores(f, func(v *types.Var) bool { return v == m.deps }) {
			continue
		}
		n++
		name := "description of a provider"
		o := m.opts(u, nil)
		num := func(t *eng.Term) bool { return callTerm(t, "(reflect.Type).NumIn") }
		o.Branch = func(st *eng.State, l eng.Lit, in *ssa.If) {
			t := l.T
			if t.Op == eng.OBin && (t.Sym == "lt" && l.Neg && num(t.Args[1]) || t.Sym == "eq" && !l.Neg && (num(t.Args[0]) || num(t.Args[1]))) {
				st.SetVar("all", yes)
			}
		}
		o.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if back && callsIn(eng.LoopBody(h), "(reflect.Type).In") {
				c.On(st, st.Var("dep") != nil, "names", name, h.Instrs[0].Pos(), "a parameter has no dependency")
			}
			st.SetVar("dep", nil)
		}
		dep := func(st *eng.State, v, at *eng.Term, e *eng.Event) {
			var in *eng.Term
			for g := range m.mkName {
				if v.Op == eng.OPure && v.Sym == eng.FuncName(g) && eng.Any(v.Args[0], func(t *eng.Term) bool {
					if callTerm(t, "(reflect.Type).In") {
						in = t.Args[1]
						return true
					}
					return false
				}) {
				}
			}
			if in != nil && v.Op == eng.OPure && len(v.Args) == 2 {
				c.On(st, m.depGiven(st, v.Args[1], in), "names", name, e.Pos, "a dependency is not looked up under the name given for its place: %v", v.Args[1])
			}
			ok := in != nil && forward(u, in) && (at == nil || at == in)
			c.On(st, ok, "names", name, e.Pos, "a dependency is not named after the type of its own parameter: %v", v)
			c.On(st, st.Var("dep") == nil, "names", name, e.Pos, "a parameter has several dependencies")
			st.SetVar("dep", yes)
		}
		o.Event = func(st *eng.State, e *eng.Event) bool {
			switch e.Kind {
			case "append":
				es, ok := st.Elems(e.Args[1])
				if ok && len(es) == 1 && es[0].Typ != nil && es[0].Typ.String() == "string" {
					dep(st, es[0], nil, e)
				}
			case "store":
				if e.Addr.Op == eng.OIAddr && e.Val.Typ != nil && e.Val.Typ.String() == "string" && e.Addr.Args[0].Typ != nil && e.Addr.Args[0].Typ.String() == "[]string" {
					if _, isConst := e.Val.StrVal(); !isConst {
						dep(st, e.Val, e.Addr.Args[1], e)
					}
				}
				if fieldOf(e.Addr) == m.deps {
					c.On(st, st.Var("all") != nil, "names", name, e.Pos, "the dependencies are stored before all parameters were looked at")
				}
			}
			return false
		}
		c.Run(f, o)
	}
	c.Need(n > 0, "the function describing a provider")
}

// depGiven: the extra name of a dependency is the one given for its place in
// the first entry of a list, or none.
func (m *injModel) depGiven(st *eng.State, t, in *eng.Term) bool {
	t = bare(t)
	var table *eng.Term
	for _, l := range st.Facts() {
		if l.T.Op != eng.OIs || l.Neg {
			continue
		}
		if mt, ok := eng.IsType(l.T).Underlying().(*types.Map); ok && mt.Elem().String() == "string" {
			table = l.T.Args[0]
		}
	}
	if s, ok := t.StrVal(); ok {
		return s == "" && table == nil
	}
	if table == nil {
		return false
	}
	_, i, ok := index(table)
	if !ok {
		return false
	}
	k, isK := i.IntVal()
	return isK && k == 0 && t.Op == eng.OLoad && t.Args[0].Op == eng.OMAddr && t.Args[0].Args[1] == in && eng.Any(t.Args[0].Args[0], func(x *eng.Term) bool { return x == table })
}

func c11(c *Ctx) {
	u := c.U
	m := c.injector()
	for f := range m.invoke {
		name := "call of a provider"
		o := m.opts(u, func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "mapset" || e.Kind == "delete" || e.Kind == "call" && e.Name == "(reflect.Value).Call"
		})
		ev := o.Event
		own := func(st *eng.State) (p, inj *eng.Term) {
			for _, x := range st.Params() {
				if tid(x.Typ, types.NewPointer(m.p)) {
					p = x
				} else if tid(x.Typ, types.NewPointer(m.t)) {
					inj = x
				}
			}
			return
		}
		o.Event = func(st *eng.State, e *eng.Event) bool {
			p, inj := own(st)
			if e.Kind == "mapset" && fieldOf(e.Recv) == m.caches {
				var last *eng.Event
				for _, x := range st.Trace {
					if x.Kind == "call" && x.Name == "(reflect.Value).Call" {
						last = x
					}
				}
				c.On(st, last != nil && e.Val == last.Res, "cache-store", name, e.Pos, "something else than the results of the call is cached: %v", e.Val)
				c.On(st, isFieldOf(e.Recv, inj, m.caches) && isFieldOf(e.Args[0], p, m.name), "cache-store", name, e.Pos, "the results are cached elsewhere than under the name of the provider: %v", e.Args[0])
				c.On(st, eqFact(st, func(t *eng.Term) bool { return isFieldOf(t, p, m.name) }, isStrFn("")) == 0, "cache-store", name, e.Pos, "the results of a function without a name may be cached")
			}
			return ev(st, e)
		}
		r := c.Run(f, o)
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			p, inj := own(st)
			called, stored := 0, false
			marked := map[*eng.Term]*eng.Term{}
			for _, e := range st.Trace {
				switch {
				case e.Kind == "call" && e.Name == "(reflect.Value).Call":
					called++
				case e.Kind == "mapset" && fieldOf(e.Recv) == m.caches:
					stored = true
				case e.Kind == "mapset":
					marked[e.Recv] = e.Args[0]
				case e.Kind == "delete":
					if marked[e.Recv] == e.Args[0] {
						delete(marked, e.Recv)
					}
				}
			}
			c.On(st, len(marked) == 0, "release", name, x.Pos, "a provider stays marked as being in progress")
			c.On(st, called <= 1, "once", name, x.Pos, "the provider function is called twice")
			if called > 0 {
				c.On(st, stored || eqFact(st, func(t *eng.Term) bool { return isFieldOf(t, p, m.name) }, isStrFn("")) == 1, "cache-store", name, x.Pos, "the results of a named provider are not cached")
			}
			hit := hasFact(st, func(t *eng.Term) bool {
				return t.Op == eng.OMOk && isFieldOf(t.Args[0], inj, m.caches) && isFieldOf(t.Args[1], p, m.name)
			})
			entry := func(t *eng.Term) bool {
				cell := cellOf(t)
				return cell != nil && cell.Op == eng.OMAddr && isFieldOf(cell.Args[0], inj, m.caches) && isFieldOf(cell.Args[1], p, m.name)
			}
			if hit < 0 {
				if v := eqFact(st, entry, func(t *eng.Term) bool { return t.IsNil() }); v >= 0 {
					hit = 1 - v
				}
			}
			if cell := cellOf(x.Results[0]); cell != nil && cell.Op == eng.OMAddr && fieldOf(cell.Args[0]) == m.caches {
				c.On(st, entry(x.Results[0]), "cache-hit", name, x.Pos, "what another injector cached, or another provider gave, is used: %v", x.Results[0])
			}
			if hit == 1 {
				c.On(st, called == 0 && entry(x.Results[0]), "cache-hit", name, x.Pos, "a cached provider is called again, or gives something else than what was cached")
			} else if called > 0 {
				c.On(st, hit == 0, "cache-hit", name, x.Pos, "a provider function is called without the cache having been looked at")
			}
		}
	}
	// providing
	prov := c.Meth(m.t, "ProvideAs")
	r := c.Run(prov, &eng.Options{Exact: true, CutAt: cutAll,
		Pure: func(n string) bool { return m.pure[n] },
		Inline: func(f *ssa.Function) bool {
			return f.Signature.Results().Len() == 0 || !tid(f.Signature.Results().At(0).Type(), types.NewPointer(m.p))
		},
		Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "mapset" || e.Kind == "delete" }})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		inj := st.Recv()
		var set, del *eng.Event
		for _, e := range st.Trace {
			if e.Kind == "mapset" && isFieldOf(e.Recv, inj, m.values) {
				set = e
			}
			if e.Kind == "delete" && isFieldOf(e.Recv, inj, m.caches) {
				del = e
			}
		}
		if !c.On(st, set != nil, "provide", "ProvideAs", x.Pos, "the provider is not stored") {
			continue
		}
		nm := func(t *eng.Term) bool { return isFieldOf(t, set.Val, m.name) }
		c.On(st, nm(set.Args[0]), "provide", "ProvideAs", set.Pos, "the provider is stored under another name: %v", set.Args[0])
		c.On(st, del != nil && (nm(del.Args[0]) || del.Args[0] == set.Args[0]), "provide", "ProvideAs", x.Pos, "what was cached for the name is kept")
	}
	// Invoke
	inv := c.Meth(m.t, "Invoke")
	o := m.opts(u, nil)
	o.Inline = func(f *ssa.Function) bool { return false }
	ev := o.Event
	o.Event = func(st *eng.State, e *eng.Event) bool {
		if e.Kind == "call" && m.invoke[target(e)] {
			p := argOf(e, types.NewPointer(m.p))
			c.On(st, p != nil && isStr(st.Load(u.FAddr(p, m.name)), ""), "invoke", "Invoke", e.Pos, "the function may have a name and be found in the cache")
		}
		return ev(st, e)
	}
	c.Run(inv, o)
	// nobody else writes the cache
	for _, f := range c.topFuncs("inject") {
		if m.invoke[f] || f == prov {
			continue
		}
		w := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.MapUpdate); ok {
					if l, ok := x.Map.(*ssa.UnOp); ok {
						if a, ok := l.X.(*ssa.FieldAddr); ok && structOf(a.X.Type()) != nil && structOf(a.X.Type()).Field(a.Field) == m.caches {
							w = true
						}
					}
				}
			}
		}
		if w && len(callersOf(c, f)) > 0 {
			ok := true
			for _, g := range callersOf(c, f) {
				ok = ok && m.invoke[g]
			}
			c.Check(ok, "cache-store", eng.FuncName(f), f.Pos(), "the cache is written elsewhere than where providers are called")
		} else if w {
			c.Check(false, "cache-store", eng.FuncName(f), f.Pos(), "the cache is written elsewhere than where providers are called")
		}
	}
	c.Min("cache-store", 3)
	c.Min("cache-hit", 2)
	c.Min("provide", 2)
	c.Min("invoke", 1)
	c.Min("release", 2)
}

func callersOf(c *Ctx, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range c.P.Funcs {
		if callees(g)[f] {
			out = append(out, outer(g))
		}
	}
	return out
}

// callsIn: one of the blocks calls a function with one of the names.
func callsIn(body map[*ssa.BasicBlock]bool, names ...string) bool {
	for b := range body {
		for _, in := range b.Instrs {
			x, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n := ""
			if x.Common().IsInvoke() {
				n = x.Common().Method.FullName()
			} else if h := x.Common().StaticCallee(); h != nil {
				n = eng.FuncName(h)
			}
			for _, w := range names {
				if n == w {
					return true
				}
			}
		}
	}
	return false
}
