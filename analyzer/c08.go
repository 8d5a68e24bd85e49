package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08",
		"Dataflow of one request through the function that calls the controller, one arbitrary iteration per loop: the method called belongs to a value made by reflect.New of the controller's type in this very request, into which the registered controller was copied when it has a value, and whose fields were injected without an error; nothing else than values made in the request is written to by reflection; the i-th argument has the type of the i-th parameter of the method that is called and is the converted i-th path value, or the zero value exactly when there is no such path value or it cannot be converted; a function controller is invoked by the request's injector; what the controller returned is what is provided as its output, and failures end in a panic.",
		"the conversions themselves (see the conversion property); what the controller does",
		c08)
}

// ownCalls: f itself calls one of the functions.
func ownCalls(f *ssa.Function, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok {
				n := ""
				if x.Common().IsInvoke() {
					n = x.Common().Method.FullName()
				} else if h := x.Common().StaticCallee(); h != nil {
					n = eng.FuncName(h)
				}
				for _, w := range names {
					if n == w {
						return true
					}
				}
			}
		}
	}
	return false
}

// anyCalls: f or what it calls in its package calls one of the functions.
func anyCalls(f *ssa.Function, names ...string) bool {
	if ownCalls(f, names...) {
		return true
	}
	for g := range reachable(f) {
		if ownCalls(g, names...) {
			return true
		}
	}
	return false
}

type ctlModel struct {
	conv, ind      map[string]bool // string to value; dereferencing
	t              *types.Named
	value, val, rt *types.Var
}

// isNew: a value made by reflect.New in this run.
func isNew(t *eng.Term) bool {
	return t.Op == eng.ORet && strings.HasPrefix(t.Sym, "reflect.New@") || callTerm(t, "reflect.New")
}

func (c *Ctx) controller() *ctlModel {
	m := &ctlModel{conv: map[string]bool{}, ind: map[string]bool{}}
	for _, f := range c.topFuncs("") {
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if rs.Len() == 1 && ps.Len() == 2 && rs.At(0).Type().String() == "reflect.Value" && ps.At(1).Type().String() == "reflect.Type" {
			if b, ok := ps.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				m.conv[eng.FuncName(f)] = true
			}
		}
		if rs.Len() == 1 && ps.Len() == 1 && tid(rs.At(0).Type(), ps.At(0).Type()) && (rs.At(0).Type().String() == "reflect.Value" || rs.At(0).Type().String() == "reflect.Type") {
			m.ind[eng.FuncName(f)] = true
		}
	}
	c.Need(len(m.conv) == 1, "conversion of a path value to the type of a parameter")
	// the controller: a struct made from one value
	for _, f := range c.topFuncs("") {
		rs, ps := f.Signature.Results(), f.Signature.Params()
		if rs.Len() != 1 || ps.Len() != 1 || !types.IsInterface(ps.At(0).Type()) || f.Signature.Recv() != nil {
			continue
		}
		t := rs.At(0).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || structOf(n) == nil {
			continue
		}
		s := structOf(n)
		var rv *types.Var
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Type().String() == "reflect.Value" {
				rv = s.Field(i)
			}
		}
		if rv == nil {
			continue
		}
		r := c.Run(f, &eng.Options{Pure: func(n string) bool { return m.conv[n] || m.ind[n] }, Inline: func(g *ssa.Function) bool { return !m.ind[eng.FuncName(g)] }, Event: func(*eng.State, *eng.Event) bool { return false }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			v := x.Results[0]
			if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
				v = st.Load(v)
			}
			in := st.Params()[0]
			for i := 0; i < s.NumFields(); i++ {
				fv := c.U.Field(v, s.Field(i))
				switch {
				case fv == in:
					m.value = s.Field(i)
				case callTerm(fv, "reflect.ValueOf") && fv.Args[0] == in:
					m.val = s.Field(i)
				case fv.Op == eng.OPure && m.ind[fv.Sym] && s.Field(i).Type().String() == "reflect.Type":
					m.rt = s.Field(i)
				}
			}
			m.t = n
		}
	}
	c.Need(m.t != nil && m.value != nil && m.val != nil && m.rt != nil, "the registered controller")
	return m
}

func c08(c *Ctx) {
	u := c.U
	m := c.controller()
	yes := u.Bool(true)
	rtype := func(t types.Type) bool { return t.String() == "reflect.Type" }
	rval := func(t types.Type) bool { return t.String() == "reflect.Value" }
	sliceOf := func(t types.Type, el func(types.Type) bool) bool {
		if t == nil {
			return false
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && el(s.Elem())
	}
	for _, f := range c.FuncsOf("") {
		if f.Parent() == nil || !anyCalls(f, "(reflect.Value).Call") {
			continue
		}
		name := "controller call"
		// the method whose parameters t (a type) belongs to: its position
		var typeAt func(st *eng.State, t *eng.Term) (idx *eng.Term, off int64, mt *eng.Term)
		typeAt = func(st *eng.State, t *eng.Term) (*eng.Term, int64, *eng.Term) {
			if callTerm(t, "(reflect.Type).In") {
				mt := t.Args[0]
				if callTerm(mt, "(reflect.Value).Type") {
					return t.Args[1], 0, mt.Args[0]
				}
				return t.Args[1], 1, mt
			}
			if b, idx, ok := index(t); ok && sliceOf(b.Typ, rtype) && (phiOf(noOld(u, b)) != nil || eng.Root(noOld(u, b)).Op == eng.OAlloc) {
				return idx, 0, noOld(u, b)
			}
			return nil, 0, nil
		}
		// position of an argument of this type, counted from the first parameter
		pos := func(st *eng.State, t *eng.Term) *eng.Term {
			idx, off, _ := typeAt(st, t)
			if idx == nil {
				return nil
			}
			v, ok := firstIdx(u, idx)
			if !ok || v != off {
				return nil
			}
			return idx
		}
		// samePos: two indices of the same round, i for the parameter without
		// the receiver
		samePos := func(typ, i *eng.Term, off int64) bool {
			a, b := eng.Lin(noOld(u, typ)), eng.Lin(noOld(u, i))
			if len(a.Coeff) != 1 || len(b.Coeff) != 1 {
				return false
			}
			for k, v := range a.Coeff {
				if b.Coeff[k] != v {
					return false
				}
			}
			return a.C-off == b.C
		}
		isParams := func(t *eng.Term) bool { // list of path values
			s, ok := t.Typ.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			e, ok := s.Elem().Underlying().(*types.Map)
			return ok && basicT(e.Elem(), types.String)
		}
		// path value: element of a map of the list, with its position
		var valueAt func(st *eng.State, t *eng.Term) *eng.Term
		valueAt = func(st *eng.State, t *eng.Term) *eng.Term {
			cell := cellOf(t)
			if cell != nil && cell.Op == eng.OMAddr {
				if b, idx, ok := index(cell.Args[0]); ok && isParams(b) {
					return idx
				}
			}
			return nil
		}
		off := func(st *eng.State, t *eng.Term) int64 { _, o, _ := typeAt(st, t); return o }
		// argument: what is put at the next position
		arg := func(st *eng.State, v *eng.Term, at *eng.Term, pos0 func(t *eng.Term) *eng.Term, e *eng.Event) {
			st.SetVar("given", yes)
			bad := func(why string) { c.On(st, false, "args", name, e.Pos, "%s: %v", why, v) }
			conv := st.Var("conv") // conversion of this round
			kindPtr := func(T *eng.Term) int {
				return eqFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Type).Kind") && t.Args[0] == T }, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == 22 })
			}
			valid := func(x *eng.Term) int {
				return hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).IsValid") && t.Args[0] == x })
			}
			fits := func(x, T *eng.Term) int {
				return hasFact(st, func(t *eng.Term) bool {
					return callTerm(t, "(reflect.Type).AssignableTo") && typeOfValue(t.Args[0], x) && callTerm(t.Args[1], "(reflect.Type).Elem") && t.Args[1].Args[0] == T
				})
			}
			var T *eng.Term
			zero := false
			switch {
			case v.Op == eng.OPure && m.conv[v.Sym]:
				T = v.Args[1]
				if !c.On(st, valid(v) == 1 && kindPtr(T) == 0, "args", name, e.Pos, "a converted value may be passed without being one, or for a pointer") {
					return
				}
			case callTerm(v, "(reflect.Value).Elem") && isNew(v.Args[0]):
				T, zero = v.Args[0].Args[0], true
			case callTerm(v, "reflect.Zero"):
				T, zero = v.Args[0], true
			case isNew(v) || callTerm(v, "(reflect.Value).Addr"):
				// pointer to a converted value
				base := v
				set := false
				for _, x := range st.Trace {
					if x.Kind == "call" && x.Name == "(reflect.Value).Set" && callTerm(x.Recv, "(reflect.Value).Elem") && x.Recv.Args[0] == base && conv != nil && x.Args[0] == conv {
						set = true
					}
				}
				if !set || !callTerm(v.Args[0], "(reflect.Type).Elem") {
					bad("a pointer is passed that does not lead to the converted path value")
					return
				}
				T = v.Args[0].Args[0]
				if !c.On(st, T == conv.Args[1] && kindPtr(T) == 1 && valid(conv) == 1, "args", name, e.Pos, "the pointer passed is of another type than the parameter") {
					return
				}
			default:
				bad("an argument of unknown origin")
				return
			}
			idx := pos(st, T)
			if idx == nil {
				bad("the argument is not of the type of the parameter at its position")
				return
			}
			o := off(st, T)
			if at != nil && !samePos(idx, at, o) {
				bad("the argument is put at another position than that of its parameter")
			}
			if zero {
				// only when there is nothing to convert
				none := false
				for _, l := range st.Facts() {
					if b := exhausted(l); b != nil && isParams(b) {
						if l.T.Op == eng.OBin && l.T.Sym == "lt" && samePos(idx, l.T.Args[0], o) {
							none = true
						}
					}
					if l.T.Op == eng.OBin && l.T.Sym == "eq" && exhausted(l) != nil && isParams(exhausted(l)) {
						for i := 0; i < 2; i++ {
							if samePos(idx, l.T.Args[i], o) {
								none = true
							}
						}
					}
				}
				if conv != nil && !none {
					T2 := conv.Args[1]
					none = T2 == T && (valid(conv) == 0 || kindPtr(T) == 1 && fits(conv, T) == 0)
				}
				c.On(st, none, "args", name, e.Pos, "a parameter gets the zero value although there may be a path value for it")
			}
		}
		type takes struct {
			st   *eng.State
			idx  *eng.Term
			same bool
			v    *eng.Term
		}
		taken := map[*ssa.Phi][]takes{}
		type use struct {
			ph  *ssa.Phi
			idx *eng.Term
			off int64
			e   *eng.Event
		}
		var uses []use
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Pure:   func(n string) bool { return m.conv[n] || m.ind[n] },
			Inline: func(g *ssa.Function) bool { n := eng.FuncName(g); return !m.conv[n] && !m.ind[n] },
			Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
				t := l.T
				if t.Op != eng.OBin {
					return
				}
				// the parameters are exhausted
				if b := exhausted(l); b != nil && sliceOf(b.Typ, rtype) {
					st.SetVar("allTypes", yes)
				}
				num := func(x *eng.Term) (int64, bool) { // NumIn less what
					lin := eng.Lin(x)
					if len(lin.Coeff) != 1 {
						return 0, false
					}
					for k, v := range lin.Coeff {
						if v == 1 && callTerm(k, "(reflect.Type).NumIn") {
							o := int64(1)
							if callTerm(k.Args[0], "(reflect.Value).Type") {
								o = 0
							}
							return lin.C + o, true
						}
					}
					return 0, false
				}
				if t.Sym == "lt" && l.Neg {
					if o, ok := num(t.Args[1]); ok {
						// i >= NumIn (with or without the receiver)
						if v, ok := firstIdx(u, t.Args[0]); ok && (v == o || v == 0 && o == 0) {
							st.SetVar("allIn", yes)
						}
					}
				}
			},
			Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
				p := h.Instrs[0].Pos()
				for ph, v := range vals {
					switch {
					case sliceOf(ph.Type(), rval), sliceOf(ph.Type(), rtype):
						if !back {
							st.SetVar("given", nil)
							c.On(st, emptyNew(st, v), "args", name, p, "the list of arguments does not start empty: %v", v)
							st.SetVar("allIn", nil)
							st.SetVar("allTypes", nil)
						} else {
							c.On(st, st.Var("given") != nil, "args", name, p, "a parameter is passed over")
							st.SetVar("given", nil)
							st.SetVar("conv", nil)
						}
					case basicT(ph.Type(), types.String):
						if back {
							taken[ph] = append(taken[ph], takes{st, valueAt(st, v), phiOf(v) == ph, v})
						} else {
							s, ok := v.StrVal()
							taken[ph] = append(taken[ph], takes{st, nil, ok && s == "", v})
						}
					}
				}
			},
			Event: func(st *eng.State, e *eng.Event) bool {
				switch e.Kind {
				case "append":
					es, ok := st.Elems(e.Args[1])
					switch {
					case sliceOf(e.Args[0].Typ, rtype):
						st.SetVar("given", yes)
						good := ok && len(es) == 1
						if good {
							idx, o, mt := typeAt(st, es[0])
							v, ok := int64(0), false
							if idx != nil {
								v, ok = firstIdx(u, idx)
							}
							good = ok && v == o && !sliceOf(mt.Typ, rtype)
						}
						c.On(st, good, "args", name, e.Pos, "the types collected are not those of the parameters, in order, without the receiver")
					case sliceOf(e.Args[0].Typ, rval):
						if !c.On(st, ok && len(es) == 1 && st.Var("given") == nil, "args", name, e.Pos, "not exactly one argument is added for a parameter") {
							return false
						}
						arg(st, es[0], nil, nil, e)
					}
					return false
				case "store":
					if b, idx, ok := index2(e.Recv); ok {
						if sliceOf(b.Typ, rval) {
							arg(st, e.Val, idx, nil, e)
						} else if sliceOf(b.Typ, rtype) {
							i2, o, mt := typeAt(st, e.Val)
							c.On(st, i2 != nil && samePos(i2, idx, o) && !sliceOf(mt.Typ, rtype), "args", name, e.Pos, "the types collected are not those of the parameters, in order, without the receiver")
							st.SetVar("given", yes)
						}
					}
					return false
				case "call":
				default:
					return false
				}
				switch {
				case m.conv[e.Name]:
					P, T := e.Args[0], e.Args[1]
					idx := pos(st, T)
					pi := valueAt(st, P)
					st.SetVar("conv", e.Res)
					if ph := phiOf(P); pi == nil && ph != nil && idx != nil {
						uses = append(uses, use{ph, idx, off(st, T), e})
						return true
					}
					c.On(st, idx != nil && pi != nil && samePos(idx, pi, off(st, T)), "value", name, e.Pos, "the path value converted is not the one at the position of the parameter: %v as %v", P, T)
				case strings.HasSuffix(e.Name, ".ProvideAs"):
					v := e.Args[0]
					if b := eng.Strip(v); b.Op == eng.OAlloc {
						v = st.Load(b)
					}
					e.Val = v
				case strings.HasPrefix(e.Name, "(reflect.Value).Set"):
					r := e.Recv
					for callTerm(r, "(reflect.Value).Elem", "(reflect.Value).Field", "reflect.Indirect") {
						r = r.Args[0]
					}
					c.On(st, isNew(r), "fresh", name, e.Pos, "a value that does not belong to this request is written: %v", e.Recv)
				case e.Name == "(reflect.Value).Call":
					c.called(m, st, e, name)
					c.On(st, st.Var("allTypes") != nil || st.Var("allIn") != nil, "args", name, e.Pos, "the method is called before every parameter has an argument")
					ok := e.Args[0].Op == eng.OOpaque || sliceOf(e.Args[0].Typ, rval) && st.Var("given") == nil
					c.On(st, ok, "args", name, e.Pos, "another list is passed than that of the arguments")
				}
				return true
			}})
		for _, us := range uses {
			n := 0
			for _, t := range taken[us.ph] {
				if t.idx != nil {
					n++
				}
				c.On(t.st, t.same || t.idx != nil && samePos(us.idx, t.idx, us.off), "value", name, us.e.Pos, "the path value converted is not the one at the position of the parameter: %v", t.v)
			}
			c.Check(n > 0, "value", name, us.e.Pos, "what is converted is no path value")
		}
		for _, x := range r.Exits {
			st := x.St
			var outs []*eng.Term
			prov := 0
			for _, e := range st.Trace {
				if e.Kind != "call" {
					continue
				}
				switch {
				case e.Name == "(reflect.Value).Call":
					outs = append(outs, e.Res)
				case e.Recv != nil && strings.HasSuffix(e.Name, ".Invoke"):
					c.On(st, len(e.Args) == 1 && fieldOf(eng.Strip(e.Args[0])) == m.value, "func", name, e.Pos, "something else than the registered function is invoked: %v", e.Args)
					outs = append(outs, resAt(st, e, 0))
					if x.Kind == "return" {
						err := errOf(st, e)
						c.On(st, err != nil && st.IsNil(err) == 1, "failure", name, e.Pos, "the failure to invoke the controller is lost")
					}
				case strings.HasSuffix(e.Name, ".ProvideAs"):
					prov++
					v := eng.Strip(e.Val)
					c.On(st, len(outs) == 1 && v == eng.Strip(outs[0]), "output", name, e.Pos, "something else is provided than what the controller returned: %v", v)
				}
			}
			if x.Kind != "return" {
				continue
			}
			c.On(st, len(outs) == 1, "once", name, x.Pos, "the controller is called %d times", len(outs))
			c.On(st, prov == 1, "output", name, x.Pos, "the output of the controller is not provided")
		}
	}
	c.Min("args", 6)
	c.Min("value", 2)
	c.Min("fresh", 2)
	c.Min("inject", 1)
	c.Min("func", 1)
	c.Min("output", 2)
}

// called checks the value whose method is called.
func (c *Ctx) called(m *ctlModel, st *eng.State, e *eng.Event, name string) {
	r := e.Recv
	if !c.On(st, callTerm(r, "(reflect.Value).MethodByName") && isNew(r.Args[0]), "fresh", name, e.Pos, "the method called does not belong to a value made for this request: %v", r) {
		return
	}
	n := r.Args[0]
	c.On(st, fieldOf(n.Args[0]) == m.rt, "fresh", name, e.Pos, "the value made for the request is not of the controller's type: %v", n.Args[0])
	src := func(t *eng.Term) bool {
		return t.Op == eng.OPure && m.ind[t.Sym] && fieldOf(t.Args[0]) == m.val || fieldOf(t) == m.val
	}
	copied := hasFact(st, func(t *eng.Term) bool {
		return callTerm(t, "(reflect.Value).IsValid") && src(t.Args[0])
	}) == 0
	injected := false
	for _, x := range st.Trace {
		if x.Kind != "call" {
			continue
		}
		if x.Name == "(reflect.Value).Set" && callTerm(x.Recv, "(reflect.Value).Elem") && x.Recv.Args[0] == n {
			copied = src(x.Args[0])
			c.On(st, !injected, "inject", name, x.Pos, "the injected fields are overwritten")
		}
		if x.Recv != nil && strings.HasSuffix(x.Name, ".Apply") && callTerm(eng.Strip(x.Args[0]), "(reflect.Value).Interface") && eng.Strip(x.Args[0]).Args[0] == n {
			err := errOf(st, x)
			injected = err != nil && st.IsNil(err) == 1
		}
	}
	c.On(st, copied, "fresh", name, e.Pos, "the value made for the request is not a copy of the registered controller")
	c.On(st, injected, "inject", name, e.Pos, "the method is called although the fields may not have been injected")
	// the parameters come from the type of this very method
	for _, x := range st.Trace {
		if x.Kind == "call" && x.Name == "(reflect.Type).MethodByName" {
			c.On(st, x.Args[0] == r.Args[1], "args", name, e.Pos, "the arguments are made for another method than the one called")
		}
	}
}

// phiOf gives the loop variable a value stands for.
func phiOf(t *eng.Term) *ssa.Phi {
	if t != nil && t.Op == eng.OOpaque {
		switch i := t.Obj.(type) {
		case *eng.Induction:
			return i.Phi
		case *ssa.Phi:
			return i
		}
	}
	return nil
}

// index2 splits the address of an element.
func index2(a *eng.Term) (base, idx *eng.Term, ok bool) {
	if a != nil && a.Op == eng.OIAddr {
		return a.Args[0], a.Args[1], true
	}
	return nil, nil, false
}

func basicT(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}
