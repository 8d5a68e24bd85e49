package main

import (
	"go/types"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02",
		"Typestate over the code that steps through a handler chain, from an arbitrary position: every handler invoked is the one at the current position (the action when the position is the end of the list), the position moves by exactly one and only past a handler that was invoked or is nil, no handler is invoked once a status is known to be recorded, the walk stops only when a status is recorded or the chain is exhausted, a failed invocation is never ignored; the request entry point walks the application's filters and then the router.",
		"what the handlers themselves do; the order in which a handler and its Next() interleave is the handler's business",
		c02)
}

const (
	nInvoke  = ".Invoke"
	nWritten = ".ResponseWriter).Written"
	nStatus  = ".ResponseWriter).Status"
)

type chainModel struct {
	t       *types.Named // the context implementation
	index   *types.Var
	filters *types.Var
	action  *types.Var
	fun     *types.Var // handler field of a filter
}

// chain finds the chain-walking implementation by the types of its fields.
func (c *Ctx) chain() *chainModel {
	ctxI := c.Iface(c.P.Mod, "Context")
	ff := c.Type("", "FilterFunc")
	m := &chainModel{}
	for _, t := range c.Impls("", ctxI) {
		s := structOf(t)
		if s == nil {
			continue
		}
		var idx, fl, act, fun *types.Var
		ints := 0
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Embedded() {
				continue
			}
			switch x := f.Type().Underlying().(type) {
			case *types.Basic:
				if x.Info()&types.IsInteger != 0 {
					idx = f
					ints++
				}
			case *types.Slice:
				if es := structOf(x.Elem()); es != nil {
					for j := 0; j < es.NumFields(); j++ {
						if types.Identical(es.Field(j).Type(), ff) {
							fl, fun = f, es.Field(j)
						}
					}
				}
			case *types.Signature:
				if types.Identical(f.Type(), ff) {
					act = f
				}
			}
		}
		if ints == 1 && fl != nil && act != nil {
			m.t, m.index, m.filters, m.action, m.fun = t, idx, fl, act, fun
		}
	}
	c.Need(m.t != nil, "the context that walks a list of filters and an action")
	return m
}

func c02(c *Ctx) {
	u := c.U
	m := c.chain()
	chainFns := c.invokers()
	covered := map[*ssa.Function]bool{}
	var entries []*ssa.Function
	for _, f := range c.topFuncs("") {
		if r := f.Signature.Recv(); r != nil && chainFns[f] {
			if p, ok := r.Type().(*types.Pointer); ok && types.Identical(p.Elem(), m.t) {
				entries = append(entries, f)
			}
		}
	}
	c.Need(len(entries) > 0, "the functions walking the handler chain")
	// helpers that are only part of a walk are analysed where they are used
	called := map[*ssa.Function]bool{}
	for _, f := range c.topFuncs("") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
					}
				}
			}
		}
	}
	walker := map[*ssa.Function]bool{}
	for _, f := range entries {
		if f.Object().Exported() || !called[f] || loops(f) {
			walker[f] = true
		}
	}
	for _, f := range entries {
		if walker[f] {
			c02walk(c, m, f, covered)
		}
	}
	c.Min("chain-handler", 1)
	c.Min("chain-step", 1)
	// nothing else moves the position
	for _, f := range c.P.Funcs {
		if covered[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if st := structOf(fa.X.Type()); st == nil || st.Field(fa.Field) != m.index {
					continue
				}
				k, isC := s.Val.(*ssa.Const)
				c.Check(isC && k.Value != nil && k.Int64() == 0, "chain-start", eng.FuncName(f), s.Pos(), "a handler chain does not start at its first filter")
			}
		}
	}
	// the entry point: application filters, then the router
	serve := c.Meth(c.Type("", "Strip"), "ServeHTTP")
	var appFilters *types.Var
	if s := structOf(c.Type("", "Strip")); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), m.filters.Type()) || types.AssignableTo(s.Field(i).Type(), m.filters.Type()) && isSlice(s.Field(i).Type()) {
				appFilters = s.Field(i)
			}
		}
	}
	c.Need(appFilters != nil, "the application's filter list")
	walks := map[*ssa.Function]bool{}
	for _, f := range entries {
		walks[f] = true
	}
	r := c.Run(serve, &eng.Options{
		Inline: func(f *ssa.Function) bool {
			return !walks[f] && f.Pkg != nil && f.Pkg.Pkg.Path() == c.P.Mod
		},
		Stable:     func(v *types.Var) bool { return v == m.filters || v == m.action || v == m.index },
		StableCell: func(k *eng.Term) bool { return k.Op == eng.OAlloc },
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "call" && walks[target(e)] && e.Recv != nil {
				base := e.Recv
				fl := st.Load(u.FAddr(base, m.filters))
				act := st.Load(u.FAddr(base, m.action))
				idx := st.Load(u.FAddr(base, m.index))
				c.On(st, isFieldOf(contents(st, u, fl), st.Recv(), appFilters), "chain-app-filters", "ServeHTTP", e.Pos, "the chain does not walk the application's filters (%v)", fl)
				c.On(st, st.IsNil(act) == 0, "chain-router", "ServeHTTP", e.Pos, "the chain does not end in the router")
				v, ok := idx.IntVal()
				c.On(st, ok && v == 0, "chain-start", "ServeHTTP", e.Pos, "the chain does not start at its first filter")
			}
			return e.Kind == "copy"
		},
	})
	_ = r
	c.Min("chain-app-filters", 1)
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func loops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func c02walk(c *Ctx, m *chainModel, f *ssa.Function, covered map[*ssa.Function]bool) {
	u := c.U
	name := m.t.Obj().Name() + "." + f.Name()
	yes := u.Bool(true)
	isNext := f.Name() == "Next"
	invoke := func(e *eng.Event) bool {
		return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == "Invoke" && e.Recv != nil && len(e.Args) == 1
	}
	// the chain entry a handler value stands for: 'f' element of the filter
	// list (with its index), 'a' the action
	which := func(h *eng.Term, recv *eng.Term) (byte, *eng.Term) {
		cell := cellOf(h)
		if cell == nil || cell.Op != eng.OFAddr {
			return 0, nil
		}
		if cell.Obj == m.action && cell.Args[0] == recv {
			return 'a', nil
		}
		if cell.Obj == m.fun {
			b, i, ok := index(cell.Args[0])
			if ok && isFieldOf(b, recv, m.filters) {
				return 'f', i
			}
		}
		return 0, nil
	}
	errKnown := func(st *eng.State, at string, pos ssa.Instruction) {
		if er := st.Var("err"); er != nil {
			c.On(st, st.IsNil(er) == 1, "chain-error", name, pos.Pos(), "%s although the handler could not be invoked", at)
			st.SetVar("err", nil)
		}
	}
	// settle turns what a branch decided into rule state
	settle := func(st *eng.State) {
		if w := st.Var("wr"); w != nil {
			if v := st.EvalTerm(w); v >= 0 {
				if st.Var("wrstatus") != nil {
					v = 1 - v
				}
				st.SetVar("resp", u.Bool(v == 1))
				st.SetVar("wr", nil)
			}
		}
		if er := st.Var("err"); er != nil && st.IsNil(er) == 1 {
			st.SetVar("err", nil)
		}
	}
	r := c.Run(f, &eng.Options{
		Branch: func(st *eng.State, l eng.Lit, in *ssa.If) { settle(st) },
		Stable: func(v *types.Var) bool { return v == m.filters || v == m.action || v == m.fun },
		KeyFacts: func(st *eng.State, t *eng.Term) bool {
			// where the position stands
			return eng.Any(t, func(x *eng.Term) bool { return x == u.Len(st.Load(u.FAddr(st.Recv(), m.filters))) })
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			recv := st.Recv()
			switch {
			case e.Kind == "store" && e.Addr.Op == eng.OFAddr && e.Addr.Obj == m.index && e.Addr.Args[0] == recv:
				cur := st.Load(e.Addr)
				d := eng.Lin(u.Bin("-", e.Val, cur, types.Typ[types.Int]))
				c.On(st, d.C == 1 && len(d.Coeff) == 0, "chain-step", name, e.Pos, "the position moves from %v to %v", cur, e.Val)
				ok := st.Var("done") != nil
				if !ok && isNext && st.Var("moved") == nil && st.Var("ran") == nil {
					ok = true // Next leaves the handler that is running
				}
				if !ok {
					for _, l := range st.Facts() {
						if l.Neg || l.T.Op != eng.OBin || l.T.Sym != "eq" {
							continue
						}
						for i, a := range l.T.Args {
							if !l.T.Args[1-i].IsNil() {
								continue
							}
							k, idx := which(a, recv)
							if k == 'f' && st.EqTerms(idx, cur) == 1 || k == 'a' {
								ok = true
							}
						}
					}
				}
				c.On(st, ok, "chain-skip", name, e.Pos, "a handler can be passed over without being invoked")
				st.SetVar("done", nil)
				st.SetVar("moved", yes)
				errKnown(st, "the chain goes on", e.Instr)
			case invoke(e):
				a := eng.Strip(e.Args[0])
				c.On(st, st.Var("sel") == a, "chain-handler", name, e.Pos, "what is invoked is not the handler at the current position: %v", a)
				c.On(st, st.Var("done") == nil, "chain-twice", name, e.Pos, "a handler can be invoked twice in a row")
				c.On(st, !isNext || st.Var("moved") != nil, "chain-next", name, e.Pos, "Next can invoke the handler that is already running")
				if st.Var("ran") != nil {
					w := st.Var("resp")
					c.On(st, w != nil && w.IsFalse(), "chain-stop", name, e.Pos, "another handler is invoked although the previous one may have responded")
				}
				errKnown(st, "another handler is invoked", e.Instr)
				st.SetVar("done", yes)
				st.SetVar("ran", yes)
				st.SetVar("wr", nil)
				st.SetVar("resp", nil)
				st.SetVar("err", st.Ext(e.Res, 1))
			case e.Kind == "call" && e.Fn != nil && e.Callee == nil && e.Recv == nil:
				// the handler of the current position is obtained
				cur := st.Load(u.FAddr(recv, m.index))
				st.SetVar("sel", nil)
				switch k, idx := which(e.Fn, recv); k {
				case 'f':
					if st.EqTerms(idx, cur) == 1 {
						st.SetVar("sel", e.Res)
					}
				case 'a':
					n := u.Len(st.Load(u.FAddr(recv, m.filters)))
					if st.EvalTerm(u.Lt(cur, n)) == 0 && (st.EvalTerm(u.Eq(cur, n)) == 1 || st.EvalTerm(u.Lt(n, cur)) == 0) {
						st.SetVar("sel", e.Res)
					}
				}
			case e.Kind == "call" && hasSuffix(e.Name, nWritten, nStatus):
				st.SetVar("resp", nil)
				st.SetVar("wr", e.Res)
				st.SetVar("wrstatus", nil)
				if hasSuffix(e.Name, nStatus) {
					st.SetVar("wr", u.Eq(e.Res, u.Int(0)))
					st.SetVar("wrstatus", yes)
				}
				settle(st)
			}
			return false
		},
	})
	_ = r
	for g := range r.Funcs {
		covered[g] = true
	}
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		recv := r.Params[0]
		st := x.St
		cur := st.Load(u.FAddr(recv, m.index))
		n := u.Len(st.Load(u.FAddr(recv, m.filters)))
		over := ltProved(st, u, n, cur, nil)
		w := st.Var("resp")
		resp := w != nil && w.IsTrue()
		c.On(st, over || resp, "chain-complete", name, x.Pos, "the walk can end although nothing was written and handlers remain")
		errKnown(st, "the walk ends normally", x.Instr)
	}
	c.Check(len(r.Exits) > 0, "chain-complete", name, f.Pos(), "no way out of the chain walk was found")
}
