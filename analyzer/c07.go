package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07",
		"Dataflow over registration: the two list operations are decided by induction over one arbitrary iteration (an entry is added unless an equal one is already in the list, an entry is left out only if an equal one is exempt, order kept, the inherited list never written to); the filters stored with every registered action are the inherited list without what the route exempts, then the route's own, then the registration's own, without what it exempts; sub-routes inherit the same list; every handler given to Filter, Exempt or NotFound becomes exactly one entry standing for that handler.",
		"equality of handlers is that of reflect.Value: two closures made by one function literal may differ",
		c07)
}

// listModel knows the operations on lists of filters.
type listModel struct {
	elem  types.Type // pointer to a filter
	ident *types.Var // what makes two filters equal
	fun   *types.Var
	add   map[string]bool // names of functions adding without duplicates
	rem   map[string]bool
	fns   map[*ssa.Function]bool
	names map[string]bool
}

func (c *Ctx) lists() *listModel {
	ch := c.chain()
	m := &listModel{add: map[string]bool{}, rem: map[string]bool{}, fns: map[*ssa.Function]bool{}, names: map[string]bool{}, fun: ch.fun}
	m.elem = ch.filters.Type().Underlying().(*types.Slice).Elem()
	s := structOf(m.elem)
	m.ident = fieldNamed(s, func(f *types.Var) bool { return f != ch.fun && types.Comparable(f.Type()) }, "value", "val", "ident")
	c.Need(m.ident != nil, "what makes two filters equal")
	for _, f := range c.topFuncs("") {
		if m.isList(f.Signature.Results(), 0) && f.Signature.Results().Len() == 1 && len(f.Params) == 2 && m.isListT(f.Params[0].Type()) && m.isListT(f.Params[1].Type()) {
			m.fns[f] = true
			m.names[eng.FuncName(f)] = true
		}
	}
	return m
}

func (m *listModel) isListT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), m.elem)
}

func (m *listModel) isList(t *types.Tuple, i int) bool {
	return i < t.Len() && m.isListT(t.At(i).Type())
}

// firstIdx: the index visited first by a loop counting upwards by one.
func firstIdx(u *eng.Universe, idx *eng.Term) (int64, bool) {
	idx = noOld(u, idx)
	if d, ok := delta(idx); !ok || d != 1 {
		return 0, false
	}
	p, ind := phiIn(idx)
	l := eng.Lin(idx)
	if l.Coeff[p] != 1 || len(l.Coeff) != 1 || !ind.HasLo || ind.Step != 1 {
		return 0, false
	}
	return ind.Lo + l.C, true
}

// forward: the loop visits the list from its first element, one by one.
func forward(u *eng.Universe, idx *eng.Term) bool {
	v, ok := firstIdx(u, idx)
	return ok && v == 0
}

// exhausted gives the list whose end the branch proves to be reached.
func exhausted(l eng.Lit) *eng.Term {
	t := l.T
	if t.Op != eng.OBin {
		return nil
	}
	list := func(x *eng.Term) *eng.Term {
		if x.Op == eng.OBuiltin && x.Sym == "len" {
			return x.Args[0]
		}
		return nil
	}
	switch {
	case t.Sym == "lt" && l.Neg:
		return list(t.Args[1])
	case t.Sym == "eq" && !l.Neg:
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[i].IntVal(); ok && v == 0 || !ok {
				if b := list(t.Args[1-i]); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

// inLoop: the instruction belongs to the loop with this header.
func inLoop(h *ssa.BasicBlock, in ssa.Instruction) bool {
	return in != nil && in.Parent() == h.Parent() && eng.LoopBody(h)[in.Block()]
}

func cutAll(*ssa.BasicBlock) int { return 2 }

// listOp decides what an operation on two lists of filters does.
func (c *Ctx) listOp(m *listModel, f *ssa.Function) (kind string) {
	u := c.U
	name := eng.FuncName(f)
	// which list are the kept elements taken from?
	from := -1
	c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
		if e.Kind == "append" && len(e.Args) == 2 {
			es, ok := st.Elems(e.Args[1])
			if ok && len(es) == 1 {
				if b, _, ok := index(es[0]); ok {
					for i, p := range st.Params() {
						if noOld(u, b) == p {
							from = i
						}
					}
				}
			}
		}
		return false
	}})
	switch from {
	case 0:
		kind = "remove"
	case 1:
		kind = "add"
	default:
		c.Check(false, "list-op", name, f.Pos(), "this operation on filter lists neither adds nor removes single filters")
		return ""
	}
	yes := u.Bool(true)
	at := map[*eng.Term]ssa.Instruction{}
	same := func(st *eng.State, x, y *eng.Term) int {
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				a, b := l.T.Args[0], l.T.Args[1]
				if isFieldOf(a, x, m.ident) && isFieldOf(b, y, m.ident) || isFieldOf(a, y, m.ident) && isFieldOf(b, x, m.ident) {
					return 1 - b2i(l.Neg)
				}
			}
		}
		return -1
	}
	phiOf := map[*eng.Term]bool{}
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
		Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
			if b := exhausted(l); b != nil {
				b = noOld(u, b)
				if b == st.Params()[from] {
					st.SetVar("done", yes)
				} else {
					st.SetVar("exh", b)
				}
			}
		},
		Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			x := st.Var("x")
			outerLoop := back && x != nil && inLoop(h, at[x])
			if back && !outerLoop {
				y := st.Var("y")
				c.On(st, x != nil && y != nil && same(st, x, y) == 0, "list-compare", name, h.Instrs[0].Pos(), "the search for an equal filter goes on without comparing this one")
				st.SetVar("y", nil)
				return
			}
			for p, v := range vals {
				if !m.isListT(p.Type()) {
					continue
				}
				if !back {
					phiOf[v] = true
					if kind == "add" {
						c.On(st, v == st.Params()[0] || v.Op == eng.OOpaque, "list-start", name, h.Instrs[0].Pos(), "the result does not begin with the given list: %v", v)
					} else {
						c.On(st, v.Op == eng.OOpaque || emptyNew(st, v), "list-start", name, h.Instrs[0].Pos(), "the result is not built in a list of its own: %v", v)
					}
				}
			}
			if back {
				if st.Var("kept") == nil {
					y := st.Var("y")
					c.On(st, y != nil && same(st, x, y) == 1, "list-skip", name, h.Instrs[0].Pos(), "a filter is left out although no equal one was found")
				}
				st.SetVar("x", nil)
				st.SetVar("y", nil)
			}
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			switch e.Kind {
			case "load":
				b, idx, ok := index(e.Val)
				if !ok || e.Val.Typ == nil || !types.Identical(e.Val.Typ, m.elem) {
					return false
				}
				if noOld(u, b) == st.Params()[from] {
					st.SetVar("x", e.Val)
					st.SetVar("y", nil)
					st.SetVar("exh", nil)
					st.SetVar("kept", nil)
					at[e.Val] = e.Instr
					c.On(st, forward(u, idx), "list-order", name, e.Pos, "the filters are not taken one by one from the first: %v", idx)
				} else {
					st.SetVar("y", e.Val)
					c.On(st, forward(u, idx), "list-order", name, e.Pos, "the filters to compare with are not taken one by one from the first: %v", idx)
				}
			case "append":
				if !e.Args[0].IsNil() && !m.isListT(e.Args[0].Typ) {
					return false
				}
				if kind == "remove" && emptyNew(st, e.Args[0]) && noOld(u, e.Args[1]) == st.Params()[0] {
					// a whole copy: decided where it is returned
					return false
				}
				es, ok := st.Elems(e.Args[1])
				x := st.Var("x")
				if !c.On(st, ok && len(es) == 1 && es[0] == x, "list-keep", name, e.Pos, "something else than the filter at hand is added: %v", e.Args[1]) {
					return false
				}
				exh := st.Var("exh")
				want := st.Params()[1]
				if kind == "add" {
					want = e.Args[0]
				}
				c.On(st, exh == want, "list-keep", name, e.Pos, "a filter is kept although not all of %v was searched for an equal one", want)
				st.SetVar("kept", yes)
			case "store":
				c.On(st, e.Addr.Op != eng.OIAddr || eng.Root(e.Addr).Op == eng.OAlloc, "list-pure", name, e.Pos, "a list that was handed in is written to")
			}
			return false
		},
	})
	for _, x := range r.Exits {
		if x.Kind == "return" {
			st := x.St
			nothing := func(i int) bool { return st.EvalTerm(u.Eq(u.Len(st.Params()[i]), u.Int(0))) == 1 }
			res := noOld(u, x.Results[0])
			if kind == "remove" && nothing(1) && wholeCopy(st, res, st.Params()[0]) {
				continue
			}
			c.On(st, st.Var("done") != nil || nothing(from), "list-all", name, x.Pos, "the operation ends before every filter was looked at")
			if kind == "remove" {
				c.On(x.St, res.Op == eng.OOpaque || emptyNew(x.St, res), "list-start", name, x.Pos, "the result is not a list of its own: %v", res)
			} else {
				c.On(x.St, res.Op == eng.OOpaque || res == x.St.Params()[0], "list-start", name, x.Pos, "the result does not begin with the given list: %v", res)
			}
		}
	}
	return kind
}

// wholeCopy: a list of its own with the elements of another one.
func wholeCopy(st *eng.State, v, of *eng.Term) bool {
	if v.Op == eng.OBuiltin && v.Sym == "append" && len(v.Args) == 2 {
		return emptyNew(st, v.Args[0]) && noOld(st.U, v.Args[1]) == of
	}
	return false
}

// emptyNew: a list without elements that nobody else has.
func emptyNew(st *eng.State, v *eng.Term) bool {
	if v.IsNil() {
		return true
	}
	if v.Op == eng.OZero {
		return true
	}
	root := v
	for root.Op == eng.OSlice {
		root = root.Args[0]
	}
	if root.Op != eng.OAlloc {
		return false
	}
	if v.Op == eng.OSlice {
		if k, ok := v.Args[2].IntVal(); ok && k == 0 {
			return true
		}
	}
	if len(root.Args) > 0 {
		k, ok := root.Args[0].IntVal()
		return ok && k == 0
	}
	return st.EvalTerm(st.U.Eq(st.U.Len(v), st.U.Int(0))) == 1
}

func c07(c *Ctx) {
	m := c.lists()
	for f := range m.fns {
		switch c.listOp(m, f) {
		case "add":
			m.add[eng.FuncName(f)] = true
		case "remove":
			m.rem[eng.FuncName(f)] = true
		}
	}
	c.Check(len(m.add) > 0 && len(m.rem) > 0, "list-op", "filter lists", 0, "no operation adding to and removing from filter lists was found")
	g := c.reg()
	regRules(c, g, m, "C07")
	c.makeEntries(m)
	c.collected(m, g.desc(c))
	c.Min("entry-each", 1)
	c.Min("entry-all", 1)
	c.Min("collect", 2)
	c.Min("collect-all", 1)
	c.Min("filters-own", 3)
	c.Min("filters-below", 1)
	c.Min("list-keep", 2)
	c.Min("list-skip", 2)
	c.Min("list-compare", 2)
}

// makeEntries: the functions turning handlers into filters; every handler
// becomes one entry that stands for it and runs it.
func (c *Ctx) makeEntries(m *listModel) {
	u := c.U
	yes := u.Bool(true)
	for _, f := range c.topFuncs("") {
		if f.Signature.Results().Len() != 1 || !m.isList(f.Signature.Results(), 0) || len(f.Params) != 1 {
			continue
		}
		sl, ok := f.Params[0].Type().Underlying().(*types.Slice)
		if !ok || !types.IsInterface(sl.Elem()) {
			continue
		}
		name := eng.FuncName(f)
		given := func(st *eng.State, t *eng.Term) *eng.Term { // the handler at an index
			if b, idx, ok := index(t); ok && t.Op == eng.OLoad && noOld(u, b) == st.Params()[0] {
				return idx
			}
			return nil
		}
		entryFor := func(st *eng.State, v, h *eng.Term, e *eng.Event) {
			if !c.On(st, v.Op == eng.OAlloc && st.IsNil(v) == 0, "entry-each", name, e.Pos, "no new entry is made for the handler: %v", v) {
				return
			}
			id := eng.Strip(st.Load(u.FAddr(v, m.ident)))
			c.On(st, callTerm(id, "reflect.ValueOf") && eng.Strip(id.Args[0]) == eng.Strip(h), "entry-each", name, e.Pos, "the entry does not stand for the handler it was made from: %v", id)
			fun := eng.Strip(st.Load(u.FAddr(v, m.fun)))
			ok := false
			for _, x := range captured(st, fun) {
				ok = ok || eng.Any(x, func(y *eng.Term) bool { return y == h })
			}
			ok = ok || eng.Any(fun, func(y *eng.Term) bool { return y == h })
			c.On(st, ok, "entry-each", name, e.Pos, "the entry does not run the handler it was made from: %v", fun)
		}
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Inline: func(h *ssa.Function) bool { return h.Pkg == f.Pkg },
			Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
				if b := exhausted(l); b != nil && noOld(u, b) == st.Params()[0] {
					st.SetVar("done", yes)
				}
			},
			Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
				if x := st.Var("x"); back && x != nil {
					c.On(st, st.Var("made") != nil, "entry-each", name, h.Instrs[0].Pos(), "a handler is passed over")
				}
				st.SetVar("x", nil)
				st.SetVar("made", nil)
			},
			Event: func(st *eng.State, e *eng.Event) bool {
				switch e.Kind {
				case "load":
					if idx := given(st, e.Val); idx != nil && st.Var("x") == nil {
						st.SetVar("x", e.Val)
						c.On(st, forward(u, idx), "entry-order", name, e.Pos, "the handlers are not taken one by one from the first: %v", idx)
					}
				case "append":
					es, ok := st.Elems(e.Args[1])
					x := st.Var("x")
					if m.isListT(e.Args[0].Typ) || len(es) == 1 && es[0].Typ != nil && types.Identical(es[0].Typ, m.elem) {
						if c.On(st, ok && len(es) == 1 && x != nil && st.Var("made") == nil, "entry-each", name, e.Pos, "a handler does not become exactly one entry") {
							st.SetVar("made", yes)
							entryFor(st, es[0], x, e)
						}
					}
				case "store":
					if e.Val.Typ != nil && types.Identical(e.Val.Typ, m.elem) && e.Addr.Op == eng.OIAddr && m.isListT(e.Addr.Args[0].Typ) {
						x := st.Var("x")
						if c.On(st, x != nil && given(st, x) == e.Addr.Args[1] && st.Var("made") == nil, "entry-each", name, e.Pos, "an entry is not stored in the place of its handler") {
							st.SetVar("made", yes)
							entryFor(st, e.Val, x, e)
						}
					}
				}
				return false
			},
		})
		for _, x := range r.Exits {
			if x.Kind == "return" {
				c.On(x.St, x.St.Var("done") != nil, "entry-all", name, x.Pos, "the list ends before every handler became an entry")
			}
		}
	}
}

// collected: what Filter and Exempt give is added to the filters and the
// exempted ones of a registration.
func (c *Ctx) collected(m *listModel, d *descModel) {
	u := c.U
	yes := u.Bool(true)
	given := func(name string) types.Type {
		f := c.Fn("", name)
		var t types.Type
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.MakeInterface); ok && m.isListT(x.X.Type()) {
					t = x.X.Type()
				}
			}
		}
		c.Need(t != nil, "the type "+name+" returns")
		return t
	}
	inc, exc := given("Filter"), given("Exempt")
	c.Check(!types.Identical(inc, exc), "collect", "Filter and Exempt", 0, "filters and exempted filters cannot be told apart")
	var fInc, fExc *types.Var
	for i := 0; i < d.s.NumFields(); i++ {
		f := d.s.Field(i)
		if m.isListT(f.Type()) && hasWord(f.Name(), "filter", "include") {
			fInc = f
		} else if m.isListT(f.Type()) {
			fExc = f
		}
	}
	c.Need(fInc != nil && fExc != nil, "the filters and the exempted filters of a registration")
	for _, f := range c.topFuncs("") {
		res := f.Signature.Results()
		if res.Len() != 1 || !types.Identical(res.At(0).Type(), d.t) || len(f.Params) != 1 {
			continue
		}
		name := eng.FuncName(f)
		from := func(v *eng.Term, t types.Type) bool {
			return eng.Any(v, func(y *eng.Term) bool {
				_, _, ok := index(y)
				return y.Op == eng.OTA && types.Identical(y.Typ, t) && ok == false && eng.Any(y, func(z *eng.Term) bool { _, _, ok := index(z); return ok })
			})
		}
		c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Pure: func(n string) bool { return m.names[n] },
			Inline: func(h *ssa.Function) bool {
				return !m.fns[h] && !loops(h) && c.touches(h, func(v *types.Var) bool { return v == fInc || v == fExc })
			},
			Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
				if back {
					for _, l := range st.Facts() {
						if l.T.Op == eng.OIs && !l.Neg && (types.Identical(eng.IsType(l.T), inc) || types.Identical(eng.IsType(l.T), exc)) {
							c.On(st, st.Var("got") != nil, "collect-all", name, h.Instrs[0].Pos(), "what Filter or Exempt was given is passed over")
						}
					}
				}
				st.SetVar("got", nil)
			},
			Event: func(st *eng.State, e *eng.Event) bool {
				if e.Kind != "store" {
					return false
				}
				fv := fieldOf(e.Addr)
				if fv != fInc && fv != fExc || e.Val.IsNil() || e.Val.Op == eng.OZero {
					return false
				}
				want := inc
				if fv == fExc {
					want = exc
				}
				v := e.Val
				ok := v.Op == eng.OPure && m.add[v.Sym] && len(v.Args) == 2 && from(v.Args[1], want)
				c.On(st, ok, "collect", name+", "+fv.Name(), e.Pos, "what was given is not added to what was there: %v", v)
				if ok {
					old := eng.Strip(v.Args[0])
					c.On(st, fieldOf(old) == fv || old.Op == eng.OOpaque && len(old.Args) == 1 && fieldOf(old.Args[0]) == fv || emptyNew(st, old), "collect", name+", "+fv.Name(), e.Pos, "what was given before is lost: %v", old)
				}
				st.SetVar("got", yes)
				return false
			},
		})
	}
}

func hasWord(name string, words ...string) bool {
	name = strings.ToLower(name)
	for _, w := range words {
		if strings.Contains(name, w) {
			return true
		}
	}
	return false
}
