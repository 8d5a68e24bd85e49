package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04",
		"Induction over one level of the recursive route search, from an arbitrary node and path: the child of the same literal segment is searched first, then the parameter children in list order, then the wildcard; a child is passed over only on proof that its segment does not match, that its search found nothing or that it is no route; what is returned is a route; the values returned are exactly those of the children on the returned path, in path order. The request handler searches from the root with the cleaned path, treats what is no route as not found, and runs exactly one chain.",
		"the set of routes registered; which of several equal parameter routes was registered first; percent-decoding done by net/http",
		c04)
}

type routeModel struct {
	t                        *types.Named
	lit, params, wild, isEnd *types.Var
	isParam, pname, verb     *types.Var
	cycle                    map[*ssa.Function]bool
	entry                    *ssa.Function
	callers                  []*ssa.Function // functions outside the search that start it
	node, paths, out         int             // parameter positions of entry
	root                     *types.Named    // holds the not-found filters
	action                   *types.Var      // map method -> action of a node
	parent                   *types.Var
}

// fieldNamed picks the field satisfying pred; when there are several, the one
// whose name contains one of the hints.
func fieldNamed(s *types.Struct, pred func(*types.Var) bool, hints ...string) *types.Var {
	var all []*types.Var
	var visit func(s *types.Struct, depth int)
	visit = func(s *types.Struct, depth int) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if pred(f) {
				all = append(all, f)
			}
			if depth < 2 {
				if n, ok := f.Type().(*types.Named); ok {
					if in, ok := n.Underlying().(*types.Struct); ok && !f.Embedded() {
						visit(in, depth+1)
					}
				}
			}
		}
	}
	visit(s, 0)
	if len(all) == 1 && len(hints) == 0 {
		return all[0]
	}
	for _, h := range hints {
		var hit []*types.Var
		for _, f := range all {
			if strings.Contains(strings.ToLower(f.Name()), h) {
				hit = append(hit, f)
			}
		}
		if len(hit) == 1 {
			return hit[0]
		}
		for _, f := range hit {
			if strings.ToLower(f.Name()) == h {
				return f
			}
		}
	}
	if len(all) == 1 {
		return all[0]
	}
	return nil
}

func isBasic(k types.BasicKind) func(*types.Var) bool {
	return func(f *types.Var) bool {
		b, ok := f.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

func (c *Ctx) routes() *routeModel {
	m := &routeModel{}
	p := c.P.Pkg("")
	c.Need(p != nil, "root package")
	ptrTo := func(t types.Type, n *types.Named) bool {
		x, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(x.Elem(), n)
	}
	sc := p.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		s, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var lit, par *types.Var
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch x := f.Type().Underlying().(type) {
			case *types.Map:
				if b, ok := x.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String && ptrTo(x.Elem(), nt) {
					lit = f
				}
			case *types.Slice:
				if ptrTo(x.Elem(), nt) {
					par = f
				}
			}
		}
		if lit != nil && par != nil {
			m.t, m.lit, m.params = nt, lit, par
		}
	}
	c.Need(m.t != nil, "the node of the route tree")
	s := structOf(m.t)
	isNode := func(f *types.Var) bool { return ptrTo(f.Type(), m.t) }
	m.wild = fieldNamed(s, isNode, "wild")
	m.parent = fieldNamed(s, isNode, "parent")
	m.isEnd = fieldNamed(s, isBasic(types.Bool), "end")
	m.isParam = fieldNamed(s, isBasic(types.Bool), "isparam", "param")
	m.pname = fieldNamed(s, isBasic(types.String), "paramname", "name")
	m.verb = fieldNamed(s, isBasic(types.String), "verb")
	m.action = fieldNamed(s, func(f *types.Var) bool {
		x, ok := f.Type().Underlying().(*types.Map)
		return ok && f != m.lit && structOf(x.Elem()) != nil
	})
	c.Need(m.wild != nil && m.isEnd != nil && m.isParam != nil && m.pname != nil && m.verb != nil && m.action != nil, "the parts of a route node")

	// the search: a cycle of functions reading the literal children without
	// ever changing them
	fns := c.topFuncs("")
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	reads, writes := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range fns {
		calls[f] = map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case ssa.CallInstruction:
						if h := x.Common().StaticCallee(); h != nil {
							calls[f][h] = true
						}
					case *ssa.FieldAddr:
						if st := structOf(x.X.Type()); st != nil && st.Field(x.Field) == m.lit {
							reads[f] = true
						}
					case *ssa.MapUpdate:
						if mt, ok := x.Map.Type().Underlying().(*types.Map); ok && ptrTo(mt.Elem(), m.t) {
							writes[f] = true
						}
					}
				}
			}
			for _, a := range g.AnonFuncs {
				visit(a)
			}
		}
		visit(f)
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for h := range calls[g] {
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		return seen
	}
	m.cycle = map[*ssa.Function]bool{}
	for _, f := range fns {
		if r := reach(f); r[f] {
			bad, rd := writes[f], reads[f]
			for g := range r {
				bad = bad || writes[g]
				if reach(g)[f] {
					rd = rd || reads[g]
				}
			}
			if rd && !bad {
				m.cycle[f] = true
			}
		}
	}
	for _, f := range fns {
		if m.cycle[f] {
			continue
		}
		for g := range calls[f] {
			if m.cycle[g] {
				c.Need(m.entry == nil || m.entry == g, "a single entry of the route search")
				m.entry = g
			}
		}
	}
	// request handlers from which the search is started
	starts := map[*ssa.Function]bool{}
	for _, f := range fns {
		if m.entry != nil && !m.cycle[f] && reach(f)[m.entry] && takesRequest(f) {
			starts[f] = true
		}
	}
	for _, f := range fns {
		top := starts[f]
		for g := range starts {
			if g != f && reach(g)[f] {
				top = false
			}
		}
		if top {
			m.callers = append(m.callers, f)
		}
	}
	c.Need(len(m.callers) > 0, "the request handler that searches for a route")
	c.Need(m.entry != nil, "the recursive search for a route")
	m.node, m.paths, m.out = -1, -1, -1
	for i, q := range m.entry.Params {
		switch x := q.Type().Underlying().(type) {
		case *types.Pointer:
			if types.Identical(x.Elem(), m.t) {
				m.node = i
			} else if sl, ok := x.Elem().Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Map); ok {
					m.out = i
				}
			}
		case *types.Slice:
			if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				m.paths = i
			}
		}
	}
	c.Need(m.node >= 0 && m.paths >= 0 && m.out >= 0, "node, path and values of the route search")
	return m
}

func takesRequest(f *ssa.Function) bool {
	for _, p := range f.Params {
		if p.Type().String() == "*net/http.Request" {
			return true
		}
	}
	return false
}

// sub reports whether t reads field f of base (through nested structs).
func subField(t, base *eng.Term, f *types.Var) bool {
	cell := cellOf(t)
	if cell == nil || cell.Op != eng.OFAddr || cell.Obj != f {
		return false
	}
	for a := cell.Args[0]; a != nil; {
		if a == base {
			return true
		}
		if a.Op != eng.OFAddr {
			return false
		}
		a = a.Args[0]
	}
	return false
}

// knownBool looks for the value of a boolean field on the path: 1, 0 or -1.
func knownBool(st *eng.State, base *eng.Term, f *types.Var) int {
	for _, l := range st.Facts() {
		if subField(l.T, base, f) {
			if l.Neg {
				return 0
			}
			return 1
		}
	}
	return -1
}

// search describes candidates on a path of the route search.
type search struct {
	c    *Ctx
	m    *routeModel
	recv *eng.Term
	path *eng.Term // the list of segments
	out  *eng.Term
}

func (s *search) seg(t *eng.Term) bool { // t is the first segment
	b, i, ok := index(t)
	if !ok || b != s.path {
		return false
	}
	v, isC := i.IntVal()
	return isC && v == 0
}

// kind of a node term: 'l' literal child, 'p' parameter child, 'w' wildcard.
func (s *search) kind(t *eng.Term) (byte, *eng.Term) {
	cell := cellOf(t)
	if cell == nil {
		return 0, nil
	}
	switch cell.Op {
	case eng.OMAddr:
		if isFieldOf(cell.Args[0], s.recv, s.m.lit) && s.seg(cell.Args[1]) {
			return 'l', nil
		}
	case eng.OIAddr:
		if isFieldOf(cell.Args[0], s.recv, s.m.params) && cell.Args[0].Op == eng.OLoad {
			return 'p', cell.Args[1]
		}
	case eng.OFAddr:
		if cell.Obj == s.m.wild && cell.Args[0] == s.recv {
			return 'w', nil
		}
	}
	return 0, nil
}

func (s *search) more(st *eng.State) int {
	u := s.c.U
	n := u.Len(s.path)
	if ltProved(st, u, u.Int(1), n, nil) {
		return 1
	}
	if leProved(st, u, n, u.Int(1), nil) {
		return 0
	}
	// a path has at least one segment
	for _, l := range st.Facts() {
		if l.T.Op == eng.OBin && l.T.Sym == "eq" && isInt(l.T.Args[0].Typ) {
			d := eng.Lin(u.Bin("-", l.T.Args[0], l.T.Args[1], types.Typ[types.Int]))
			if k := d.Coeff[n]; len(d.Coeff) == 1 && (k == 1 && d.C == -1 || k == -1 && d.C == 1) {
				return b2i(l.Neg)
			}
		}
	}
	return -1
}

// rec: t is the result of searching below child with the rest of the path.
func (s *search) rec(t *eng.Term) (child, out *eng.Term, ok bool) {
	if t == nil || t.Op != eng.ORet || !callTerm(t, "ret:"+eng.FuncName(s.m.entry), eng.FuncName(s.m.entry)) {
		if t == nil || t.Op != eng.ORet || !strings.Contains(t.Sym, s.m.entry.Name()+"@") && !strings.HasSuffix(t.Sym, s.m.entry.Name()) {
			return nil, nil, false
		}
	}
	if len(t.Args) <= s.m.out {
		return nil, nil, false
	}
	return t.Args[s.m.node], t.Args[s.m.out], true
}

func (s *search) restOf(t *eng.Term) bool {
	if t.Op != eng.OSlice || t.Args[0] != s.path {
		return false
	}
	lo, ok := t.Args[1].IntVal()
	return ok && lo == 1 && t.Args[2].IsNil()
}

// suffix: 1 the segment carries the verb of child, 0 it does not.
func (s *search) verbMatch(st *eng.State, child *eng.Term) (empty, suffix int) {
	empty, suffix = -1, -1
	isVerb := func(t *eng.Term) bool { return subField(t, child, s.m.verb) }
	trimmed := func(t *eng.Term) bool { return s.trimmed(t, child) }
	lenOf := func(t *eng.Term, p func(*eng.Term) bool) bool {
		return t.Op == eng.OBuiltin && t.Sym == "len" && p(t.Args[0])
	}
	for _, l := range st.Facts() {
		t := l.T
		v := 1
		if l.Neg {
			v = 0
		}
		switch {
		case t.Op == eng.OBin && t.Sym == "eq":
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				if str, ok := b.StrVal(); ok && str == "" && isVerb(a) {
					empty = v
				}
				if n, ok := b.IntVal(); ok && n == 0 && lenOf(a, isVerb) {
					empty = v
				}
				if trimmed(a) && s.seg(b) || lenOf(a, trimmed) && lenOf(b, s.seg) {
					suffix = 1 - v
				}
			}
		case t.Op == eng.OBin && t.Sym == "lt":
			if lenOf(t.Args[0], trimmed) && lenOf(t.Args[1], s.seg) {
				suffix = v
			}
			if n, ok := t.Args[0].IntVal(); ok && n == 0 && lenOf(t.Args[1], isVerb) {
				empty = 1 - v
			}
		case callTerm(t, "strings.HasSuffix") && len(t.Args) == 2 && s.seg(t.Args[0]) && isVerb(t.Args[1]):
			suffix = v
		case t.Op == eng.OExtract && callTerm(t.Args[0], "strings.CutSuffix") && s.seg(t.Args[0].Args[0]) && isVerb(t.Args[0].Args[1]):
			suffix = v
		}
	}
	return
}

// trimmed: the segment without the verb of child.
func (s *search) trimmed(t, child *eng.Term) bool {
	isVerb := func(t *eng.Term) bool { return subField(t, child, s.m.verb) }
	switch {
	case callTerm(t, "strings.TrimSuffix") && len(t.Args) == 2:
		return s.seg(t.Args[0]) && isVerb(t.Args[1])
	case t.Op == eng.OExtract && callTerm(t.Args[0], "strings.CutSuffix"):
		return s.seg(t.Args[0].Args[0]) && isVerb(t.Args[0].Args[1])
	case t.Op == eng.OSlice && s.seg(t.Args[0]):
		if !t.Args[1].IsNil() {
			if v, ok := t.Args[1].IntVal(); !ok || v != 0 {
				return false
			}
		}
		u := s.c.U
		if t.Args[2].IsNil() {
			return false
		}
		d := eng.Lin(u.Bin("-", u.Len(t.Args[0]), t.Args[2], types.Typ[types.Int]))
		if d.C != 0 || len(d.Coeff) != 1 {
			return false
		}
		for x, k := range d.Coeff {
			return k == 1 && x.Op == eng.OBuiltin && x.Sym == "len" && isVerb(x.Args[0])
		}
	}
	return false
}

// value of the parameter a matching child takes from the segment.
func (s *search) value(st *eng.State, t, child *eng.Term) bool {
	e, _ := s.verbMatch(st, child)
	if e == 1 && s.seg(t) {
		return true
	}
	return s.trimmed(t, child)
}

func (s *search) matched(st *eng.State, child *eng.Term) bool {
	if knownBool(st, child, s.m.isParam) == 0 {
		return false
	}
	e, x := s.verbMatch(st, child)
	return e == 1 || x == 1
}

// failed: child (of kind k) is proved not to lead to a route.
func (s *search) failed(st *eng.State, k byte, child *eng.Term) bool {
	if child == nil {
		return false
	}
	if st.IsNil(child) == 1 {
		return true
	}
	if k == 'p' {
		if knownBool(st, child, s.m.isParam) == 0 {
			return true
		}
		if e, x := s.verbMatch(st, child); x == 0 && e != 1 {
			return true
		}
	}
	switch s.more(st) {
	case 0:
		return knownBool(st, child, s.m.isEnd) == 0
	case 1:
		for _, l := range st.Facts() {
			// the search below found nothing
			for _, r := range append([]*eng.Term{l.T}, l.T.Args...) {
				if ch, _, ok := s.rec(r); ok && ch == child && st.IsNil(r) == 1 {
					return true
				}
			}
			if subFieldRec(l.T, s.m.isEnd) != nil {
				r := subFieldRec(l.T, s.m.isEnd)
				if ch, _, ok := s.rec(r); ok && ch == child && l.Neg {
					return true
				}
			}
		}
	}
	return false
}

func subFieldRec(t *eng.Term, f *types.Var) *eng.Term {
	cell := cellOf(t)
	if cell == nil || cell.Op != eng.OFAddr || cell.Obj != f {
		return nil
	}
	return cell.Args[0]
}

// litFailed: no route through the literal child.
func (s *search) litFailed(st *eng.State) bool {
	var lit *eng.Term
	for _, l := range st.Facts() {
		eng.Any(l.T, func(t *eng.Term) bool {
			if k, _ := s.kind(t); k == 'l' {
				lit = t
				return true
			}
			return false
		})
	}
	if lit == nil {
		return false
	}
	return s.failed(st, 'l', lit)
}

func c04(c *Ctx) {
	m := c.routes()
	c04search(c, m)
	for _, f := range m.callers {
		handleRules(c, m, f, "C04")
	}
	c.Min("search-literal-first", 2)
	c.Min("search-result", 4)
	c.Min("search-values", 3)
	c.Min("search-skip", 1)
	c.Min("handle-search", 1)
	c.Min("handle-once", 1)
}

func c04search(c *Ctx, m *routeModel) {
	u := c.U
	name := "route search"
	s := &search{c: c, m: m}
	w := newWalk()
	bind := func(st *eng.State) {
		ps := st.Params()
		s.recv, s.path, s.out = ps[m.node], ps[m.paths], ps[m.out]
	}
	// the loop condition over the parameter children
	overParams := func(t *eng.Term) bool {
		return eng.Any(t, func(x *eng.Term) bool {
			return x.Op == eng.OBuiltin && x.Sym == "len" && isFieldOf(x.Args[0], s.recv, m.params)
		})
	}
	yes := u.Bool(true)
	r := c.Run(m.entry, &eng.Options{
		Exact:    true,
		MaxSteps: 1500000,
		Stable: func(f *types.Var) bool {
			return f == m.lit || f == m.params || f == m.wild || f == m.isEnd || f == m.isParam || f == m.verb || f == m.pname
		},
		// every search writes its own list of values only
		StableCell: func(k *eng.Term) bool { return k.Op == eng.OParam && k.Obj == m.entry },
		Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
			bind(st)
			// by induction what a search below finds is a route; that a wildcard
			// is one is decided where routes are registered
			if r := subFieldRec(l.T, m.isEnd); r != nil && l.Neg {
				if _, _, ok := s.rec(r); ok && st.IsNil(r) == 0 {
					st.Cut()
					return
				}
			}
			if !overParams(l.T) {
				return
			}
			if l.T.Sym == "eq" {
				if v, ok := l.T.Args[0].IntVal(); ok && v == 0 && !l.Neg && l.T.Args[1] == u.Len(st.Load(u.FAddr(s.recv, m.params))) {
					st.SetVar("exhausted", yes)
				}
				return
			}
			if l.T.Sym != "lt" {
				return
			}
			if n := u.Len(st.Load(u.FAddr(s.recv, m.params))); l.T.Args[1] == n {
				if l.Neg {
					st.SetVar("exhausted", yes)
				} else if _, isC := l.T.Args[0].IntVal(); !isC || eng.FuncName(in.Parent()) != "" {
					st.SetVar("iter", l.T.Args[0])
					st.SetVar("cand", nil)
				}
			}
		},
		Back: func(st *eng.State, h *ssa.BasicBlock) {
			bind(st)
			if st.Var("iter") == nil {
				return
			}
			cand := st.Var("cand")
			c.On(st, cand != nil && s.failed(st, 'p', cand), "search-skip", name, h.Instrs[0].Pos(),
				"a parameter child is passed over although it may lead to a route (%v)", cand)
			st.SetVar("iter", nil)
			st.SetVar("cand", nil)
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			bind(st)
			switch e.Kind {
			case "load":
				if k, idx := s.kind(e.Val); k == 'p' {
					st.SetVar("cand", e.Val)
					w.add(u, e.Instr, idx)
				}
			case "call":
				if e.Callee != nil && m.cycle[target(e)] {
					args := e.Args
					if e.Recv != nil {
						args = append([]*eng.Term{e.Recv}, args...)
					}
					child, rest, out := args[m.node], args[m.paths], args[m.out]
					k, _ := s.kind(child)
					c.On(st, k == 'l' || k == 'p', "search-step", name, e.Pos, "the search goes on below something that is no child of this node: %v", child)
					c.On(st, s.restOf(rest), "search-step", name, e.Pos, "the search below a child is not given the rest of the path: %v", rest)
					c.On(st, s.more(st) == 1, "search-step", name, e.Pos, "the search goes on although the path may be used up")
					if k == 'p' {
						c.On(st, s.matched(st, child), "search-match", name, e.Pos, "a parameter child is searched without its segment matching")
						c.On(st, s.litFailed(st), "search-literal-first", name, e.Pos, "a parameter child is searched although the literal child may lead to a route")
					}
					fresh := out.Op == eng.OAlloc && emptyList(st, out)
					c.On(st, fresh, "search-values", name, e.Pos, "the values of a child are not collected in a list of their own")
				}
			}
			return false
		},
	})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		bind(st)
		res := x.Results[0]
		init := u.LoadInit(s.out)
		vals := st.Load(s.out)
		parts, okParts := appended(st, vals, init)
		exhausted := st.Var("exhausted") != nil
		switch k, _ := s.kind(res); {
		case res.IsNil() || st.IsNil(res) == 1:
			c.On(st, len(parts) == 0 && okParts, "search-values", name+", nothing found", x.Pos, "values are reported although no route was found")
			c.On(st, s.litFailed(st) && exhausted, "search-result", name+", nothing found", x.Pos, "the search gives up although a child may lead to a route")
			ok := false
			for _, l := range st.Facts() {
				for _, t := range append([]*eng.Term{l.T}, l.T.Args...) {
					if k, _ := s.kind(t); k == 'w' && st.IsNil(t) == 1 {
						ok = true
					}
				}
			}
			c.On(st, ok, "search-result", name+", nothing found", x.Pos, "the search gives up although there may be a wildcard")
		case k == 'w':
			c.On(st, st.IsNil(res) == 0, "search-result", name+", wildcard", x.Pos, "a wildcard that may not exist is returned")
			c.On(st, s.litFailed(st), "search-literal-first", name+", wildcard", x.Pos, "the wildcard hides a literal child that may lead to a route")
			c.On(st, exhausted, "search-result", name+", wildcard", x.Pos, "the wildcard hides a parameter child that may lead to a route")
			c.On(st, okParts && len(parts) == 1 && pairIs(st, parts[0], func(n, v *eng.Term) bool {
				return subField(n, res, m.pname) && callTerm(v, "strings.Join") && v.Args[0] == s.path && isStr(v.Args[1], "/")
			}), "search-values", name+", wildcard", x.Pos, "a wildcard does not report the rest of the path as its value")
		case k == 'l':
			c.On(st, st.IsNil(res) == 0 && s.more(st) == 0 && knownBool(st, res, m.isEnd) == 1, "search-result", name+", literal", x.Pos, "the literal child is returned although it may be no route or the path goes on")
			c.On(st, okParts && len(parts) == 0, "search-values", name+", literal", x.Pos, "a literal child reports values")
		case k == 'p':
			c.On(st, s.more(st) == 0 && knownBool(st, res, m.isEnd) == 1, "search-result", name+", parameter", x.Pos, "a parameter child is returned although it may be no route or the path goes on")
			c.On(st, s.matched(st, res), "search-match", name+", parameter", x.Pos, "a parameter child is returned without its segment matching")
			c.On(st, s.litFailed(st), "search-literal-first", name+", parameter", x.Pos, "a parameter child is returned although the literal child may be a route")
			c.On(st, okParts && len(parts) == 1 && pairIs(st, parts[0], func(n, v *eng.Term) bool {
				return subField(n, res, m.pname) && s.value(st, v, res)
			}), "search-values", name+", parameter", x.Pos, "a parameter child does not report exactly its own segment as value")
		default:
			child, out, ok := s.rec(res)
			if !c.On(st, ok, "search-result", name, x.Pos, "what is returned is neither a child nor the result of searching below one: %v", res) {
				continue
			}
			c.On(st, st.IsNil(res) == 0, "search-result", name+", below", x.Pos, "a search that found nothing hides the other children")
			inner := func(p part) bool { return p.list != nil && cellOf(p.list) == out }
			switch k, _ := s.kind(child); k {
			case 'l':
				c.On(st, okParts && len(parts) == 1 && inner(parts[0]), "search-values", name+", below literal", x.Pos, "the values found below the literal child are not what is reported")
			case 'p':
				c.On(st, s.litFailed(st), "search-literal-first", name+", below parameter", x.Pos, "a parameter child is used although the literal child may lead to a route")
				c.On(st, okParts && len(parts) == 2 && inner(parts[1]) && pairIs(st, parts[0], func(n, v *eng.Term) bool {
					return subField(n, child, m.pname) && s.value(st, v, child)
				}), "search-values", name+", below parameter", x.Pos, "the values reported are not the segment of the parameter followed by those found below it")
			}
		}
	}
	for in, idx := range w.first {
		v, ok := idx.IntVal()
		c.Check(ok && v == 0, "search-order", name, in.Pos(), "the parameter children are not searched from the first one")
	}
	for in, idx := range w.later {
		d, ok := delta(idx)
		c.Check(ok && d == 1, "search-order", name, in.Pos(), "the parameter children are not searched one by one in list order")
	}
	c.Min("search-order", 1)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func isStr(t *eng.Term, s string) bool {
	v, ok := t.StrVal()
	return ok && v == s
}

// emptyList: the list in this cell has no elements.
func emptyList(st *eng.State, cell *eng.Term) bool {
	v := st.Load(cell)
	if v.IsNil() {
		return true
	}
	n := st.U.Len(v)
	if k, ok := n.IntVal(); ok {
		return k == 0
	}
	if v.Op == eng.OSlice {
		if k, ok := v.Args[2].IntVal(); ok && k == 0 {
			return true
		}
	}
	if v.Op == eng.OAlloc && len(v.Args) > 0 {
		if k, ok := v.Args[0].IntVal(); ok && k == 0 {
			return true
		}
	}
	return st.EvalTerm(st.U.Eq(n, st.U.Int(0))) == 1
}

// part of what was appended to a list: single elements or another list.
type part struct {
	elem *eng.Term
	list *eng.Term
}

// appended lists what was appended to base to give v.
func appended(st *eng.State, v, base *eng.Term) ([]part, bool) {
	var out []part
	for v != base {
		if v.Op != eng.OBuiltin || v.Sym != "append" || len(v.Args) != 2 {
			return nil, false
		}
		if es, ok := st.Elems(v.Args[1]); ok {
			for i := len(es) - 1; i >= 0; i-- {
				out = append(out, part{elem: es[i]})
			}
		} else {
			out = append(out, part{list: v.Args[1]})
		}
		v = v.Args[0]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, true
}

// pairIs: the element is a map with exactly one entry satisfying ok.
func pairIs(st *eng.State, p part, ok func(k, v *eng.Term) bool) bool {
	if p.elem == nil {
		return false
	}
	n := 0
	good := false
	st.MapEntries(p.elem, func(k, v *eng.Term) {
		n++
		good = ok(k, v)
	})
	return n == 1 && good
}
