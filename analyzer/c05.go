package main

import (
	"go/token"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// regModel names the functions that build the route tree.
type regModel struct {
	m     *routeModel
	am    *actionModel
	fn    *ssa.Function // registers the routes below a node
	seg   *types.Named  // the part of a node made from a path segment
	parse map[*ssa.Function]bool
	recur map[*ssa.Function]bool
}

func (c *Ctx) touches(f *ssa.Function, ok func(v *types.Var) bool) bool {
	hit := false
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, is := in.(*ssa.FieldAddr); is {
					if s := structOf(x.X.Type()); s != nil && ok(s.Field(x.Field)) {
						hit = true
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return hit
}

func stores(f *ssa.Function, ok func(v *types.Var) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, is := in.(*ssa.Store); is {
				if a, is := x.Addr.(*ssa.FieldAddr); is {
					if s := structOf(a.X.Type()); s != nil && ok(s.Field(a.Field)) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) reg() *regModel {
	r := &regModel{m: c.routes(), parse: map[*ssa.Function]bool{}, recur: map[*ssa.Function]bool{}}
	r.am = c.actions(r.m)
	m := r.m
	for _, f := range c.topFuncs("") {
		if stores(f, func(v *types.Var) bool { return v == m.isParam }) {
			r.parse[f] = true
		}
	}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range c.topFuncs("") {
		calls[f] = callees(f)
	}
	for _, f := range c.topFuncs("") {
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for h := range calls[g] {
				if !seen[h] {
					seen[h] = true
					visit(h)
				}
			}
		}
		visit(f)
		if seen[f] && !m.cycle[f] {
			for g := range seen {
				if stores(g, func(v *types.Var) bool { return v == m.wild }) {
					r.recur[f] = true
				}
			}
		}
	}
	for _, f := range c.topFuncs("") {
		if r.recur[f] {
			continue
		}
		for g := range calls[f] {
			if r.recur[g] {
				c.Need(r.fn == nil || r.fn == g, "a single function registering routes")
				r.fn = g
			}
		}
	}
	c.Need(r.fn != nil, "the function registering routes")
	return r
}

func callees(f *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if h := x.Common().StaticCallee(); h != nil {
						out[h] = true
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return out
}

func init() {
	register("C05",
		"One arbitrary iteration of every loop of the registration is analysed: what is stored for a method, for All and for Any is an action holding the controller, the action name (explicit, else the default one) and a check that the controller has it; a path segment reuses the child of the same segment or inserts a new one in the list of its kind, verbs before plain parameters, after names were compared; only the last segment becomes a route and nothing follows a wildcard; HEAD falls back to GET exactly when it has no registration of its own; a segment is parsed into kind, name and verb.",
		"several registrations of the same method on one path (the last one wins); registering routes while requests are served",
		c05)
}

func c05(c *Ctx) {
	r := c.reg()
	regRules(c, r, c.lists(), "C05")
	for f := range r.parse {
		c05parse(c, r, f)
	}
	c05ensure(c, r)
	c.Min("reg-action", 1)
	c.Min("reg-all", 1)
	c.Min("reg-any", 1)
	c.Min("reg-head", 2)
	c.Min("reg-insert", 4)
	c.Min("reg-conflict", 2)
	c.Min("reg-end", 2)
	c.Min("reg-below", 1)
	c.Min("reg-descend", 1)
	c.Min("parse", 4)
	c.Min("reg-ensure", 2)
}

// regRules analyses the registration of routes below a node; id selects which
// obligations are reported.
func regRules(c *Ctx, g *regModel, lm *listModel, id string) {
	u := c.U
	m, am := g.m, g.am
	name := "registration"
	yes := u.Bool(true)
	on := func(which string, st *eng.State, ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
		if which != id {
			return ok
		}
		return c.On(st, ok, rule, construct, pos, format, a...)
	}
	own := map[*types.Var]bool{}
	for _, t := range []types.Type{m.t, am.t} {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			own[s.Field(i)] = true
		}
	}
	own[m.isParam], own[m.pname] = true, true
	isWild := fieldNamed(structOf(m.t), isBasic(types.Bool), "iswild", "wild")
	pathF := fieldNamed(structOf(m.t), isBasic(types.String), "path")
	c.Need(isWild != nil && pathF != nil, "the parts of a path segment")
	ensure := g.ensure(c)

	// the description of a registration: a struct value made from the
	// arguments; its parts by type
	d := g.desc(c)
	argT, argNamed, fMethod, fAction, fCtrl := d.s, d.t, d.method, d.action, d.ctrl

	// part reads field f of some description: gives the description
	part := func(t *eng.Term, f *types.Var) *eng.Term {
		t = eng.Strip(t)
		for t.Op == eng.OConv {
			t = t.Args[0]
		}
		if t.Op == eng.OField && t.Obj == f {
			return t.Args[0]
		}
		if cell := cellOf(t); cell != nil && cell.Op == eng.OFAddr && cell.Obj == f {
			return cell.Args[0]
		}
		return nil
	}
	partOf := func(st *eng.State, b *eng.Term, f *types.Var) *eng.Term {
		if _, ok := tPtr(b); ok {
			return st.Load(u.FAddr(b, f))
		}
		return u.Field(b, f)
	}
	emptyAct := func(st *eng.State, b *eng.Term) int {
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				for i, a := range l.T.Args {
					if isStr(l.T.Args[1-i], "") && part(a, fAction) == b {
						return b2i(!l.Neg)
					}
				}
			}
		}
		return -1
	}
	isFunc := func(st *eng.State, b *eng.Term) int {
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				for i, a := range l.T.Args {
					if k, ok := l.T.Args[1-i].IntVal(); ok && k == 19 && eng.Any(a, func(x *eng.Term) bool { return part(x, fCtrl) == b }) {
						return b2i(!l.Neg)
					}
				}
			}
		}
		return -1
	}
	hasMethod := func(st *eng.State, b *eng.Term, n string) int {
		for _, l := range st.Facts() {
			t := l.T
			if t.Op == eng.OExtract && t.Sym == "1" && strings.Contains(t.Args[0].Sym, "MethodByName") {
				args := t.Args[0].Args
				if isStr(args[len(args)-1], n) && eng.Any(t, func(x *eng.Term) bool { return part(x, fCtrl) == b }) {
					return b2i(!l.Neg)
				}
			}
			if callTerm(t, "(reflect.Value).IsValid") && eng.Any(t, func(x *eng.Term) bool {
				return x.Op != eng.OConst && strings.Contains(x.Sym, "MethodByName") && isStr(x.Args[len(x.Args)-1], n)
			}) && eng.Any(t, func(x *eng.Term) bool { return part(x, fCtrl) == b }) {
				return b2i(!l.Neg)
			}
		}
		return -1
	}
	// the composition of filter lists
	var inherited func(st *eng.State, t *eng.Term) bool
	lists := func(t *eng.Term, set map[string]bool) (a, b *eng.Term, ok bool) {
		if t != nil && t.Op == eng.OPure && set[t.Sym] && len(t.Args) == 2 {
			return t.Args[0], t.Args[1], true
		}
		return nil, nil, false
	}
	listPart := func(t *eng.Term) (base *eng.Term, f *types.Var) {
		t = eng.Strip(t)
		for t.Op == eng.OConv {
			t = t.Args[0]
		}
		f = fieldOf(t)
		if f == nil || !lm.isListT(f.Type()) {
			return nil, nil
		}
		return part(t, f), f
	}
	var fInc, fExc *types.Var
	inherited = func(st *eng.State, t *eng.Term) bool {
		a, b, ok := lists(t, lm.rem)
		if !ok {
			return false
		}
		b1, f1 := listPart(a)
		b2, f2 := listPart(b)
		if f1 == nil || f2 == nil || b1 != b2 || f1 == f2 {
			return false
		}
		isParam := false
		for _, p := range st.Params() {
			if b1 == p {
				isParam = true
			}
		}
		if fInc == nil {
			fInc, fExc = f1, f2
		}
		return isParam && fInc == f1 && fExc == f2
	}
	below := func(st *eng.State, t, desc *eng.Term) bool { // inherited + own
		a, b, ok := lists(t, lm.add)
		if !ok || !inherited(st, a) {
			return false
		}
		b1, f1 := listPart(b)
		return f1 == fInc && b1 == desc
	}
	ownList := func(st *eng.State, t, desc *eng.Term) bool {
		a, b, ok := lists(t, lm.rem)
		if !ok || !below(st, a, desc) {
			return false
		}
		b1, f1 := listPart(b)
		return f1 == fExc && b1 == desc
	}

	// an action object made for a description
	action := func(st *eng.State, v *eng.Term, e *eng.Event, kind string) {
		rule := "reg-" + kind
		con := name + ", " + kind
		if !on("C05", st, v.Op == eng.OAlloc && st.IsNil(v) == 0, rule, con, e.Pos, "no action of its own is registered: %v", v) {
			return
		}
		ctrl := st.Load(u.FAddr(v, am.controller))
		act := eng.Strip(st.Load(u.FAddr(v, am.name)))
		for act.Op == eng.OConv {
			act = act.Args[0]
		}
		fl := st.Load(u.FAddr(v, am.filters))
		desc := part(ctrl, fCtrl)
		if !on("C05", st, desc != nil, rule, con, e.Pos, "the controller is not that of the registration: %v", ctrl) {
			return
		}
		if id == "C07" {
			on("C07", st, ownList(st, fl, desc), "filters-own", con, e.Pos, "the filters are not the inherited ones without what the route exempts, then its own, without what it exempts: %v", fl)
			return
		}
		explicit := part(act, fAction) == desc
		em := emptyAct(st, desc)
		meth := partOf(st, desc, fMethod)
		want := map[string]string{"all": "*", "any": "**"}[kind]
		if desc.Op != eng.OOpaque {
			if want != "" {
				on("C05", st, st.EqTerms(meth, u.Str(want)) == 1, rule, con, e.Pos, "a registration that need not be %q is used as one", want)
			} else {
				on("C05", st, st.EqTerms(meth, u.Str("*")) == 0 && st.EqTerms(meth, u.Str("**")) == 0, rule, con, e.Pos, "the registrations for all methods end up among those of single methods")
			}
		}
		str, isConst := act.StrVal()
		fn := isFunc(st, desc)
		ok := explicit && em != 1
		switch kind {
		case "action":
			key := e.Args[0]
			on("C05", st, part(key, fMethod) == desc, rule, con, e.Pos, "the action is registered for another method: %v", key)
			ok = ok && em == 0 || em == 1 && methodNameOf(act, key)
		case "all":
			ok = ok || em == 1 && isConst && (str == "All" && fn == 0 && hasMethod(st, desc, "All") == 1 || str == "" && (fn == 1 || hasMethod(st, desc, "All") == 0))
			ok = ok || explicit && em == 1 && (fn == 1 || hasMethod(st, desc, "All") == 0)
		case "any":
			ok = ok || em == 1 && isConst && (str == "Any" && fn == 0 || str == "" && fn == 1) || explicit && em == 1 && fn == 1
		}
		on("C05", st, ok, rule, con, e.Pos, "the controller method registered is neither the one named explicitly nor the default one: %v", act)
		if kind != "action" && !(isConst && str == "") && !(explicit && em == 1) {
			has := false
			for _, p := range st.Trace {
				if ensure[target(p)] && p.Recv != nil && len(p.Args) == 1 && part(p.Recv, fCtrl) == desc {
					a := eng.Strip(p.Args[0])
					for a.Op == eng.OConv {
						a = a.Args[0]
					}
					has = has || a == act
				}
			}
			on("C05", st, has || isConst && hasMethod(st, desc, str) == 1, "reg-ensure", con, e.Pos, "it is not made sure that the controller has the method %v", act)
		}
	}
	// HEAD and GET registrations known on the path
	entry := func(t *eng.Term) string {
		cell := cellOf(t)
		if cell == nil {
			cell = t
		}
		if t.Op == eng.OMOk {
			if f := fieldOf(t.Args[0]); f == m.action {
				s, _ := t.Args[1].StrVal()
				return s
			}
			return ""
		}
		if cell.Op == eng.OMAddr && fieldOf(cell.Args[0]) == m.action {
			s, _ := cell.Args[1].StrVal()
			return s
		}
		return ""
	}
	nilEntry := func(st *eng.State, key string) int {
		r := -1
		for _, l := range st.Facts() {
			if l.T.Op == eng.OMOk && entry(l.T) == key {
				if l.Neg {
					r = 1
				}
			}
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				for i, a := range l.T.Args {
					if l.T.Args[1-i].IsNil() && entry(a) == key && r != 1 {
						r = b2i(!l.Neg)
					}
				}
			}
		}
		return r
	}

	// the node of the current segment
	segIdx := func(t *eng.Term) (base, idx *eng.Term) {
		b, i, ok := index(t)
		if ok && eng.Any(b, func(x *eng.Term) bool { return callTerm(x, "strings.Split") }) {
			return b, i
		}
		return nil, nil
	}
	childOf := func(st *eng.State, t *eng.Term) (parent *eng.Term, k byte) {
		cell := cellOf(t)
		if cell == nil {
			return nil, 0
		}
		switch cell.Op {
		case eng.OMAddr:
			if mc := cellOf(cell.Args[0]); mc != nil && mc.Op == eng.OFAddr && mc.Obj == m.lit {
				return mc.Args[0], 'l'
			}
		case eng.OIAddr:
			if mc := cellOf(cell.Args[0]); mc != nil && mc.Op == eng.OFAddr && mc.Obj == m.params {
				return mc.Args[0], 'p'
			}
		case eng.OFAddr:
			if cell.Obj == m.wild {
				return cell.Args[0], 'w'
			}
		}
		return nil, 0
	}
	sameName := func(st *eng.State, a, b *eng.Term) int {
		if a == b {
			return 1
		}
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				x, y := l.T.Args[0], l.T.Args[1]
				if subField(x, a, m.pname) && subField(y, b, m.pname) || subField(x, b, m.pname) && subField(y, a, m.pname) {
					return b2i(!l.Neg)
				}
			}
		}
		return -1
	}
	pathIs := func(st *eng.State, v, seg *eng.Term) bool {
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" && !l.Neg {
				for i, a := range l.T.Args {
					if l.T.Args[1-i] == seg && subField(a, v, pathF) {
						return true
					}
				}
			}
		}
		return false
	}
	newNode := func(t *eng.Term) bool {
		p, ok := tPtr(t)
		return ok && t.Op == eng.OAlloc && types.Identical(p, m.t)
	}
	segLoop := func(h *ssa.BasicBlock) bool {
		for b := range eng.LoopBody(h) {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok || x.Common().StaticCallee() == nil {
					continue
				}
				f := x.Common().StaticCallee()
				if g.parse[f] || g.recur[f] {
					return true
				}
				for h := range reachable(f) {
					if g.parse[h] || g.recur[h] {
						return true
					}
				}
			}
		}
		return false
	}
	// loops over parameter children: what every iteration that goes on proves
	type loopInfo struct{ names, paths, any bool }
	loopsSeen := map[*ssa.BasicBlock]*loopInfo{}
	type need struct {
		hs   map[*ssa.BasicBlock]bool
		kind string
		pos  token.Pos
	}
	var needs []need
	headerOf := map[string]*ssa.BasicBlock{}
	exhaustedLoops := func(st *eng.State) map[*ssa.BasicBlock]bool {
		out := map[*ssa.BasicBlock]bool{}
		for k := range st.Vars {
			if h := headerOf[k]; h != nil {
				out[h] = true
			}
		}
		return out
	}
	isLast := func(st *eng.State, idx *eng.Term, base *eng.Term) int {
		n := u.Len(base)
		next := u.Bin("+", idx, u.Int(1), types.Typ[types.Int])
		if ltProved(st, u, next, n, nil) {
			return 0
		}
		if leProved(st, u, n, next, nil) {
			return 1
		}
		if v := st.EqTerms(next, n); v >= 0 {
			return v
		}
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" && isInt(l.T.Args[0].Typ) {
				d := eng.Lin(u.Bin("-", l.T.Args[0], l.T.Args[1], types.Typ[types.Int]))
				w := eng.Lin(u.Bin("-", next, n, types.Typ[types.Int]))
				if sameLin(d, w, 1) || sameLin(d, w, -1) {
					return b2i(!l.Neg)
				}
			}
		}
		return -1
	}
	resets := []string{"rt", "end", "ins", "seg", "parsed"}
	r := c.Run(g.fn, &eng.Options{
		Exact:    true,
		MaxSteps: 1500000,
		Pure:     func(n string) bool { return lm.names[n] },
		Inline: func(f *ssa.Function) bool {
			if lm.fns[f] || ensure[f] || g.parse[f] {
				return false
			}
			return c.touches(f, func(v *types.Var) bool { return own[v] }) || !loops(f) && (len(f.Blocks) <= 2 ||
				len(f.Blocks) <= 8 && c.touches(f, func(v *types.Var) bool { return v == fAction || v == fMethod || v == fCtrl }))
		},
		CutAt: func(h *ssa.BasicBlock) int {
			if segLoop(h) {
				return 1
			}
			return 2
		},
		Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if !segLoop(h) {
				li := loopsSeen[h]
				if li == nil {
					li = &loopInfo{names: true, paths: true}
					loopsSeen[h] = li
				}
				key := "x" + h.Parent().RelString(nil) + h.String()
				headerOf[key] = h
				if !back {
					st.SetVar(key, nil)
					return
				}
				li.any = true
				li.names = li.names && st.Var("nameEq") != nil
				li.paths = li.paths && st.Var("pathNe") != nil
				return
			}
			seg := st.Var("seg")
			if back && seg != nil {
				b, idx := segIdx(seg)
				if _, ind := phiIn(noOld(u, idx)); ind == nil || ind.Phi.Block() != h {
					return
				}
				last := isLast(st, idx, b)
				rt := st.Var("rt")
				if rt == nil {
					// a node that exists already
					for p, v := range vals {
						if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.t) {
							if par, k := childOf(st, v); par != nil && (k == 'l' && cellOf(v).Args[1] == seg || pathIs(st, v, seg)) {
								rt = v
							}
						}
					}
				}
				if on("C05", st, rt != nil, "reg-descend", name, h.Instrs[0].Pos(), "a segment of a path is passed over") {
					on("C05", st, last == 0 || st.Var("end") == rt, "reg-end", name, h.Instrs[0].Pos(), "the node of the last segment does not become a route")
					on("C05", st, knownBool(st, rt, isWild) == 0 || last == 1, "reg-end", name+", wildcard", h.Instrs[0].Pos(), "a path may go on after a wildcard")
					for p, v := range vals {
						if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.t) {
							on("C05", st, v == rt, "reg-descend", name, h.Instrs[0].Pos(), "the next segment is not placed below the node of this one but below %v", v)
						}
					}
				}
			}
			if !back {
				for p, v := range vals {
					if pt, ok := p.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), m.t) && v.Op != eng.OOpaque {
						on("C05", st, v == st.Recv() || v == st.Params()[0], "reg-descend", name+", first segment", h.Instrs[0].Pos(), "the first segment is not placed below the node routes are registered for but below %v", v)
					}
				}
			}
			for _, k := range resets {
				st.SetVar(k, nil)
			}
			for k := range st.Vars {
				if headerOf[k] != nil {
					st.SetVar(k, nil)
				}
			}
		},
		Branch: func(st *eng.State, l eng.Lit, in *ssa.If) {
			if b := exhausted(l); b != nil {
				if f := fieldOf(b); f == m.params {
					key := "x" + in.Parent().RelString(nil) + loopHeader(in.Block())
					if headerOf[key] != nil {
						st.SetVar(key, yes)
					}
					st.SetVar("nameEq", nil)
					st.SetVar("pathNe", nil)
				}
			}
			t := l.T
			if t.Op == eng.OMOk || t.Op == eng.OBin && t.Sym == "eq" {
				if nilEntry(st, "HEAD") == 0 || nilEntry(st, "GET") == 1 {
					st.SetVar("head", yes)
				}
			}
			if t.Op == eng.OBin && t.Sym == "eq" {
				for i, a := range t.Args {
					b := t.Args[1-i]
					ca, cb := cellOf(a), cellOf(b)
					if ca != nil && ca.Op == eng.OFAddr && ca.Obj == m.pname && cb != nil && cb.Op == eng.OFAddr && cb.Obj == m.pname && !l.Neg {
						st.SetVar("nameEq", yes)
					}
					if ca != nil && ca.Op == eng.OFAddr && ca.Obj == pathF && b == st.Var("seg") && l.Neg {
						st.SetVar("pathNe", yes)
					}
				}
			}
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			switch e.Kind {
			case "load":
				if b, idx := segIdx(e.Val); b != nil {
					if p, _ := phiIn(idx); p != nil && st.Var("seg") == nil {
						st.SetVar("seg", e.Val)
						v, ok := firstIdx(u, idx)
						on("C05", st, ok && v == 1, "reg-descend", name, e.Pos, "the segments of a path are not taken one by one from the first: %v", idx)
					}
				}
				if f := fieldOf(e.Val); f == m.params {
					return false
				}
				if p, k := childOf(st, e.Val); k == 'p' && p != nil {
					st.SetVar("nameEq", nil)
					st.SetVar("pathNe", nil)
				}
				// an existing child that is used again
				return false
			case "mapset":
				f := fieldOf(e.Recv)
				switch f {
				case m.action:
					mc := cellOf(e.Recv)
					on("C05", st, mc != nil && mc.Args[0] == st.Recv(), "reg-action", name, e.Pos, "an action is registered with another node")
					key, _ := e.Args[0].StrVal()
					if key == "HEAD" && entry(e.Val) != "" {
						on("C05", st, entry(e.Val) == "GET" && nilEntry(st, "GET") == 0, "reg-head", name, e.Pos, "HEAD falls back to %v", e.Val)
						on("C05", st, nilEntry(st, "HEAD") == 1, "reg-head", name, e.Pos, "HEAD falls back to GET although it may have a registration of its own")
						st.SetVar("head", yes)
						return false
					}
					st.SetVar("head", nil)
					action(st, e.Val, e, "action")
				case m.lit:
					if id != "C05" {
						return false
					}
					rt := e.Val
					seg := st.Var("seg")
					mc := cellOf(e.Recv)
					if mc == nil || seg == nil {
						on("C05", st, false, "reg-insert", name, e.Pos, "a literal child is stored in an unknown place")
						return false
					}
					on("C05", st, e.Args[0] == seg || subField(e.Args[0], rt, pathF), "reg-insert", name+", literal", e.Pos, "a literal child is stored under another segment: %v", e.Args[0])
					on("C05", st, knownBool(st, rt, m.isParam) == 0 && knownBool(st, rt, isWild) == 0, "reg-insert", name+", literal", e.Pos, "a parameter or wildcard may be stored as a literal child")
					if newNode(rt) {
						on("C05", st, noLit(st, m, mc.Args[0], seg), "reg-insert", name+", literal", e.Pos, "a literal child may be replaced by a new one")
					}
					st.SetVar("ins", rt)
					st.SetVar("rt", rt)
				}
			case "store":
				switch fieldOf(e.Addr) {
				case am.all:
					if e.Addr.Args[0] == st.Recv() {
						action(st, e.Val, e, "all")
					}
				case am.any:
					if e.Addr.Args[0] == st.Recv() {
						action(st, e.Val, e, "any")
					}
				case m.isEnd:
					if e.Val.IsFalse() && newNode(e.Addr.Args[0]) {
						return false
					}
					seg := st.Var("seg")
					if seg == nil {
						on("C05", st, false, "reg-end", name, e.Pos, "a node becomes a route outside the loop over the segments")
						return false
					}
					b, idx := segIdx(seg)
					if e.Val.IsTrue() {
						on("C05", st, isLast(st, idx, b) == 1, "reg-end", name, e.Pos, "a node becomes a route although it may not be the last one of the path")
						st.SetVar("end", e.Addr.Args[0])
					} else {
						on("C05", st, false, "reg-end", name, e.Pos, "a route may stop being one: %v", e.Val)
					}
					st.SetVar("rt", e.Addr.Args[0])
				case m.params:
					par := e.Addr.Args[0]
					if newNode(par) {
						return false
					}
					if id != "C05" {
						return false
					}
					old := func(t *eng.Term) bool { return isFieldOf(t, par, m.params) && t.Op == eng.OLoad }
					var rt *eng.Term
					front := false
					if e.Val.Op == eng.OBuiltin && e.Val.Sym == "append" && len(e.Val.Args) == 2 {
						a, b := e.Val.Args[0], e.Val.Args[1]
						if es, ok := st.Elems(b); ok && len(es) == 1 && old(a) {
							rt = es[0]
						} else if es, ok := st.Elems(a); ok && len(es) == 1 && old(b) {
							rt, front = es[0], true
						}
					}
					if !on("C05", st, rt != nil, "reg-insert", name+", parameter", e.Pos, "the parameter children are replaced by something else than the same list with a new child: %v", e.Val) {
						return false
					}
					on("C05", st, newNode(rt), "reg-insert", name+", parameter", e.Pos, "a parameter child may be inserted a second time")
					on("C05", st, knownBool(st, rt, m.isParam) == 1, "reg-insert", name+", parameter", e.Pos, "a child that may be no parameter is inserted as one")
					verb := emptyField(st, rt, m.verb)
					on("C05", st, front && verb == 0 || !front && verb == 1, "reg-insert", name+", parameter", e.Pos, "parameters with a verb do not come before those without")
					needs = append(needs, need{exhaustedLoops(st), "names", e.Pos}, need{exhaustedLoops(st), "paths", e.Pos})
					on("C05", st, c.parentIs(st, m, rt, par), "reg-insert", name+", parameter", e.Pos, "a child does not know the node it is below")
					st.SetVar("ins", rt)
					st.SetVar("rt", rt)
				case m.wild:
					par := e.Addr.Args[0]
					if newNode(par) || id != "C05" {
						return false
					}
					rt := e.Val
					on("C05", st, knownBool(st, rt, isWild) == 1, "reg-insert", name+", wildcard", e.Pos, "a child that may be no wildcard is inserted as one")
					was := st.Load(u.FAddr(par, m.wild))
					on("C05", st, st.IsNil(was) == 1 || sameName(st, was, rt) == 1, "reg-conflict", name+", wildcard", e.Pos, "a wildcard replaces one of another name")
					st.SetVar("ins", rt)
					st.SetVar("rt", rt)
				}
			case "call":
				f := target(e)
				if g.parse[f] {
					args := e.Args
					if e.Recv != nil {
						args = append([]*eng.Term{e.Recv}, args...)
					}
					ok := false
					for _, a := range args {
						if b, _ := segIdx(a); b != nil {
							ok = true
							if st.Var("seg") == nil {
								st.SetVar("seg", a)
							}
						}
					}
					on("C05", st, ok, "reg-insert", name, e.Pos, "a new node is not made from a segment of the path")
				}
				if g.recur[f] || f == g.fn {
					var d *eng.Term
					for _, a := range e.Args {
						if a.Typ != nil && types.Identical(a.Typ, argNamed) {
							d = a
						}
						if p, ok := tPtr(a); ok && types.Identical(p, argNamed) {
							d = st.Load(a)
						}
					}
					if on("C05", st, d != nil, "reg-below", name, e.Pos, "the routes below are registered without a description") && id == "C07" {
						base := d
						if d.Op == eng.OStruct {
							base = d.Args[0]
						}
						if fInc == nil {
							for i := 0; i < argT.NumFields(); i++ {
								if f := argT.Field(i); lm.isListT(f.Type()) && strings.Contains(strings.ToLower(f.Name()), "filter") {
									fInc = f
								} else if lm.isListT(f.Type()) {
									fExc = f
								}
							}
						}
						fl := u.Field(d, fInc)
						on("C07", st, below(st, fl, base), "filters-below", name, e.Pos, "the routes below do not inherit the filters, followed by their own: %v", fl)
						ex := u.Field(d, fExc)
						b1, f1 := listPart(ex)
						on("C07", st, f1 == fExc && b1 == base, "filters-below", name, e.Pos, "what a route below exempts is lost: %v", ex)
					}
					return true
				}
				return ensure[f]
			}
			return false
		},
	})
	if id == "C05" {
		for _, n := range needs {
			ok := false
			for h := range n.hs {
				li := loopsSeen[h]
				if li != nil && li.any && (n.kind == "names" && li.names || n.kind == "paths" && li.paths) {
					ok = true
				}
			}
			if n.kind == "names" {
				c.Check(ok, "reg-conflict", name+", parameter", n.pos, "a parameter is inserted without its name having been compared with those of all others at this place")
			} else {
				c.Check(ok, "reg-insert", name+", parameter", n.pos, "a parameter is inserted although the same segment may exist already")
			}
		}
		for _, x := range r.Exits {
			if x.Kind == "return" {
				c.On(x.St, x.St.Var("head") != nil, "reg-head", name, x.Pos, "GET may be registered without HEAD falling back to it")
			}
		}
	}
}

func sameLin(a, b eng.Linear, k int64) bool {
	if a.C != k*b.C || len(a.Coeff) != len(b.Coeff) {
		return false
	}
	for t, v := range a.Coeff {
		if b.Coeff[t] != k*v {
			return false
		}
	}
	return true
}

// noLit: there is no literal child for this segment.
func noLit(st *eng.State, m *routeModel, par, seg *eng.Term) bool {
	for _, l := range st.Facts() {
		t := l.T
		if t.Op == eng.OMOk && l.Neg && isFieldOf(t.Args[0], par, m.lit) && t.Args[1] == seg {
			return true
		}
		if t.Op == eng.OBin && t.Sym == "eq" && !l.Neg {
			for i, a := range t.Args {
				if !t.Args[1-i].IsNil() {
					continue
				}
				if cell := cellOf(a); cell != nil && cell.Op == eng.OMAddr && isFieldOf(cell.Args[0], par, m.lit) && cell.Args[1] == seg {
					return true
				}
				if isFieldOf(a, par, m.lit) { // no children at all
					return true
				}
			}
		}
	}
	return false
}

// emptyField: 1 the string field of the node is empty, 0 it is not.
func emptyField(st *eng.State, base *eng.Term, f *types.Var) int {
	for _, l := range st.Facts() {
		if l.T.Op == eng.OBin && l.T.Sym == "eq" {
			for i, a := range l.T.Args {
				if isStr(l.T.Args[1-i], "") && subField(a, base, f) {
					return b2i(!l.Neg)
				}
			}
		}
	}
	return -1
}

// parentIs: a new node was made below par.
func (c *Ctx) parentIs(st *eng.State, m *routeModel, rt, par *eng.Term) bool {
	if m.parent == nil {
		return true
	}
	return st.Load(c.U.FAddr(rt, m.parent)) == par
}

func loopHeader(b *ssa.BasicBlock) string {
	// innermost loop the block belongs to
	best := ""
	size := 1 << 30
	for _, h := range b.Parent().Blocks {
		isH := false
		for _, p := range h.Preds {
			if h.Dominates(p) {
				isH = true
			}
		}
		if !isH {
			continue
		}
		if body := eng.LoopBody(h); body[b] && len(body) < size {
			best, size = h.String(), len(body)
		}
	}
	return best
}

func reachable(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for h := range callees(g) {
			if !seen[h] && h.Pkg != nil && f.Pkg == h.Pkg {
				seen[h] = true
				visit(h)
			}
		}
	}
	visit(f)
	return seen
}

func isBasicNot(k types.BasicKind, not *types.Var) func(*types.Var) bool {
	is := isBasic(k)
	return func(f *types.Var) bool { return f != not && is(f) }
}

// methodNameOf: the controller method named after the request method of key.
func methodNameOf(t, key *eng.Term) bool {
	key = eng.Strip(key)
	if t.Op == eng.OPure && len(t.Args) == 1 && eng.Strip(t.Args[0]) == key && strings.HasPrefix(t.Sym, "(") {
		return true // the method of the method type itself, decided with dispatch
	}
	ps := eng.ConcatParts(t)
	return len(ps) == 2 && eng.Any(ps[0], func(x *eng.Term) bool { return x == key }) && callTerm(ps[1], "strings.ToLower") && eng.Any(ps[1], func(x *eng.Term) bool { return x == key })
}

// ensure finds the functions panicking when a controller lacks a method.
func (g *regModel) ensure(c *Ctx) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.topFuncs("") {
		rv := f.Signature.Recv()
		if rv == nil || !types.Identical(rv.Type(), g.am.controller.Type()) || len(f.Params) != 2 || f.Signature.Results().Len() != 0 {
			continue
		}
		if b, ok := f.Params[1].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					out[f] = true
				}
			}
		}
	}
	return out
}

// descModel: the description of one registration.
type descModel struct {
	t                    types.Type
	s                    *types.Struct
	method, action, ctrl *types.Var
}

func (g *regModel) desc(c *Ctx) *descModel {
	d := &descModel{}
	for _, p := range g.fn.Params {
		if s, ok := p.Type().Underlying().(*types.Struct); ok {
			d.s, d.t = s, p.Type()
		} else if pp, ok := p.Type().Underlying().(*types.Pointer); ok {
			if s, ok := pp.Elem().Underlying().(*types.Struct); ok && !types.Identical(pp.Elem(), g.m.t) {
				d.s, d.t = s, pp.Elem()
			}
		}
	}
	c.Need(d.s != nil, "the description of a registration")
	mt := g.m.action.Type().Underlying().(*types.Map).Key()
	for i := 0; i < d.s.NumFields(); i++ {
		f := d.s.Field(i)
		switch {
		case types.Identical(f.Type(), mt):
			d.method = f
		case types.Identical(f.Type(), g.am.controller.Type()):
			d.ctrl = f
		}
	}
	d.action = fieldNamed(d.s, isBasicNot(types.String, d.method), "action")
	c.Need(d.method != nil && d.action != nil && d.ctrl != nil, "method, action and controller of a registration")
	return d
}

// charAt: 1 the text has ch at position i, 0 it has not, -1 unknown.
func charAt(st *eng.State, p *eng.Term, i int, ch string) int {
	for _, l := range st.Facts() {
		t := l.T
		if t.Op == eng.OBin && t.Sym == "eq" {
			for k, a := range t.Args {
				v, ok := t.Args[1-k].IntVal()
				b, idx, isIdx := index(a)
				if !ok || !isIdx || b != p {
					continue
				}
				if n, ok := idx.IntVal(); ok && int(n) == i {
					if v == int64(ch[0]) {
						return b2i(!l.Neg)
					} else if !l.Neg {
						return 0
					}
				}
			}
			for k, a := range t.Args { // compared as a piece of text
				s, ok := t.Args[1-k].StrVal()
				if ok && a.Op == eng.OSlice && a.Args[0] == p && len(a.Args) >= 3 && len(s) == 1 {
					lo := int64(0)
					if !a.Args[1].IsNil() {
						lo, _ = a.Args[1].IntVal()
					}
					if !a.Args[2].IsNil() {
						hi, ok := a.Args[2].IntVal()
						if ok && lo == int64(i) && hi == lo+1 {
							if s == ch {
								return b2i(!l.Neg)
							} else if !l.Neg {
								return 0
							}
						}
					}
				}
			}
		}
		if callTerm(t, "strings.HasPrefix") && t.Args[0] == p {
			s, ok := t.Args[1].StrVal()
			if ok && len(s) > i && !l.Neg {
				return b2i(s[i:i+1] == ch)
			}
			if ok && len(s) == i+1 && s[i:] == ch && l.Neg {
				held := true
				for j := 0; j < i; j++ {
					held = held && charAt(st, p, j, s[j:j+1]) == 1
				}
				if held {
					return 0
				}
			}
		}
	}
	if p.Typ != nil && st.EqTerms(p, st.U.Str("")) == 1 {
		return 0
	}
	if leProved(st, st.U, st.U.Len(p), st.U.Int(int64(i)), nil) {
		return 0
	}
	return -1
}

func notPrefix(st *eng.State, p *eng.Term, pre string) bool {
	for _, l := range st.Facts() {
		if l.Neg && callTerm(l.T, "strings.HasPrefix") && l.T.Args[0] == p && isStr(l.T.Args[1], pre) {
			return true
		}
	}
	return false
}

// c05parse: a segment is split into its kind, its name and its verb.
func c05parse(c *Ctx, g *regModel, f *ssa.Function) {
	u, m := c.U, g.m
	isWild := fieldNamed(structOf(m.t), isBasic(types.Bool), "iswild", "wild")
	pathF := fieldNamed(structOf(m.t), isBasic(types.String), "path")
	name := "parsing of a segment"
	var text *ssa.Parameter
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			text = p
		}
	}
	c.Need(text != nil, "the segment to be parsed")
	r := c.Run(f, &eng.Options{
		Exact: true,
		CutAt: cutAll,
		Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "store" },
	})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		var p *eng.Term
		for _, q := range st.Params() {
			if b, ok := tBasic(q); ok && b.Kind() == types.String {
				p = q
			}
		}
		// the node: the receiver, or what is made here
		var node *eng.Term
		stored := map[*types.Var]*eng.Term{}
		for _, e := range st.Trace {
			if e.Kind == "store" {
				if fv := fieldOf(e.Addr); fv != nil && (fv == m.isParam || fv == isWild || fv == pathF || fv == m.pname || fv == m.verb) {
					if fv == pathF || node == nil {
						node = e.Addr.Args[0]
					}
					stored[fv] = e.Val
				}
			}
		}
		if !c.On(st, node != nil && stored[pathF] == p, "parse", name, x.Pos, "the segment itself is not kept") {
			continue
		}
		is := func(v *types.Var) bool { return stored[v] != nil && !stored[v].IsFalse() }
		from := func(k int64) *eng.Term { return u.Slice(p, u.Int(k), nil, p.Typ) }
		colon := charAt(st, p, 0, ":")
		star := charAt(st, p, 0, "*")
		second := charAt(st, p, 1, ":")
		kind, ok := byte(0), true
		var rest *eng.Term
		switch {
		case colon == 1:
			kind, rest = 'p', from(1)
		case star == 1 && second == 1:
			kind, rest = 'w', from(2)
		case colon == 0 && (star == 0 || second == 0 || notPrefix(st, p, "*:")):
		default:
			ok = false
		}
		if !c.On(st, ok, "parse", name+", kind", x.Pos, "the kind of the segment is not decided by its first characters") {
			continue
		}
		if rest != nil && st.EqTerms(rest, u.Str("")) == 1 {
			continue // no name: left open
		}
		if pre := map[byte]string{'p': ":", 'w': "*:"}[kind]; pre != "" && st.EqTerms(p, u.Str(pre)) == 1 {
			continue
		}
		c.On(st, is(m.isParam) == (kind == 'p'), "parse", name+", kind", x.Pos, "a segment is taken for a parameter exactly when it begins with a colon")
		c.On(st, is(isWild) == (kind == 'w'), "parse", name+", kind", x.Pos, "a segment is taken for a wildcard exactly when it begins with a star and a colon")
		if kind == 0 {
			continue
		}
		same := func(t *eng.Term) bool {
			t = eng.Strip(t)
			if t == rest {
				return true
			}
			if callTerm(t, "strings.TrimPrefix") && t.Args[0] == p {
				s, ok := t.Args[1].StrVal()
				return ok && s == map[byte]string{'p': ":", 'w': "*:"}[kind]
			}
			return false
		}
		pname, verb := stored[m.pname], stored[m.verb]
		sep := -1
		for _, l := range st.Facts() {
			if callTerm(l.T, "strings.Contains") && same(l.T.Args[0]) && isStr(l.T.Args[1], ":") {
				sep = b2i(!l.Neg)
			}
		}
		colonAt := func(t *eng.Term) bool {
			return t != nil && (callTerm(t, "strings.Index") || callTerm(t, "strings.IndexByte") || callTerm(t, "strings.IndexRune")) && same(t.Args[0])
		}
		switch sep {
		case 1:
			lo, hi, vlo := u.Int(0), (*eng.Term)(nil), (*eng.Term)(nil)
			at := func(t *eng.Term, from int64) bool { // from + the place of the colon
				if colonAt(t) {
					return from == 0
				}
				l := eng.Lin(t)
				for x, k := range l.Coeff {
					if len(l.Coeff) != 1 || k != 1 || !colonAt(x) {
						return false
					}
				}
				return l.C == from && len(l.Coeff) == 1
			}
			if kind == 'p' {
				lo = u.Int(1)
			} else {
				lo = u.Int(2)
			}
			k, _ := lo.IntVal()
			if pname != nil && pname.Op == eng.OSlice {
				hi = pname.Args[2]
			}
			if verb != nil && verb.Op == eng.OSlice {
				vlo = verb.Args[1]
			}
			c.On(st, hi != nil && (pname.Args[0] == p && pname.Args[1] == lo && at(hi, k) || same(pname.Args[0]) && pname.Args[1].IsNil() && colonAt(hi)), "parse", name+", name", x.Pos, "the name is not what comes before the verb: %v", pname)
			c.On(st, vlo != nil && verb.Args[2].IsNil() && (verb.Args[0] == p && at(vlo, k) || same(verb.Args[0]) && colonAt(vlo)), "parse", name+", verb", x.Pos, "the verb is not what follows the name, with its colon: %v", verb)
		case 0:
			c.On(st, pname != nil && same(pname), "parse", name+", name", x.Pos, "the name is not the rest of the segment: %v", pname)
			c.On(st, verb == nil || isStr(verb, ""), "parse", name+", verb", x.Pos, "a segment without a second colon gets a verb: %v", verb)
		default:
			c.On(st, false, "parse", name+", verb", x.Pos, "it is not looked whether the segment has a verb")
		}
	}
}

// c05ensure: the check that a controller has a method, and its use.
func c05ensure(c *Ctx, g *regModel) {
	u := c.U
	fns := g.ensure(c)
	c.Need(len(fns) > 0, "the check that a controller has a method")
	kindIs := func(st *eng.State, k int64) int {
		r := -1
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" {
				for i, a := range l.T.Args {
					if v, ok := l.T.Args[1-i].IntVal(); ok && a.Typ != nil && strings.HasSuffix(a.Typ.String(), "reflect.Kind") {
						if v == k {
							return b2i(!l.Neg)
						} else if !l.Neg {
							r = 0
						}
					}
				}
			}
		}
		return r
	}
	for f := range fns {
		r := c.Run(f, &eng.Options{Exact: true, CutAt: func(*ssa.BasicBlock) int { return 2 }, Event: func(st *eng.State, e *eng.Event) bool { return false }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			want := st.Params()[len(st.Params())-1]
			ok := kindIs(st, 25) == 0 && (st.EqTerms(want, u.Str("")) == 1)
			for _, l := range st.Facts() {
				if l.Neg {
					continue
				}
				t := l.T
				if callTerm(t, "(reflect.Value).IsValid") {
					t = t.Args[0]
				} else if t.Op == eng.OExtract && t.Sym == "1" {
					t = t.Args[0]
				} else {
					continue
				}
				if strings.Contains(t.Sym, "MethodByName") && t.Args[len(t.Args)-1] == want {
					ok = true
				}
			}
			c.On(st, ok, "reg-ensure", "method check", x.Pos, "a controller passes without its having the method")
		}
	}
	// every registration made from handlers: the default method is ensured
	d := g.desc(c)
	n := 0
	for _, f := range c.topFuncs("") {
		uses := false
		for h := range callees(f) {
			uses = uses || fns[h]
		}
		res := f.Signature.Results()
		if uses && res.Len() == 1 && (types.Identical(res.At(0).Type(), d.t)) {
			n++
			r := c.Run(f, &eng.Options{
				Exact: true,
				CutAt: cutAll,
				Inline: func(h *ssa.Function) bool {
					return !fns[h] && !loops(h) && len(h.Blocks) <= 4
				},
				Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" && fns[target(e)] },
			})
			for _, x := range r.Exits {
				if x.Kind != "return" {
					continue
				}
				st := x.St
				ok := false
				res := x.Results[0]
				if _, isP := tPtr(res); isP {
					res = st.Load(res)
				}
				A, M, C := u.Field(res, d.action), u.Field(res, d.method), u.Field(res, d.ctrl)
				about := func(t, v *eng.Term) bool {
					return eng.Any(t, func(y *eng.Term) bool { return y == v })
				}
				for _, l := range st.Facts() {
					if l.T.Op != eng.OBin || l.T.Sym != "eq" {
						continue
					}
					for i, a := range l.T.Args {
						b := l.T.Args[1-i]
						switch {
						case a == C && b.IsNil() && !l.Neg,
							about(a, A) && isStr(b, "") && l.Neg,
							about(a, M) && (isStr(b, "*") || isStr(b, "**")) && !l.Neg:
							ok = true
						}
						if k, isK := b.IntVal(); isK && k == 19 && !l.Neg && (about(a, C) || about(a, st.Load(C))) {
							ok = true
						}
					}
				}
				if C.IsNil() {
					ok = true
				}
				for _, e := range st.Trace {
					if e.Kind == "call" && fns[target(e)] && e.Recv == C && (about(e.Args[len(e.Args)-1], M) || st.EqTerms(M, u.Str("")) == 1) {
						ok = true
					}
				}
				c.On(st, ok, "reg-default", "registration", x.Pos, "a struct controller is registered without its having the method the request method is served by")
			}
		}
	}
	c.Need(n > 0, "the function collecting the parts of a registration")
	// an action named explicitly
	mh := c.Type("", "MethodHandler")
	it, _ := mh.Underlying().(*types.Interface)
	c.Need(it != nil, "the registration of a method")
	for _, f := range c.topFuncs("") {
		rv := f.Signature.Recv()
		if rv == nil || !types.Implements(rv.Type(), it) || f.Name() != "Action" {
			continue
		}
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(h *ssa.Function) bool { return !fns[h] && !loops(h) && len(h.Blocks) <= 4 },
			Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" && fns[target(e)] }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			ok := false
			for _, e := range x.St.Trace {
				if e.Kind == "call" && fns[target(e)] && e.Args[len(e.Args)-1] == x.St.Params()[len(x.St.Params())-1] {
					ok = true
				}
			}
			c.On(x.St, ok, "reg-explicit", "explicit action", x.Pos, "a controller method is named that the controller need not have")
		}
	}
	// the registration functions: Get registers GET, and so on
	for _, f := range c.topFuncs("") {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || res.Len() != 1 || !types.Identical(res.At(0).Type(), mh) || f.Signature.Params().Len() != 1 {
			continue
		}
		want := strings.ToUpper(f.Name())
		switch want {
		case "ALL":
			want = "*"
		case "ANY":
			want = "**"
		}
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(h *ssa.Function) bool {
			rs := h.Signature.Results()
			return rs.Len() == 1 && (types.Identical(rs.At(0).Type(), mh) || isSlice(rs.At(0).Type()))
		}, Event: func(st *eng.State, e *eng.Event) bool { return false }})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			es, ok := x.St.Elems(eng.Strip(x.Results[0]))
			n := 0
			for _, e := range es {
				e = eng.Strip(e)
				for e.Op == eng.OIface || e.Op == eng.OConv {
					e = e.Args[0]
				}
				if e.Typ != nil && types.Identical(e.Typ, d.method.Type()) {
					if s, is := e.StrVal(); is && s == want {
						n++
					} else {
						n = 99
					}
				}
			}
			c.On(x.St, ok && n == 1, "reg-kind", f.Name(), x.Pos, "%s does not register for exactly %s", f.Name(), want)
		}
	}
	c.Min("reg-kind", 5)
	c.Min("reg-default", 2)
	c.Min("reg-explicit", 1)
}
