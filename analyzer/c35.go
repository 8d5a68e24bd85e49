package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35",
		"Case analysis of one arbitrary parameter in every loop over parameters, and of every path around the loops: by what is known of its name on the path, it is bound under exactly the name, to exactly the element, field, key or argument the name stands for, or the path shows it is not meant. What the query, the route and the body carry is merged whole, the query first; each kind of type is bound by the function that is examined for it.",
		"struct types that embed themselves; element names written twice in different ways; which of two values of one name wins across spellings; pointers behind nested names",
		c35)
}

// binding is one path through a function that binds a named parameter.
type binding struct {
	lines
	p, name, typ *eng.Term
	fn           binders
}

// binders: the functions that make one value each.
type binders struct{ bind, value, file *ssa.Function }

// called: the result of a call of f.
func called(t *eng.Term, f *ssa.Function) bool {
	return t != nil && (isCallTo(t, f) || retOf(bare(t), f.String()) || callTerm(bare(t), f.String()))
}

// fieldPath: t was read from a field of a field of base.
func fieldPath(t, base *eng.Term, fs ...string) bool {
	t = bare(t)
	for i := len(fs) - 1; i >= 0; i-- {
		if t != nil && t.Op == eng.OLoad {
			t = t.Args[0]
		}
		if t == nil || t.Op != eng.OFAddr && t.Op != eng.OField || fieldOf(t) == nil || fieldOf(t).Name() != fs[i] {
			return false
		}
		t = bare(t.Args[0])
	}
	return t == base
}

func (b *binding) nameIs(t *eng.Term, more string) bool {
	ps := joined(b.u, parts(t))
	if more == "" {
		return len(ps) == 1 && ps[0] == b.name
	}
	return len(ps) == 2 && ps[0] == b.name && isStr(ps[1], more)
}

// prefixed: key begins with the name and more (1), it does not (0).
func (b *binding) prefixed(key *eng.Term, more string) int {
	return hasFact(b.st, func(t *eng.Term) bool {
		if t.Op == eng.OExtract && t.Sym == "1" {
			t = t.Args[0]
			return b.call(t, "strings.CutPrefix") && bare(t.Args[0]) == key && b.nameIs(t.Args[1], more)
		}
		return b.call(t, "strings.HasPrefix") && bare(t.Args[0]) == key && b.nameIs(t.Args[1], more)
	})
}

// boundTo reads t as the value bound to a name; a conversion to the type it
// was asked for changes nothing.
func (b *binding) boundTo(t *eng.Term) (name, typ *eng.Term, ok bool) {
	t = b.plain(t)
	if called(t, b.fn.bind) && len(t.Args) == 3 && bare(t.Args[0]) == b.p {
		return bare(t.Args[1]), bare(t.Args[2]), true
	}
	return
}

func (b *binding) plain(t *eng.Term) *eng.Term {
	t = bare(t)
	for callTerm(t, "(reflect.Value).Convert") {
		t = bare(t.Args[0])
	}
	return t
}

// from reads t as the value made of one text or file.
func (b *binding) from(t *eng.Term, f *ssa.Function) (in, typ *eng.Term, ok bool) {
	t = b.plain(t)
	if called(t, f) && len(t.Args) == 2 {
		return bare(t.Args[0]), bare(t.Args[1]), true
	}
	return
}

func (b *binding) typeCall(t *eng.Term, m string, of *eng.Term) bool {
	t = bare(t)
	return callTerm(t, "(reflect.Type)."+m) && bare(t.Args[0]) == of
}

// part of a text between two places.
func (b *binding) cut(t *eng.Term, lo, hi eng.Linear) span {
	s := b.span(t)
	return span{s.base, linAdd(s.lo, lo), linAdd(s.lo, hi)}
}

func (b *binding) lenOf(t *eng.Term) eng.Linear { return b.lin(b.u.Len(bare(t))) }

func (b *binding) after(n int64) eng.Linear { return linAdd(b.lenOf(b.name), constLin(n)) }

// nextOf: the step of a loop over a map (nil: the header has none).
func nextOf(st *eng.State, h *ssa.BasicBlock, taken bool) (next, m *eng.Term) {
	has := false
	for _, in := range h.Instrs {
		x, ok := in.(*ssa.Next)
		has = has || ok && !x.IsString
	}
	if !has {
		return
	}
	for _, l := range st.Facts() {
		if t, over := nextFact(l); t != nil && l.Neg != taken {
			next, m = t, over
		}
	}
	return
}

// nextFact: whether a loop over a map goes on.
func nextFact(l eng.Lit) (next, m *eng.Term) {
	t := l.T
	if t.Op != eng.OExtract || t.Sym != "0" {
		return
	}
	n := t.Args[0]
	if n.Op != eng.OOpaque || len(n.Args) != 1 || n.Args[0].Op != eng.ORange {
		return
	}
	if m = bare(n.Args[0].Args[0]); m.Typ != nil && isString(m.Typ) {
		return nil, nil
	}
	return n, m
}

// runeNext: whether a loop over the characters of a text goes on.
func runeNext(t *eng.Term) *eng.Term {
	if t.Op != eng.OExtract || t.Sym != "0" {
		return nil
	}
	n := t.Args[0]
	if n.Op != eng.OOpaque || len(n.Args) != 1 || n.Args[0].Op != eng.ORange {
		return nil
	}
	if m := bare(n.Args[0].Args[0]); m.Typ == nil || !isString(m.Typ) {
		return nil
	}
	return n
}

// whole: the loop over the map has come to its end.
func walked(st *eng.State, is func(m *eng.Term) bool) bool {
	for _, l := range st.Facts() {
		if n, over := nextFact(l); n != nil && is(over) && l.Neg {
			return true
		}
	}
	return false
}

// emptyList: nothing is in the list or map on this path.
func noneIn(st *eng.State, u *eng.Universe, t *eng.Term) bool {
	if t.IsNil() || st.IsNil(t) == 1 {
		return true
	}
	if leProved(st, u, u.Len(t), u.Int(0), nil) {
		return true
	}
	// the length of a map, as the path speaks of it
	none := false
	for _, l := range st.Facts() {
		eng.Any(l.T, func(x *eng.Term) bool {
			none = none || x.Op == eng.OBuiltin && x.Sym == "len" && bare(x.Args[0]) == t && leProved(st, u, x, u.Int(0), nil)
			return none
		})
	}
	return none
}

func c35(c *Ctx) {
	P := c.Type("params", "Params")
	bs := binders{c.Fn("params", "Bind"), c.Fn("params", "BindValue"), c.Fn("params", "BindFile")}
	c.c35merge(P)
	c.c35bind(P, bs)
	of := c.c35kinds()
	c.c35slice(P, of[23], bs)
	c.c35struct(P, of[25], bs)
	c.c35map(P, of[21], bs)
	c.c35ptr(P, of[22], bs)
	c.c35fields(P, bs)
	c.c35body(P)
}

// bindings starts the analysis of a function that binds a name to a type.
func (c *Ctx) bindings(f *ssa.Function, bs binders) (*eng.Options, func(st *eng.State) *binding) {
	opt := &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(g *ssa.Function) bool { return g == f || g != bs.bind && g != bs.value && g != bs.file },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "store" || e.Kind == "mapset" || e.Kind == "append" || e.Kind == "delete"
		}}
	return opt, func(st *eng.State) *binding {
		ps := st.Params()
		return &binding{lines: lines{c: c, u: c.U, st: st}, p: ps[0], name: ps[1], typ: ps[2], fn: bs}
	}
}

// values: t holds the values of the parameters.
func (b *binding) values(t *eng.Term) bool { return fieldPath(t, b.p, "Values") }

// c35merge: what the parts of the request carry, and all of it together.
func (c *Ctx) c35merge(P *types.Named) {
	u := c.U
	p := c.P.Pkg("params")
	var merge *ssa.Function
	var parse []*ssa.Function
	for _, f := range c.P.Funcs {
		if outer(f).Pkg != p {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !tid(pointee(fa.X.Type()), P) {
					continue
				}
				switch structOf(P).Field(fa.Field).Name() {
				case "Values":
					if call, isC := s.Val.(*ssa.Call); isC && call.Call.StaticCallee() != nil {
						merge = call.Call.StaticCallee()
					}
				case "Query":
					parse = append(parse, outer(f))
				}
			}
		}
	}
	c.Need(merge != nil && len(merge.Params) == 1 && tid(pointee(merge.Params[0].Type()), P), "the function that merges the parameters")
	c.Need(len(parse) == 1, "the function that reads the parameters of a request")

	con := eng.FuncName(merge)
	// the three sources, in their order
	isSource := func(st *eng.State, i int) func(t *eng.Term) bool {
		return func(t *eng.Term) bool {
			return fieldPath(t, st.Params()[0], [][]string{{"Query"}, {"Route", "Values"}, {"Form"}}[i]...)
		}
	}
	handled := func(st *eng.State, i int) bool {
		if walked(st, isSource(st, i)) {
			return true
		}
		none := false
		for _, l := range st.Facts() {
			eng.Any(l.T, func(t *eng.Term) bool {
				none = none || isSource(st, i)(t) && noneIn(st, u, t)
				return none
			})
		}
		return none
	}
	opt := &eng.Options{Exact: true, CutAt: cutAll,
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "mapset" || e.Kind == "delete" || e.Kind == "call"
		},
		Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if !back {
				return
			}
			next, m := nextOf(st, h, true)
			single := next == nil // one value of a name
			if single {
				for _, l := range st.Facts() {
					if t, over := nextFact(l); t != nil && !l.Neg {
						next, m = t, over
					}
				}
			}
			if next == nil {
				return
			}
			isVal := func(t *eng.Term) bool {
				for _, v := range valuesOf(st, next, m) {
					if bare(v) == bare(t) {
						return true
					}
				}
				return false
			}
			// the value of this round
			current := func(t *eng.Term) bool {
				l, i, ok := index(t)
				if !ok || !isVal(l) {
					return false
				}
				_, ind := phiIn(noOld(u, i))
				return ind != nil && ind.Phi.Block() == h && forward(u, i)
			}
			at := -1
			for i := 0; i < 3; i++ {
				if isSource(st, i)(m) {
					at = i
				}
			}
			c.On(st, at >= 0, "merged", con, h.Instrs[0].Pos(), "parameters of another source are merged: %v", m)
			for i := 0; i < at; i++ {
				c.On(st, handled(st, i), "merged", con, h.Instrs[0].Pos(), "what a later source carries comes first")
			}
			key := st.Ext(next, 1)
			n := 0
			for _, e := range st.Trace {
				if e.Kind == "call" && e.Recv != nil && hasSuffix(e.Name, "(net/url.Values).Add") {
					n++
					c.On(st, single && madeHere(bare(e.Recv)) && bare(e.Args[0]) == key && current(e.Args[1]), "merged", con, e.Pos, "something else than the values of a name is added: %v", e.Args[1])
				}
				if e.Kind != "mapset" {
					continue
				}
				n++
				k, v := bare(e.Args[0]), bare(e.Args[1])
				if single {
					ok := k == key && v.Op == eng.OBuiltin && v.Sym == "append" && len(v.Args) == 2
					if ok {
						m0, k0, isM := mapIndex(bare(v.Args[0]))
						as := listArgs(v.Args[1])
						ok = isM && k0 == key && m0 == bare(e.Recv) && madeHere(m0) && len(as) == 1 && current(as[0])
					}
					c.On(st, ok, "merged", con, e.Pos, "the values of a name are not added to those found before: %v", v)
					continue
				}
				ok := k == key && v.Op == eng.OBuiltin && v.Sym == "append" && len(v.Args) == 2
				if ok {
					m0, k0, isM := mapIndex(bare(v.Args[0]))
					m1, k1, isS := mapIndex(bare(v.Args[1]))
					isS = isS && m1 == m && k1 == key || bare(v.Args[1]) == st.Ext(next, 2)
					ok = isM && k0 == key && m0 == bare(e.Recv) && madeHere(m0) && isS
				}
				c.On(st, ok, "merged", con, e.Pos, "the values of a name are not added to those found before: %v", v)
			}
			none := false
			for _, v := range valuesOf(st, next, m) {
				none = none || noneIn(st, u, v)
			}
			if single {
				c.On(st, n == 1, "merged", con, h.Instrs[0].Pos(), "a value of a name is lost")
				return
			}
			for _, l := range st.Facts() {
				if t := exhausted(l); t != nil && isVal(t) {
					none = true
				}
			}
			c.On(st, n == 1 || n == 0 && none, "merged", con, h.Instrs[0].Pos(), "the values of a name are lost")
		}}
	for _, x := range c.Run(merge, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "merged", con, x.Pos, "merging the parameters panics")
			continue
		}
		res := bare(x.Results[0])
		for i := 0; i < 3; i++ {
			c.On(st, isSource(st, i)(res) || handled(st, i), "merged", con, x.Pos, "what %s carries is lost", [3]string{"the query", "the route", "the body"}[i])
		}
		shared := madeHere(res)
		for i := 0; i < 3; i++ {
			shared = shared || isSource(st, i)(res)
		}
		c.On(st, shared, "merged", con, x.Pos, "another map is handed out: %v", res)
		for _, e := range st.Trace {
			c.On(st, e.Kind != "delete", "merged", con, e.Pos, "values are removed")
		}
	}
	c.Min("merged", 12)
	c.c35parse(P, parse[0], merge)
}

// c35parse: where the parts come from.
func (c *Ctx) c35parse(P *types.Named, f, merge *ssa.Function) {
	u := c.U
	con := eng.FuncName(f)
	opt := &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(g *ssa.Function) bool { return g != merge },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "store"
		}}
	met := map[string]bool{}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		l := &lines{c: c, u: u, st: st}
		p := st.Params()[0]
		theReq := func(t *eng.Term) bool {
			v := fieldOf(t)
			return v != nil && v.Name() == "req" && cellOf(t) != nil && bare(cellOf(t).Args[0]) == p
		}
		isReq := func(t *eng.Term, fs ...string) bool {
			t = bare(t)
			for i := len(fs) - 1; i >= 0; i-- {
				v := fieldOf(t)
				if v == nil || v.Name() != fs[i] || cellOf(t) == nil {
					return false
				}
				t = bare(cellOf(t).Args[0])
			}
			return theReq(t)
		}
		// the type of the body
		kind := func(want string) int {
			return eqFact(st, isStrFn(want), func(t *eng.Term) bool {
				low, trim := false, false
				for {
					t = bare(t)
					switch {
					case l.call(t, "strings.ToLower"):
						low = true
					case l.call(t, "strings.TrimSpace"):
						trim = true
					default:
						of := cutBefore(l, t, ";")
						for of != nil && l.call(of, "strings.ToLower") {
							of, low = bare(of.Args[0]), true
						}
						return low && trim && of != nil && l.call(of, "(net/http.Header).Get") && isReq(of.Args[0], "Header") && isStr(of.Args[1], "Content-Type")
					}
					t = t.Args[0]
				}
			})
		}
		form, multi := kind("application/x-www-form-urlencoded"), kind("multipart/form-data")
		if n := eqFact(st, isStrFn(""), func(t *eng.Term) bool {
			return l.call(t, "(net/http.Header).Get") && isReq(t.Args[0], "Header") && isStr(t.Args[1], "Content-Type")
		}); n == 1 {
			form, multi = 0, 0
		}
		if form == 1 {
			multi = 0
		}
		if multi == 1 {
			form = 0
		}
		last := map[string]int{}
		val := map[string]*eng.Term{}
		merged, parsed := -1, map[string]*eng.Term{}
		for i, e := range st.Trace {
			switch {
			case e.Kind == "store":
				v := fieldName(e.Addr)
				if v != "" && bare(e.Addr.Args[0]) == p {
					last[v], val[v] = i+1, bare(e.Val)
				}
			case e.Kind == "call" && called(e.Res, merge):
				merged = i
				c.On(st, bare(e.Res.Args[0]) == p, "parsed", con, e.Pos, "other parameters are merged")
			case e.Kind == "call" && e.Res != nil && e.Recv != nil && theReq(bare(e.Recv)):
				parsed[e.Name[strings.LastIndex(e.Name, ".")+1:]] = bare(e.Res)
			}
		}
		c.On(st, l.call(val["Query"], "(*net/url.URL).Query") && isReq(val["Query"].Args[0], "URL"), "parsed", con, x.Pos, "the query is not what the request carries: %v", val["Query"])
		c.On(st, merged >= 0 && called(val["Values"], merge), "parsed", con, x.Pos, "the parameters are not merged")
		for _, n := range []string{"Query", "Form", "Route"} {
			c.On(st, last[n] <= merged+1, "parsed", con, x.Pos, "parameters are merged before %s is read", n)
		}
		c.On(st, form >= 0 && multi >= 0, "parsed", con, x.Pos, "the type of the body is not looked at: %d %d", form, multi)
		res := bare(x.Results[0])
		ok := func(err *eng.Term) bool {
			if err == nil {
				return false
			}
			switch st.IsNil(err) {
			case 1:
				return true
			}
			return false
		}
		failed := func(err *eng.Term) bool {
			return err != nil && st.IsNil(err) != 1 && (res == err || reports(st, x.Results[0], err))
		}
		switch {
		case form == 1:
			err := parsed["ParseForm"]
			if failed(err) {
				met["error"] = true
				break
			}
			met["form"] = true
			c.On(st, ok(err) && isReq(val["Form"], "PostForm") && res.IsNil(), "parsed", con, x.Pos, "the values of the body are not those of the form: %v", val["Form"])
		case multi == 1:
			err := parsed["ParseMultipartForm"]
			if failed(err) {
				met["error"] = true
				break
			}
			met["multi"] = true
			c.On(st, ok(err) && isReq(val["Form"], "MultipartForm", "Value") && isReq(val["Files"], "MultipartForm", "File") && res.IsNil(), "parsed", con, x.Pos, "the values of the body are not those of the form: %v %v", val["Form"], val["Files"])
		default:
			c.On(st, res.IsNil(), "parsed", con, x.Pos, "a request without a form fails")
		}
	}
	for _, n := range []string{"form", "multi", "error"} {
		c.Check(met[n], "met", con, 0, "no path for: %s", n)
	}
	c.Min("parsed", 20)
	// what the route carries is there before
	for _, g := range c.P.Funcs {
		if outer(g).Pkg != f.Pkg || g == f || !callsFn(g, f) {
			continue
		}
		con := eng.FuncName(g)
		var info types.Type
		for i := 0; i < structOf(P).NumFields(); i++ {
			if v := structOf(P).Field(i); v.Name() == "Route" {
				info = v.Type()
			}
		}
		for _, x := range c.Run(g, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(h *ssa.Function) bool { return h != f },
			Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" || e.Kind == "store" }}).Exits {
			if x.Kind != "return" || len(x.Results) == 0 {
				continue
			}
			st := x.St
			res := bare(x.Results[0])
			at, route, req := -1, -1, -1
			from := func(t *eng.Term) bool { // what was found for the route
				if t = bare(t); t == nil || t.Typ == nil || t.Op != eng.OLoad && t.Op != eng.OOpaque {
					return false
				}
				pt, ok := t.Typ.(*types.Pointer)
				return ok && tid(pt.Elem(), info)
			}
			for i, e := range st.Trace {
				if e.Kind == "store" && fieldName(e.Addr) != "" && bare(e.Addr.Args[0]) == res {
					switch fieldName(e.Addr) {
					case "Route":
						route = i
						v := bare(e.Val)
						none := v.Op == eng.OLoad && madeHere(bare(v.Args[0])) || madeHere(v) || isZero(v)
						c.On(st, v.Op == eng.OLoad && from(v.Args[0]) || none && eqFact(st, from, func(t *eng.Term) bool { return t.IsNil() }) == 1, "provided", con, e.Pos, "another route is taken: %v", v)
					case "req":
						req = i
						c.On(st, bare(e.Val).Op == eng.OParam, "provided", con, e.Pos, "another request is read: %v", e.Val)
					}
				}
				if e.Kind == "call" && called(e.Res, f) && bare(e.Res.Args[0]) == res {
					at = i
				}
			}
			none := eqFact(st, from, func(t *eng.Term) bool { return t.IsNil() })
			c.On(st, at >= 0 && req >= 0 && req < at, "provided", con, x.Pos, "the parameters handed out were not read from the request")
			c.On(st, route < at && (route >= 0 || none == 1), "provided", con, x.Pos, "what the route carries is not there when the parameters are read")
		}
	}
	c.Min("provided", 4)
}

// cutBefore: t is what stands before the first q in a text.
func cutBefore(l *lines, t *eng.Term, q string) *eng.Term {
	t = bare(t)
	if b, i, ok := index(t); ok && isZero(i) && (l.call(b, "strings.Split") || l.call(b, "strings.SplitN")) && isStr(bare(b).Args[1], q) {
		if b = bare(b); len(b.Args) == 3 {
			if n, ok := b.Args[2].IntVal(); !ok || n == 0 || n == 1 {
				return nil
			}
		}
		return bare(b.Args[0])
	}
	if t.Op == eng.OExtract && t.Sym == "0" && l.call(t.Args[0], "strings.Cut") && isStr(bare(t.Args[0]).Args[1], q) {
		return bare(bare(t.Args[0]).Args[0])
	}
	if t.Op == eng.OSlice && noBound(t.Args[1]) {
		if in, s, ok := l.search(bare(t.Args[2]), false); ok && s == q && bare(in) == bare(t.Args[0]) && l.found(bare(t.Args[2])) == 1 {
			return bare(in)
		}
	}
	if hasFact(l.st, func(f *eng.Term) bool { return l.contains(f, t, q) }) == 0 {
		return t
	}
	return nil
}

func fieldName(addr *eng.Term) string {
	if addr != nil && addr.Op == eng.OFAddr {
		if v, ok := addr.Obj.(*types.Var); ok {
			return v.Name()
		}
	}
	return ""
}

func callsFn(g, f *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok && x.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

// made: something that was made in this run.
func madeHere(t *eng.Term) bool { return t != nil && t.Op == eng.OAlloc }

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// valuesOf: what the map of a loop holds under the key of this round.
func valuesOf(st *eng.State, next, m *eng.Term) []*eng.Term {
	out := []*eng.Term{st.Ext(next, 2)}
	key := st.Ext(next, 1)
	see := func(t *eng.Term) {
		if t == nil {
			return
		}
		eng.Any(t, func(x *eng.Term) bool {
			m0, k0, ok := mapIndex(x)
			if ok && m0 != m && cellOf(m0) != nil && cellOf(m0) == cellOf(m) {
				// read once more, and not written in between
				again := true
				for _, e := range st.Trace {
					again = again && !(e.Kind == "store" && e.Addr == cellOf(m))
				}
				if again {
					m0 = m
				}
			}
			if ok && m0 == m && k0 == key {
				out = append(out, x)
			}
			return false
		})
	}
	for _, l := range st.Facts() {
		see(l.T)
	}
	for _, e := range st.Trace {
		for _, a := range e.Args {
			see(a)
		}
		see(e.Val)
	}
	return out
}

// c35bind: which binder makes a value, and of what.
func (c *Ctx) c35bind(P *types.Named, bs binders) {
	u := c.U
	con := "params.Bind"
	opt := &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}
	for _, x := range c.Run(bs.bind, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "binder", con, x.Pos, "binding a parameter panics")
			continue
		}
		ps := st.Params()
		b := &binding{lines: lines{c: c, u: u, st: st}, p: ps[0], name: ps[1], typ: ps[2], fn: bs}
		// the entry of a table of binders
		entry := func(t *eng.Term) string {
			if t.Op != eng.OMAddr && t.Op != eng.OMOk {
				return ""
			}
			m, k := bare(t.Args[0]), bare(t.Args[1])
			switch {
			case isGlobalLoad(m, bs.bind.Pkg.Pkg.Path(), "TypeBinders") && k == b.typ:
				return "type"
			case isGlobalLoad(m, bs.bind.Pkg.Pkg.Path(), "KindBinders") && b.typeCall(k, "Kind", b.typ):
				return "kind"
			}
			return ""
		}
		has := func(which string) int {
			return hasFact(st, func(t *eng.Term) bool {
				t = noOld(u, t)
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				return t.Op == eng.OMOk && entry(t) == which
			})
		}
		res := bare(x.Results[0])
		if callTerm(res, "reflect.Zero") {
			c.On(st, bare(res.Args[0]) == b.typ && has("type") == 0 && has("kind") == 0, "binder", con, x.Pos, "a parameter is not bound although there is a binder for its type")
			continue
		}
		conv := callTerm(res, "(reflect.Value).Convert")
		if conv {
			c.On(st, bare(res.Args[1]) == b.typ, "binder", con, x.Pos, "a value is converted to another type")
		}
		fn, args := dynCall(b.plain(res))
		from := ""
		if fn != nil {
			eng.Any(fn, func(t *eng.Term) bool {
				if e := entry(t); e != "" {
					from = e
				}
				return false
			})
		}
		c.On(st, from == "type" && has("type") == 1 || from == "kind" && has("type") == 0 && has("kind") == 1, "binder", con, x.Pos, "the value is not made by the most specific binder for the type: %v", fn)
		c.On(st, len(args) == 3 && bare(args[0]) == b.p && bare(args[1]) == b.name && bare(args[2]) == b.typ, "binder", con, x.Pos, "the binder is asked for something else: %v", args)
		can := hasFact(st, func(t *eng.Term) bool {
			return callTerm(t, "(reflect.Type).ConvertibleTo") && bare(t.Args[1]) == b.typ
		})
		c.On(st, conv || can == 0, "binder", con, x.Pos, "a value that fits the type is not converted to it")
	}
	c.Min("binder", 10)
	// one value alone
	for i, f := range []*ssa.Function{bs.value, bs.file} {
		con, field := eng.FuncName(f), [2]string{"Values", "Files"}[i]
		for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(g *ssa.Function) bool { return g != bs.bind },
			Event: func(st *eng.State, e *eng.Event) bool {
				return e.Kind == "call" || e.Kind == "store" || e.Kind == "mapset"
			}}).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "alone", con, x.Pos, "binding a value panics")
				continue
			}
			res := bare(x.Results[0])
			ok := called(res, bs.bind) && len(res.Args) == 3 && bare(res.Args[2]) == st.Params()[1]
			name := ""
			if ok {
				name, ok = res.Args[1].StrVal()
			}
			c.On(st, ok, "alone", con, x.Pos, "a value is not bound to the type: %v", res)
			if !ok {
				continue
			}
			var m, list *eng.Term
			held := false
			for _, e := range st.Trace {
				switch {
				case e.Kind == "store" && fieldName(e.Addr) == field && bare(e.Addr.Args[0]) == bare(res.Args[0]):
					m = bare(e.Val)
				case e.Kind == "mapset" && isStr(e.Args[0], name):
					list = bare(e.Args[1])
				case e.Kind == "store" && bare(e.Val) == st.Params()[0]:
					held = true
				}
			}
			set := false
			for _, e := range st.Trace {
				set = set || e.Kind == "mapset" && bare(e.Recv) == m && bare(e.Args[1]) == list
			}
			c.On(st, m != nil && madeHere(m) && set && held && eng.Any(list, madeHere), "alone", con, x.Pos, "a value is not handed to its binder")
		}
	}
	// a variable
	f := c.Meth(types.NewPointer(P), "Bind")
	con = eng.FuncName(f)
	for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(g *ssa.Function) bool { return g != bs.bind },
		Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}).Exits {
		st := x.St
		ps := st.Params()
		b := &binding{lines: lines{c: c, u: u, st: st}, p: ps[0], name: ps[2], fn: bs}
		of := func(t *eng.Term) bool {
			t = bare(t)
			return (callTerm(t, "(reflect.Value).Elem") || callTerm(t, "reflect.Indirect")) && callTerm(bare(t.Args[0]), "reflect.ValueOf") && bare(bare(t.Args[0]).Args[0]) == ps[1]
		}
		if x.Kind != "return" {
			no := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).CanSet") && of(t.Args[0]) })
			kind := eqFact(st, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == 22 }, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).Kind") })
			c.On(st, no == 0 || kind == 0, "variable", con, x.Pos, "binding a variable that can be set panics")
			continue
		}
		n := 0
		for _, e := range st.Trace {
			if e.Kind == "call" && e.Name == "(reflect.Value).Set" {
				n++
				name, typ, ok := b.boundTo(e.Args[0])
				c.On(st, ok && of(e.Recv) && name == b.name && callTerm(typ, "(reflect.Value).Type") && bare(typ.Args[0]) == bare(e.Recv), "variable", con, e.Pos, "the variable is not set to the parameter: %v", e.Args[0])
			}
		}
		c.On(st, n == 1, "variable", con, x.Pos, "the variable is not set")
	}
	c.Min("variable", 4)
}

// c35kinds: which function binds which kind of type.
func (c *Ctx) c35kinds() map[int64]*ssa.Function {
	p := c.P.Pkg("params")
	// the functions a value may hold
	var fns func(v ssa.Value, depth int) []*ssa.Function
	fns = func(v ssa.Value, depth int) (out []*ssa.Function) {
		if depth > 8 {
			return
		}
		stores := func(refs []ssa.Instruction, base ssa.Value) {
			for _, r := range refs {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == base {
						out = append(out, fns(r.Val, depth+1)...)
					}
				case *ssa.FieldAddr:
					if r.X == base {
						for _, w := range *r.Referrers() {
							if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(r) {
								out = append(out, fns(s.Val, depth+1)...)
							}
						}
					}
				}
			}
		}
		switch v := v.(type) {
		case *ssa.Function:
			return []*ssa.Function{v}
		case *ssa.MakeClosure:
			return fns(v.Fn, depth+1)
		case *ssa.ChangeType:
			return fns(v.X, depth+1)
		case *ssa.UnOp:
			switch a := v.X.(type) {
			case *ssa.Alloc:
				stores(*a.Referrers(), a)
			case *ssa.Global:
				var refs []ssa.Instruction
				for _, f := range c.P.Funcs {
					if f.Pkg != p {
						continue
					}
					for _, b := range f.Blocks {
						refs = append(refs, b.Instrs...)
					}
				}
				stores(refs, a)
			}
		}
		return
	}
	of := map[int64]*ssa.Function{}
	for _, f := range c.P.Funcs {
		if outer(f).Pkg != p {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || m.Key.Type().String() != "reflect.Kind" {
					continue
				}
				got := fns(m.Value, 0)
				for _, k := range keysOf(m.Key) {
					for _, g := range got {
						c.Check(of[k] == nil || of[k] == g, "kinds", "params", m.Pos(), "values of kind %d are bound by two functions", k)
						of[k] = g
					}
				}
			}
		}
	}
	// a moment is not bound like any struct
	var stands func(v ssa.Value) types.Type
	stands = func(v ssa.Value) types.Type { // the type v stands for
		switch v := v.(type) {
		case *ssa.Call:
			g := v.Call.StaticCallee()
			switch {
			case v.Call.IsInvoke() && v.Call.Method.Name() == "Elem":
				if t := stands(v.Call.Value); t != nil {
					return pointee(t)
				}
			case g != nil && g.String() == "reflect.TypeOf":
				if m, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
					return m.X.Type()
				}
			case g != nil && g.Origin() != nil && g.Origin().String() == "reflect.TypeFor" && len(g.TypeArgs()) == 1:
				return g.TypeArgs()[0]
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						return stands(s.Val)
					}
				}
			}
			if a, ok := v.X.(*ssa.Global); ok {
				for _, f := range c.P.Funcs {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
								return stands(s.Val)
							}
						}
					}
				}
			}
		}
		return nil
	}
	moment := false
	for _, f := range c.P.Funcs {
		if outer(f).Pkg != p {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok || m.Key.Type().String() != "reflect.Type" {
					continue
				}
				if t := stands(m.Key); t != nil && t.String() == "time.Time" {
					moment = true
					for _, g := range fns(m.Value, 0) {
						moment = moment && g != of[25]
					}
				}
			}
		}
	}
	c.Check(moment, "kinds", "params", 0, "there is no binder for a moment, it would be bound like any struct")
	for _, k := range []int64{21, 22, 23, 25} {
		g := of[k]
		c.Need(g != nil && len(g.Params) == 3, "the function that binds values of kind "+c.U.Int(k).String())
		c.Check(true, "kinds", eng.FuncName(g), g.Pos(), "")
	}
	return of
}

// whole: both ends of the text.
func (b *binding) all(t *eng.Term) span { return b.cut(t, constLin(0), b.lenOf(t)) }

// c35struct: the fields of a struct.
func (c *Ctx) c35struct(P *types.Named, f *ssa.Function, bs binders) {
	u := c.U
	con := eng.FuncName(f)
	opt, on := c.bindings(f, bs)
	result := func(b *binding, t *eng.Term) bool {
		t = bare(t)
		return callTerm(t, "(reflect.Value).Elem") && (callTerm(bare(t.Args[0]), "reflect.New") || retOf(bare(t.Args[0]), "reflect.New")) && bare(bare(t.Args[0]).Args[0]) == b.typ
	}
	// loops that look for the first dot or bracket, byte by byte: what their
	// rounds say about the byte they have seen
	scans := map[*ssa.BasicBlock]bool{}
	runes := map[*eng.Term]*ssa.BasicBlock{}
	runeIn := func(st *eng.State, h *ssa.BasicBlock) *eng.Term {
		for _, in := range h.Instrs {
			if x, ok := in.(*ssa.Next); !ok || !x.IsString {
				continue
			}
			for _, l := range st.Facts() {
				if t := runeNext(l.T); t != nil {
					return t
				}
			}
		}
		return nil
	}
	runeIs := func(b *binding, next *eng.Term, k int64) int {
		return eqFact(b.st, func(t *eng.Term) bool {
			return t.Op == eng.OExtract && t.Sym == "2" && t.Args[0] == next
		}, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == k })
	}
	byteIs := func(b *binding, rest span, i *eng.Term, k int64) int {
		return eqFact(b.st, func(t *eng.Term) bool {
			l, j, ok := index(t)
			return ok && j == i && b.same(b.span(l), rest)
		}, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == k })
	}
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if !back {
			return
		}
		var key *eng.Term
		for _, l := range st.Facts() {
			if n, _ := nextFact(l); n != nil && !l.Neg {
				key = bare(st.Ext(n, 1))
			}
		}
		if key == nil {
			return
		}
		b := on(st)
		rest := b.cut(key, b.after(1), b.lenOf(key))
		if t := runeIn(st, h); t != nil && b.same(b.span(t.Args[0].Args[0]), rest) {
			was, seen := scans[h]
			scans[h] = (was || !seen) && runeIs(b, t, '.') == 0 && runeIs(b, t, '[') == 0
			runes[t] = h
			return
		}
		if n, _ := nextOf(st, h, true); n != nil {
			return
		}
		ok := false
		for _, l := range st.Facts() {
			eng.Any(l.T, func(t *eng.Term) bool {
				in, i, isI := index(t)
				if isI && b.same(b.span(in), rest) {
					_, ind := phiIn(noOld(u, i))
					ok = ok || ind != nil && ind.Phi.Block() == h && forward(u, i) && byteIs(b, rest, i, '.') == 0 && byteIs(b, rest, i, '[') == 0
				}
				return false
			})
		}
		if was, seen := scans[h]; seen {
			ok = ok && was
		}
		scans[h] = ok
	}
	c.Run(f, opt)
	scanned := func(i *eng.Term) bool {
		_, ind := phiIn(noOld(u, i))
		return ind != nil && scans[ind.Phi.Block()] && forward(u, i)
	}
	// steps of a walk from the struct to one of its fields
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if !back {
			return
		}
		b := on(st)
		next, m := nextOf(st, h, true)
		if next == nil {
			return
		}
		pos := h.Instrs[0].Pos()
		c.On(st, b.values(m), "fields", con, pos, "other parameters than the values are looked at: %v", m)
		key := bare(st.Ext(next, 1))
		pre := b.prefixed(key, ".")
		// the name of the field: from behind the dot up to the next dot or bracket
		isName := func(s span) bool {
			if lo := b.cut(key, b.after(1), b.lenOf(key)); s.base != lo.base || !same(s.lo, lo.lo) {
				return false
			}
			rest := func(t *eng.Term) bool { return b.same(b.span(t), b.cut(key, b.after(1), b.lenOf(key))) }
			any := func(t *eng.Term) bool {
				if !b.call(t, "strings.IndexAny") || !rest(t.Args[0]) {
					return false
				}
				v, ok := t.Args[1].StrVal()
				return ok && (v == ".[" || v == "[.")
			}
			whole := b.cut(key, b.after(1), b.lenOf(key))
			for _, l := range st.Facts() {
				// found byte by byte, or not
				done := false
				eng.Any(l.T, func(t *eng.Term) bool {
					in, i, isI := index(t)
					if isI && b.same(b.span(in), whole) && scanned(i) && (byteIs(b, whole, i, '.') == 1 || byteIs(b, whole, i, '[') == 1) {
						done = same(s.hi, linAdd(b.after(1), b.lin(i)))
					}
					return done
				})
				if t := l.T; l.Neg && t.Op == eng.OBin && t.Sym == "lt" && scanned(t.Args[0]) && same(b.lin(t.Args[1]), linSub(b.lenOf(key), b.after(1))) {
					done = same(s.hi, b.lenOf(key))
				}
				if t := runeNext(l.T); t != nil && scans[runes[t]] && b.same(b.span(t.Args[0].Args[0]), whole) {
					switch {
					case l.Neg:
						done = same(s.hi, b.lenOf(key))
					case runeIs(b, t, '.') == 1 || runeIs(b, t, '[') == 1:
						done = same(s.hi, linAdd(b.after(1), b.lin(st.Ext(t, 1))))
					}
				}
				if done {
					return true
				}
			}
			// cut at one of them, and then at the other
			left := map[string]bool{".": true, "[": true}
			for now, more := whole, true; more; {
				more = false
				see := func(t *eng.Term) {
					in, q, ok := b.search(t, false)
					if !ok || !left[q] || !b.same(b.span(in), now) {
						return
					}
					switch b.found(t) {
					case 1:
						now.hi = linAdd(now.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}})
					case 0:
					default:
						return
					}
					delete(left, q)
					more = true
				}
				for _, e := range st.Trace {
					if e.Res != nil {
						see(bare(e.Res))
					}
				}
				if len(left) == 0 {
					return b.same(s, now)
				}
			}
			for _, l := range st.Facts() {
				if !l.Neg && b.call(l.T, "strings.ContainsAny") && rest(l.T.Args[0]) {
					continue
				}
				var at *eng.Term
				eng.Any(l.T, func(t *eng.Term) bool {
					if any(t) {
						at = t
					}
					return at != nil
				})
				if at == nil {
					continue
				}
				switch b.found(at) {
				case 0:
					return same(s.hi, b.lenOf(key))
				case 1:
					return same(s.hi, linAdd(b.after(1), eng.Linear{Coeff: map[*eng.Term]int64{at: 1}}))
				}
			}
			return false
		}
		var field *eng.Term // what the field was looked up by
		var set *eng.Event
		n := 0
		for _, e := range st.Trace {
			if e.Kind != "call" {
				continue
			}
			switch {
			case hasSuffix(e.Name, ").FieldByName"):
				on := bare(e.Recv)
				if callTerm(on, "(reflect.Value).Type") {
					on = bare(on.Args[0])
				}
				c.On(st, result(b, on) || on == b.typ, "fields", con, e.Pos, "a field of another struct is looked up: %v", on)
				field = e.Res
				c.On(st, isName(b.span(e.Args[0])), "fields", con, e.Pos, "a field is looked up by another name than the one behind the dot: %v", e.Args[0])
			case e.Name == "(reflect.Value).Set":
				n++
				set = e
			}
		}
		if n == 0 {
			// nothing is bound: there is a reason
			no := func(is func(t *eng.Term) bool, want int) bool {
				return field != nil && hasFact(st, is) == want
			}
			seen := hasFact(st, func(t *eng.Term) bool {
				t = noOld(u, t)
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				return (t.Op == eng.OMOk || t.Op == eng.OMAddr) && madeHere(bare(t.Args[0])) && isName(b.span(t.Args[1]))
			}) == 1
			ok := pre == 0 || seen ||
				no(func(t *eng.Term) bool { return t.Op == eng.OExtract && t.Sym == "1" && bare(t.Args[0]) == bare(field) }, 0) ||
				no(func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).IsValid") }, 0) ||
				no(func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).CanSet") }, 0) ||
				no(func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).IsNil") }, 1)
			c.On(st, ok, "fields", con, pos, "a parameter for a field is passed over")
		} else {
			name, typ, ok := b.boundTo(set.Args[0])
			recv := bare(set.Recv)
			c.On(st, n == 1 && ok && pre == 1, "fields", con, set.Pos, "a field is set to something else: %v", set.Args[0])
			if !ok {
				return
			}
			s := b.span(name)
			put := joined(u, parts(name))
			mine := len(put) == 3 && put[0] == b.name && isStr(put[1], ".") && isName(b.span(put[2]))
			mine = mine || s.base == b.span(key).base && same(s.lo, b.span(key).lo) && isName(span{s.base, linAdd(s.lo, b.after(1)), s.hi})
			c.On(st, mine, "fields", con, set.Pos, "a field is bound to the parameter of another name: %v", name)
			c.On(st, callTerm(typ, "(reflect.Value).Type") && bare(typ.Args[0]) == recv, "fields", con, set.Pos, "a field is bound as another type")
			can := hasFact(st, func(t *eng.Term) bool {
				return callTerm(t, "(reflect.Value).CanSet") && bare(t.Args[0]) == recv
			})
			valid := hasFact(st, func(t *eng.Term) bool {
				return callTerm(t, "(reflect.Value).IsValid") && bare(t.Args[0]) == recv || field != nil && t.Op == eng.OExtract && t.Sym == "1" && bare(t.Args[0]) == bare(field)
			})
			c.On(st, can == 1 && valid == 1 && field != nil, "fields", con, set.Pos, "what is set may be no field that can be set: %v", recv)
		}
		for _, e := range st.Trace {
			if e.Kind == "mapset" && madeHere(bare(e.Recv)) && isString(e.Args[0].Typ) {
				c.On(st, isName(b.span(e.Args[0])), "fields", con, e.Pos, "another field than the one that was looked at is taken for bound: %v", e.Args[0])
			}
		}
	}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		b := on(st)
		if x.Kind != "return" {
			c.On(st, false, "fields", con, x.Pos, "binding a struct panics")
			continue
		}
		c.On(st, result(b, x.Results[0]) && walked(st, b.values), "fields", con, x.Pos, "the struct is handed out before every parameter was looked at: %v", x.Results[0])
	}
	c.Min("fields", 20)
}

func same(a, b eng.Linear) bool {
	d, ok := linDiff(a, b)
	return ok && d == 0
}

// c35map: the entries of a map.
func (c *Ctx) c35map(P *types.Named, f *ssa.Function, bs binders) {
	u := c.U
	con := eng.FuncName(f)
	opt, on := c.bindings(f, bs)
	result := func(b *binding, t *eng.Term) bool {
		t = bare(t)
		return (callTerm(t, "reflect.MakeMap", "reflect.MakeMapWithSize") || retOf(t, "reflect.MakeMap") || retOf(t, "reflect.MakeMapWithSize")) && bare(t.Args[0]) == b.typ
	}
	// the text under the name itself
	text := func(b *binding, t *eng.Term) bool {
		t = bare(t)
		if b.call(t, "(net/url.Values).Get") {
			return b.values(bare(t.Args[0])) && bare(t.Args[1]) == b.name
		}
		l, i, ok := index(t)
		if !ok || !isZero(i) {
			return false
		}
		m, k, ok := mapIndex(bare(l))
		return ok && b.values(m) && k == b.name
	}
	// json: the object the text under the name was read into
	object := func(b *binding, m *eng.Term) bool {
		var dest *eng.Term
		num := map[*eng.Term]bool{}
		for _, e := range b.st.Trace {
			switch {
			case e.Kind != "call":
			case e.Name == "(*encoding/json.Decoder).UseNumber":
				num[bare(e.Recv)] = true
			case e.Name == "(*encoding/json.Decoder).Decode":
				d := bare(e.Recv)
				if b.call(d, "encoding/json.NewDecoder") && num[d] && b.call(d.Args[0], "strings.NewReader") && text(b, bare(d.Args[0]).Args[0]) {
					dest = unConv(bare(e.Args[0]))
				}
			}
		}
		return dest != nil && eng.Any(m, func(t *eng.Term) bool { return t == dest })
	}
	met := map[string]bool{}
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if !back {
			return
		}
		next, m := nextOf(st, h, true)
		if next == nil {
			return
		}
		b := on(st)
		pos := h.Instrs[0].Pos()
		key := bare(st.Ext(next, 1))
		var set *eng.Event
		n := 0
		for _, e := range st.Trace {
			if e.Kind == "call" && e.Name == "(reflect.Value).SetMapIndex" {
				n++
				set = e
			}
		}
		vals2 := valuesOf(st, next, m)
		isVal := func(t *eng.Term) bool {
			for _, v := range vals2 {
				if bare(v) == bare(t) {
					return true
				}
			}
			return false
		}
		direct := b.values(m)
		if n == 0 {
			ok := direct && (b.prefixed(key, "[") == 0 || b.ends(key, "]") == 0)
			for _, v := range vals2 {
				ok = ok || direct && noneIn(st, u, bare(v))
			}
			c.On(st, ok, "entries", con, pos, "an entry of the map is passed over")
			return
		}
		k, kt, ok1 := b.from(set.Args[0], bs.value)
		v, vt, ok2 := b.from(set.Args[1], bs.value)
		ok := n == 1 && ok1 && ok2 && result(b, set.Recv) && b.typeCall(kt, "Key", b.typ) && b.typeCall(vt, "Elem", b.typ)
		c.On(st, ok, "entries", con, set.Pos, "an entry is not made of a key and a value of their types: %v %v", set.Args[0], set.Args[1])
		if !ok {
			return
		}
		if direct {
			met["names"] = true
			in := b.cut(key, b.after(1), linSub(b.lenOf(key), constLin(1)))
			c.On(st, b.prefixed(key, "[") == 1 && b.ends(key, "]") == 1 && b.same(b.span(k), in), "entries", con, set.Pos, "the key of an entry is not what stands in the brackets: %v", k)
			l, i, isI := index(v)
			c.On(st, isI && isZero(i) && isVal(l), "entries", con, set.Pos, "an entry has another value than the first one given: %v", v)
			return
		}
		met["object"] = true
		c.On(st, object(b, m), "entries", con, set.Pos, "entries are taken from something else than the object the parameter holds, or numbers are not kept as they are written: %v", m)
		txt := false
		if b.call(v, "fmt.Sprint") {
			as := listArgs(v)
			txt = len(as) == 1 && isVal(as[0])
			if !txt && len(v.Args) == 1 {
				as = listArgs(v.Args[0])
				txt = len(as) == 1 && isVal(as[0])
			}
			if !txt && len(v.Args) == 1 && bare(v.Args[0]).Op == eng.OBuiltin {
				txt = len(bare(v.Args[0]).Args) == 1 && isVal(bare(v.Args[0]).Args[0])
			}
		} else if t := bare(v); t.Op == eng.OTA && isVal(t.Args[0]) {
			txt = true
		} else if b.call(t, "(encoding/json.Number).String") && bare(t.Args[0]).Op == eng.OTA {
			txt = isVal(bare(t.Args[0]).Args[0])
		}
		c.On(st, k == key && txt, "entries", con, set.Pos, "an entry does not have the key and the value of the object: %v %v", k, v)
	}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		b := on(st)
		if x.Kind != "return" {
			c.On(st, false, "entries", con, x.Pos, "binding a map panics")
			continue
		}
		isText := func(t *eng.Term) bool { return text(b, t) }
		given := eqFact(st, isText, isStrFn(""))
		names := walked(st, b.values)
		obj := false
		for _, l := range st.Facts() {
			if n, over := nextFact(l); n != nil && l.Neg && !b.values(over) {
				obj = true
			}
		}
		none := hasFact(st, func(t *eng.Term) bool {
			if t.Op == eng.OLoad {
				t = t.Args[0]
			}
			return t.Op == eng.OMOk && b.values(bare(t.Args[0])) && bare(t.Args[1]) == b.name
		})
		if given < 0 && none == 0 {
			given = 1
		}
		c.On(st, result(b, x.Results[0]) && (given == 1 && names || given == 0 && obj), "entries", con, x.Pos, "the map is handed out before every entry was looked at: %v", x.Results[0])
	}
	c.Check(met["names"] && met["object"], "met", con, 0, "no path for entries by name or in an object")
	c.Min("entries", 9)
}

// c35ptr: what a pointer points at.
func (c *Ctx) c35ptr(P *types.Named, f *ssa.Function, bs binders) {
	con := eng.FuncName(f)
	opt, on := c.bindings(f, bs)
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "pointer", con, x.Pos, "binding a pointer panics")
			continue
		}
		b := on(st)
		res := bare(x.Results[0])
		if callTerm(res, "reflect.Zero") {
			none := false
			for _, l := range st.Facts() {
				t := noOld(c.U, l.T)
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				none = none || l.Neg && t.Op == eng.OMOk && b.values(bare(t.Args[0])) && bare(t.Args[1]) == b.name
				eng.Any(t, func(t *eng.Term) bool {
					if m, k, ok := mapIndex(t); ok && b.values(m) && k == b.name {
						none = none || noneIn(st, c.U, t)
					}
					return false
				})
			}
			c.On(st, none && bare(res.Args[0]) == b.typ, "pointer", con, x.Pos, "a pointer is nil although there is a value for it")
			continue
		}
		n := 0
		for _, e := range st.Trace {
			if e.Kind != "call" || e.Name != "(reflect.Value).Set" {
				continue
			}
			n++
			name, typ, ok := b.boundTo(e.Args[0])
			c.On(st, ok && name == b.name && b.typeCall(typ, "Elem", b.typ), "pointer", con, e.Pos, "a pointer does not point at the value of the parameter: %v", e.Args[0])
			to := bare(e.Recv)
			fresh := callTerm(to, "(reflect.Value).Elem") && (callTerm(bare(to.Args[0]), "reflect.New") || retOf(bare(to.Args[0]), "reflect.New"))
			c.On(st, fresh && (callTerm(res, "(reflect.Value).Addr") && bare(res.Args[0]) == to || fresh && res == bare(to.Args[0])), "pointer", con, e.Pos, "another pointer is handed out: %v", res)
		}
		c.On(st, n == 1, "pointer", con, x.Pos, "a pointer does not point at a value")
	}
	c.Min("pointer", 4)
}

// element of a slice that is still to be put in its place.
type listed struct{ index, value *eng.Term }

// listedIn reads what is kept of an element.
func (b *binding) listedIn(t *eng.Term) (l listed, ok bool) {
	t = bare(t)
	if t == nil || t.Typ == nil {
		return
	}
	s := structOf(t.Typ)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		switch {
		case isIntegerT(v.Type()):
			if l.index != nil {
				return l, false
			}
			l.index = bare(b.u.Field(t, v))
		case v.Type().String() == "reflect.Value":
			if l.value != nil {
				return l, false
			}
			l.value = bare(b.u.Field(t, v))
		}
	}
	return l, l.index != nil && l.value != nil
}

// c35slice: the elements of a slice.
func (c *Ctx) c35slice(P *types.Named, f *ssa.Function, bs binders) {
	u := c.U
	con := eng.FuncName(f)
	met := map[string]bool{}
	// elements put aside in this round
	kept := func(b *binding) (out []listed) {
		for _, e := range b.st.Trace {
			if e.Kind != "append" || len(e.Args) < 2 {
				continue
			}
			as := listArgs(e.Args[1])
			if len(as) == 0 && e.Args[1].Op == eng.OBuiltin {
				as = e.Args[1].Args
			}
			for _, a := range as {
				if l, ok := b.listedIn(a); ok {
					out = append(out, l)
				}
			}
		}
		return
	}
	// the room the slice is made with: one more than a number that is carried
	// through the loops
	cells, phis := map[*eng.Term]bool{}, map[*ssa.Phi]bool{}
	counted, countedPhi := map[*eng.Term]bool{}, map[*ssa.Phi]bool{}
	isLen := func(t *eng.Term) bool { return t.Op == eng.OBuiltin && t.Sym == "len" }
	opt, on := c.bindings(f, bs)
	for _, x := range c.Run(f, opt).Exits {
		for _, e := range x.St.Trace {
			if e.Kind != "call" || e.Name != "reflect.MakeSlice" {
				continue
			}
			n := eng.Lin(e.Args[1])
			ok := n.C == 1 && len(n.Coeff) == 1
			for t, k := range n.Coeff {
				cell, p := carriedCell(u, t), phiOf(t)
				ok = ok && k == 1 && (cell != nil || p != nil)
				if cell != nil {
					cells[cell] = true
				}
				if p != nil {
					feeds(p, phis)
				}
			}
			more := linSub(eng.Lin(e.Args[2]), n)
			enough := more.C >= 0
			for t, k := range more.Coeff {
				cell, p := carriedCell(u, t), phiOf(t)
				enough = enough && k >= 0 && (cell != nil || p != nil || isLen(t))
				if cell != nil {
					counted[cell] = true
				}
				if p != nil {
					feeds(p, countedPhi)
				}
			}
			c.On(x.St, enough, "room", con, e.Pos, "the room of the slice may be less than its length: %v", e.Args[2])
			c.On(x.St, ok && bare(e.Args[0]) == on(x.St).typ, "room", con, e.Pos, "the slice is not made with room up to the largest index: %v", e.Args[1])
			c.On(x.St, walked(x.St, on(x.St).values) && walked(x.St, func(t *eng.Term) bool { return fieldPath(t, on(x.St).p, "Files") }), "room", con, e.Pos, "the slice is made before every parameter was looked at")
		}
	}
	c.Min("room", 2)
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		b := on(st)
		pos := h.Instrs[0].Pos()
		// numbers that only grow
		grown := func(v *eng.Term, same func(t *eng.Term) bool) bool {
			n := eng.Lin(v)
			ok := n.C >= 0
			for t, k := range n.Coeff {
				ok = ok && k >= 0 && (isLen(t) || same(t))
			}
			return ok
		}
		for cell := range counted {
			v := st.Load(cell)
			c.On(st, grown(v, func(t *eng.Term) bool { return carriedCell(u, t) == cell }), "room", con, pos, "the room of the slice may become less than its length: %v", v)
		}
		for p := range countedPhi {
			if v, ok := vals[p]; ok {
				c.On(st, grown(v, func(t *eng.Term) bool { return countedPhi[phiOf(t)] }), "room", con, pos, "the room of the slice may become less than its length: %v", v)
			}
		}
		if !back {
			return
		}
		// the parameter or file of this round, and what it is called
		var next, m *eng.Term
		for _, l := range st.Facts() {
			if t, over := nextFact(l); t != nil && !l.Neg {
				next, m = t, over
			}
		}
		if next == nil {
			b.placed(h, vals, con, met)
			return
		}
		n, _ := nextOf(st, h, true)
		outerLoop := n != nil
		files := fieldPath(m, b.p, "Files")
		c.On(st, files || b.values(m), "elements", con, pos, "other parameters than the values and files are looked at: %v", m)
		key := bare(st.Ext(next, 1))
		isKey := func(t *eng.Term) bool { return bare(t) == key }
		sameName := eqFact(st, isKey, func(t *eng.Term) bool { return bare(t) == b.name })
		if sameName < 0 {
			sameName = eqFact(st, isStrFn(""), func(t *eng.Term) bool {
				t = bare(t)
				return b.call(t, "strings.TrimPrefix") && isKey(t.Args[0]) && bare(t.Args[1]) == b.name
			})
		}
		// a parameter of the name itself is an element without an index
		pre, k := b.prefixed(key, "["), key
		for _, l := range st.Facts() {
			eng.Any(l.T, func(t *eng.Term) bool {
				if ps := joined(u, parts(t)); pre < 0 && sameName == 1 && len(ps) == 2 && (ps[0] == key || ps[0] == b.name) && isStr(ps[1], "[]") {
					if n := b.prefixed(bare(t), "["); n >= 0 {
						pre, k = n, bare(t)
					}
				}
				return false
			})
		}
		if sameName == 1 && pre < 0 {
			pre = 1
		}
		// where the bracket is closed, and the index in between
		var closed eng.Linear
		var at *eng.Term
		has := false
		see := func(t *eng.Term) {
			if t == nil {
				return
			}
			eng.Any(t, func(t *eng.Term) bool {
				if b.call(t, "strconv.Atoi") || b.call(t, "strconv.ParseInt") || b.call(t, "strconv.ParseUint") {
					at = t
				}
				in, q, ok := b.search(t, false)
				if !ok || q != "]" || has {
					return false
				}
				s := b.span(in)
				if s.base == b.span(k).base && same(s.hi, b.lenOf(k)) && (same(s.lo, b.after(0)) || same(s.lo, b.after(1))) {
					closed, has = linAdd(s.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}}), true
				}
				return false
			})
		}
		for _, l := range st.Facts() {
			see(l.T)
		}
		for _, e := range st.Trace {
			see(e.Res)
		}
		if at != nil {
			c.On(st, has && b.same(b.span(at.Args[0]), b.cut(k, b.after(1), closed)), "elements", con, pos, "the index of an element is not what stands in the brackets: %v", at.Args[0])
		}
		isIndex := func(t *eng.Term) bool {
			t = bare(t)
			return at != nil && t.Op == eng.OExtract && t.Sym == "0" && bare(t.Args[0]) == at
		}
		all := kept(b)
		lists := valuesOf(st, next, m)
		isList := func(t *eng.Term) bool {
			for _, v := range lists {
				if bare(v) == bare(t) {
					return true
				}
			}
			return false
		}
		bound, current := 0, 0
		for _, e := range st.Trace {
			if e.Kind != "call" {
				continue
			}
			v := bare(e.Res)
			var mine []listed
			for _, l := range all {
				if b.plain(l.value) == v {
					mine = append(mine, l)
				}
			}
			if name, typ, ok := b.boundTo(v); ok {
				bound++
				met["indexed"] = true
				c.On(st, len(mine) == 1, "elements", con, e.Pos, "an element that was bound is lost")
				c.On(st, pre == 1 && has && b.same(b.span(name), b.cut(k, constLin(0), linAdd(closed, constLin(1)))), "elements", con, e.Pos, "an element is bound to the parameters of another name: %v", name)
				c.On(st, b.typeCall(typ, "Elem", b.typ), "elements", con, e.Pos, "an element is bound as another type: %v", typ)
				for _, l := range mine {
					i := bare(l.index)
					c.On(st, isIndex(i) && st.IsNil(st.Ext(at, 1)) == 1, "elements", con, e.Pos, "an element is put to another index than the one in the brackets: %v", i)
					c.On(st, ltProved(st, u, u.Int(-1), i, nil), "elements", con, e.Pos, "an index may be less than zero: %v", i)
					c.On(st, leProved(st, u, i, u.Int(1<<24), nil), "elements", con, e.Pos, "an index has no limit, it decides how much memory is taken: %v", i)
					enough := false
					over := func(now, was *eng.Term) {
						enough = enough || now != nil && leProved(st, u, i, now, nil) && (now == was || was != nil && leProved(st, u, was, now, nil))
					}
					for cell := range cells {
						now := st.Load(cell)
						was := (*eng.Term)(nil)
						if carriedCell(u, now) == cell {
							was = now
						}
						for _, l := range st.Facts() {
							eng.Any(l.T, func(t *eng.Term) bool {
								if was == nil && carriedCell(u, t) == cell {
									was = t
								}
								return false
							})
						}
						over(now, was)
					}
					for p := range phis {
						if now, ok := vals[p]; ok {
							var was *eng.Term
							for _, l := range st.Facts() {
								eng.Any(l.T, func(t *eng.Term) bool {
									if phiOf(t) == p {
										was = t
									}
									return false
								})
							}
							if q := phiOf(now); q == p {
								was = now
							}
							over(now, was)
						}
					}
					c.On(st, enough, "elements", con, e.Pos, "there may be no room for an element: %v", i)
				}
				continue
			}
			for j, g := range []*ssa.Function{bs.value, bs.file} {
				in, typ, ok := b.from(v, g)
				if !ok {
					continue
				}
				bound++
				l, i, isI := index(in)
				met[[2]string{"value", "file"}[j]] = true
				c.On(st, isI && isList(l) && files == (j == 1), "elements", con, e.Pos, "an element without an index is not one of the values given: %v", in)
				c.On(st, pre == 1 && b.typeCall(typ, "Elem", b.typ), "elements", con, e.Pos, "an element is bound as another type: %v", typ)
				none := len(mine) == 1 && ltProved(st, u, mine[0].index, u.Int(0), nil)
				c.On(st, none, "elements", con, e.Pos, "an element without an index is lost or put to an index")
				if isI {
					if _, ind := phiIn(noOld(u, i)); ind != nil && ind.Phi.Block() == h && forward(u, i) {
						current++
					}
				}
			}
		}
		if !outerLoop {
			c.On(st, current == 1, "elements", con, pos, "a value without an index is passed over")
			return
		}
		if bound > 0 {
			return
		}
		// nothing is bound: there is a reason, or all was bound one by one
		ok := pre == 0 || pre < 0 && sameName == 0
		if at != nil {
			ok = ok || st.IsNil(st.Ext(at, 1)) == 0 || ltProved(st, u, u.Int(1<<16-1), st.Ext(at, 0), nil)
		}
		noIndex := at == nil || ltProved(st, u, st.Ext(at, 0), u.Int(0), nil)
		for _, l := range st.Facts() {
			if x := exhausted(l); x != nil && isList(x) && noIndex {
				ok = true
			}
		}
		for _, v := range lists {
			ok = ok || noneIn(st, u, bare(v)) && noIndex
		}
		c.On(st, ok, "elements", con, pos, "an element is passed over")
	}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "elements", con, x.Pos, "binding a slice panics")
			continue
		}
		res := bare(x.Results[0])
		end := false
		for _, l := range st.Facts() {
			if t := exhausted(l); t != nil {
				if _, isMap := bare(t).Typ.Underlying().(*types.Map); !isMap {
					end = true
				}
			}
		}
		made := callTerm(res, "reflect.MakeSlice") || retOf(res, "reflect.MakeSlice")
		c.On(st, end && (phiOf(res) != nil || carriedCell(u, res) != nil || made), "elements", con, x.Pos, "the slice is handed out before every element is in its place: %v", res)
	}
	for _, n := range []string{"indexed", "value", "file", "placed", "appended"} {
		c.Check(met[n], "met", con, 0, "no path for: %s", n)
	}
	c.Min("elements", 30)
}

// feeds collects the variables p may have its value from.
func feeds(p *ssa.Phi, out map[*ssa.Phi]bool) {
	if out[p] {
		return
	}
	out[p] = true
	for _, e := range p.Edges {
		if q, ok := e.(*ssa.Phi); ok {
			feeds(q, out)
		}
	}
}

// placed: one element that was put aside gets its place.
func (b *binding) placed(h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, con string, met map[string]bool) {
	c, u, st := b.c, b.u, b.st
	pos := h.Instrs[0].Pos()
	// what the path says about the element: an index and a value of one place
	elem := func(t *eng.Term) *eng.Term {
		t = bare(t)
		if t == nil || fieldOf(t) == nil {
			return nil
		}
		var in *eng.Term
		eng.Any(t, func(x *eng.Term) bool {
			if _, i, ok := index(x); ok && in == nil {
				if _, ind := phiIn(noOld(u, i)); ind != nil && ind.Phi.Block() == h && forward(u, i) {
					in = x
					if in.Op == eng.OLoad {
						in = in.Args[0]
					}
				}
			}
			return in != nil
		})
		return in
	}
	n := 0
	for _, e := range st.Trace {
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "(reflect.Value).Set":
			to := bare(e.Recv)
			if !callTerm(to, "(reflect.Value).Index") && !retOf(to, "(reflect.Value).Index") {
				continue
			}
			n++
			met["placed"] = true
			i, v := bare(to.Args[1]), b.plain(e.Args[0])
			c.On(st, elem(i) != nil && elem(i) == elem(v), "elements", con, e.Pos, "an element is put to the index of another: %v %v", i, v)
			neg := ltProved(st, u, i, u.Int(0), nil)
			c.On(st, !neg, "elements", con, e.Pos, "an element without an index is put to one")
		case "reflect.Append":
			n++
			met["appended"] = true
			as := e.Args[1:]
			if len(as) == 1 {
				if l := listArgs(as[0]); len(l) > 0 {
					as = l
				} else if as[0].Op == eng.OBuiltin {
					as = as[0].Args
				}
			}
			c.On(st, len(as) == 1 && elem(as[0]) != nil, "elements", con, e.Pos, "something else is added to the slice: %v", e.Args)
			kept := false
			for _, v := range vals {
				kept = kept || bare(v) == bare(e.Res)
			}
			for _, s := range st.Trace {
				kept = kept || s.Kind == "store" && bare(s.Val) == bare(e.Res)
			}
			c.On(st, kept, "elements", con, e.Pos, "an element that was added is lost")
			if len(as) == 1 && elem(as[0]) != nil {
				is := func(t *eng.Term) bool { return elem(t) == elem(as[0]) }
				no := eqFact(st, is, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == -1 })
				for _, l := range st.Facts() {
					if l.T.Op == eng.OBin && l.T.Sym == "lt" {
						if k, ok := l.T.Args[1].IntVal(); ok && is(l.T.Args[0]) && k == 0 && !l.Neg {
							no = 1
						}
						if k, ok := l.T.Args[0].IntVal(); ok && is(l.T.Args[1]) && k == -1 && l.Neg {
							no = 1
						}
					}
				}
				c.On(st, no == 1, "elements", con, e.Pos, "an element with an index is added at the end")
			}
		}
	}
	c.On(st, n == 1, "elements", con, pos, "an element gets no place")
}

// c35fields: the fields of a struct of parameters.
func (c *Ctx) c35fields(P *types.Named, bs binders) {
	u := c.U
	var f *ssa.Function
	for _, g := range c.P.Funcs {
		if outer(g).Pkg == bs.bind.Pkg && len(g.Params) >= 2 && tid(pointee(g.Params[0].Type()), P) && g.Params[1].Type().String() == "reflect.Value" && callsFn(g, g) {
			f = g
		}
	}
	c.Need(f != nil, "the function that binds the fields of a struct of parameters")
	con := eng.FuncName(f)
	met := map[string]bool{}
	found := map[*ssa.Phi]bool{} // what is handed out
	boolT := f.Signature.Results().Len() == 1 && basicT(f.Signature.Results().At(0).Type(), types.Bool)
	c.Check(boolT, "struct", con, f.Pos(), "whether anything was found is not handed out")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && boolT {
				if p, isP := r.Results[0].(*ssa.Phi); isP {
					feeds(p, found)
				}
			}
		}
	}
	opt := &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(g *ssa.Function) bool { return g == f || g != bs.bind && !loops(g) },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "store" || e.Kind == "mapset" || e.Kind == "delete"
		}}
	record := map[*eng.Term]bool{}    // what says which types are being bound
	asked := map[*ssa.Function]bool{} // what says whether there is a value
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if h.Parent() != f {
			return
		}
		if !back {
			for p := range found {
				if v, ok := vals[p]; ok && hasNumField(h) {
					c.On(st, v.IsFalse(), "struct", con, h.Instrs[0].Pos(), "something counts as found before any field is looked at: %v", v)
				}
			}
			return
		}
		b := &binding{lines: lines{c: c, u: u, st: st}, p: st.Params()[0], fn: bs}
		elm := st.Params()[1]
		pos := h.Instrs[0].Pos()
		var field, info, tag *eng.Term
		for _, e := range st.Trace {
			if e.Kind != "call" {
				continue
			}
			switch {
			case hasSuffix(e.Name, "(reflect.Value).Field") && bare(e.Recv) == elm:
				c.On(st, field == nil || field == bare(e.Res), "struct", con, e.Pos, "another field is looked at in the same round: %v", e.Res)
				field = bare(e.Res)
			case hasSuffix(e.Name, "(reflect.Type).Field") && callTerm(bare(e.Recv), "(reflect.Value).Type") && bare(bare(e.Recv).Args[0]) == elm:
				info = bare(e.Res)
			case e.Name == "(reflect.StructTag).Get" && isStr(e.Args[0], "param"):
				tag = bare(e.Res)
			}
		}
		if field == nil || info == nil {
			// a loop inside of a round
			c.On(st, len(f.Blocks) > 0 && !hasNumField(h), "struct", con, pos, "a field is not looked at")
			return
		}
		_, ind := phiIn(noOld(u, field.Args[1]))
		if ind == nil || ind.Phi.Block() != h {
			return
		}
		c.On(st, forward(u, field.Args[1]) && len(info.Args) == 2 && info.Args[1] == field.Args[1], "struct", con, pos, "not every field is looked at: %v %v", field, info)
		of := func(t *eng.Term, name string) bool {
			t = bare(t)
			v := fieldOf(t)
			if v == nil || v.Name() != name {
				return false
			}
			if t.Op == eng.OLoad {
				t = t.Args[0]
			}
			return eng.Any(t, func(x *eng.Term) bool { return x == info })
		}
		isTag := func(t *eng.Term) bool { return tag != nil && bare(t) == tag }
		anon := hasFact(st, func(t *eng.Term) bool { return of(t, "Anonymous") })
		exported := eqFact(st, func(t *eng.Term) bool { return of(t, "PkgPath") }, isStrFn(""))
		if exported < 0 {
			exported = hasFact(st, func(t *eng.Term) bool { return callSuffix(t, ".IsExported") })
		}
		skip := exported == 0 && anon == 0 || eqFact(st, isTag, isStrFn("-")) == 1
		isField := func(t *eng.Term) bool { return bare(t) == field }
		kind := func(n int64, is func(t *eng.Term) bool) int {
			return eqFact(st, func(t *eng.Term) bool { v, ok := t.IntVal(); return ok && v == n }, func(t *eng.Term) bool {
				return callTerm(t, "(reflect.Value).Kind") && is(t.Args[0])
			})
		}
		can := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).CanSet") && isField(t.Args[0]) })
		isNil := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).IsNil") && isField(t.Args[0]) })
		// the name of the parameter: what the tag says before its options, or
		// the name of the field
		front := func(t *eng.Term) bool { return isTag(cutBefore(&b.lines, t, ",")) }
		isName := func(t *eng.Term) bool {
			empty := eqFact(st, front, isStrFn(""))
			if eqFact(st, isTag, isStrFn("")) == 1 {
				empty = 1
			}
			return of(t, "Name") && empty == 1 || front(t) && empty == 0
		}
		var sets, deep, binds []*eng.Event
		for _, e := range st.Trace {
			switch {
			case e.Kind != "call":
			case e.Name == "(reflect.Value).Set":
				sets = append(sets, e)
			case called(e.Res, f):
				deep = append(deep, e)
			case called(e.Res, bs.bind):
				binds = append(binds, e)
			}
		}
		// what is handed out afterwards
		told := func(is func(t *eng.Term) bool) bool {
			for p := range found {
				v, ok := vals[p]
				if !ok {
					continue
				}
				was := false
				for _, l := range st.Facts() {
					was = was || !l.Neg && phiOf(l.T) == p
				}
				not := false
				for _, l := range st.Facts() {
					not = not || l.Neg && phiOf(l.T) == p
				}
				return v.IsTrue() || was && phiOf(v) == p || not && is(bare(v)) || hasFact(st, is) == 0 && (phiOf(v) == p || not && v.IsFalse())
			}
			return false
		}
		switch {
		case len(deep) > 0:
			met["embedded"] = true
			e := deep[0]
			c.On(st, len(deep) == 1 && len(binds) == 0 && anon == 1 && !skip, "struct", con, e.Pos, "a field that is not embedded is taken for one that is")
			in := bare(e.Res).Args
			to := bare(in[1])
			c.On(st, bare(in[0]) == b.p, "struct", con, e.Pos, "an embedded struct is bound to other parameters")
			ind := to
			if callTerm(to, "reflect.Indirect") || callTerm(to, "(reflect.Value).Elem") {
				ind = bare(to.Args[0])
			}
			fresh := callTerm(ind, "reflect.New") || retOf(ind, "reflect.New")
			ok := to == field && kind(25, isField) == 1 || ind == field && isNil == 0 || fresh && isNil == 1 && can == 1
			c.On(st, ok, "struct", con, e.Pos, "another struct than the embedded one is bound: %v", to)
			yes := hasFact(st, func(t *eng.Term) bool { return bare(t) == bare(e.Res) })
			c.On(st, told(func(t *eng.Term) bool { return t == bare(e.Res) }), "struct", con, e.Pos, "what was found in an embedded struct is not told: %v", e.Res)
			if fresh {
				met["new"] = true
				n := 0
				for _, s := range sets {
					if bare(s.Recv) == field && bare(s.Args[0]) == ind {
						n++
					}
				}
				c.On(st, n == 1 && yes == 1 || n == 0 && yes == 0, "struct", con, e.Pos, "an embedded pointer is set without values for it, or values are lost")
			}
		case len(binds) > 0:
			met["bound"] = true
			e := binds[0]
			name, typ, _ := b.boundTo(e.Res)
			c.On(st, len(binds) == 1 && !skip, "struct", con, e.Pos, "a field that is left out is bound")
			c.On(st, name != nil && isName(name), "struct", con, e.Pos, "a field is bound to the parameter of another name: %v", name)
			ft := callTerm(typ, "(reflect.Value).Type") && isField(typ.Args[0]) || of(typ, "Type")
			c.On(st, ft, "struct", con, e.Pos, "a field is bound as another type: %v", typ)
			conv := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Type).ConvertibleTo") })
			n := 0
			for _, s := range sets {
				c.On(st, bare(s.Recv) == field, "struct", con, s.Pos, "another field is set: %v", s.Recv)
				if bare(s.Recv) == field {
					n++
					c.On(st, b.plain(s.Args[0]) == bare(e.Res), "struct", con, s.Pos, "a field is set to something else: %v", s.Args[0])
				}
			}
			c.On(st, n == 1 || n == 0 && conv == 0, "struct", con, e.Pos, "a field is not set to its parameter")
			for _, e := range st.Trace {
				if e.Callee == nil || e.Kind != "call" {
					continue
				}
				if g := c.P.SSA.FuncValue(e.Callee); g != nil && g.Signature.Results().Len() == 1 && basicT(g.Signature.Results().At(0).Type(), types.Bool) && g.Pkg == f.Pkg {
					asked[g] = true
				}
			}
			c.On(st, told(func(t *eng.Term) bool {
				return (t.Op == eng.ORet || t.Op == eng.OPure) && len(t.Args) >= 2 && (bare(t.Args[0]) == b.p || b.values(t.Args[0])) && bare(t.Args[1]) == name
			}), "struct", con, e.Pos, "a value that was found is not told")
		default:
			// nothing is done: there is a reason
			ptr := kind(22, isField)
			seen := hasFact(st, func(t *eng.Term) bool {
				if t.Op == eng.OLoad && t.Args[0].Op == eng.OMAddr {
					t = t.Args[0]
				}
				return (t.Op == eng.OMAddr || t.Op == eng.OMOk) && eng.Any(t.Args[1], isField)
			})
			// its type is being bound already, further out
			within := hasFact(st, func(t *eng.Term) bool {
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				if t.Op != eng.OMAddr && t.Op != eng.OMOk {
					return false
				}
				k := bare(t.Args[1])
				if t.Args[0].Op != eng.OParam || !callTerm(k, "(reflect.Type).Elem") {
					return false
				}
				in := bare(k.Args[0])
				if !of(in, "Type") && !(callTerm(in, "(reflect.Value).Type") && isField(in.Args[0])) {
					return false
				}
				record[t.Args[0]] = true
				return true
			})
			target := kind(25, func(t *eng.Term) bool {
				t = bare(t)
				return callTerm(t, "reflect.Indirect") || callTerm(t, "(reflect.Value).Elem")
			})
			elem := eqFact(st, func(t *eng.Term) bool { v, ok := t.IntVal(); return ok && v == 25 }, func(t *eng.Term) bool {
				return callTerm(t, "(reflect.Type).Kind") && callTerm(bare(t.Args[0]), "(reflect.Type).Elem")
			})
			ok := skip || anon == 1 && (ptr == 0 && kind(25, isField) == 0 || kind(25, isField) == 0 && ptr < 0 ||
				ptr == 1 && (seen == 1 || isNil == 1 && (can == 0 || within == 1) || target == 0 || elem == 0))
			c.On(st, ok, "struct", con, pos, "a field is passed over")
			for p := range found {
				if v, in := vals[p]; in {
					c.On(st, phiOf(v) == p || v.IsFalse() || v.IsTrue(), "struct", con, pos, "what was found before is forgotten: %v", v)
				}
			}
		}
	}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "struct", con, x.Pos, "binding the fields of a struct panics")
			continue
		}
		end := hasFact(st, func(t *eng.Term) bool {
			return t.Op == eng.OBin && t.Sym == "lt" && callTerm(t.Args[1], "(reflect.Value).NumField")
		})
		c.On(st, end == 0, "struct", con, x.Pos, "not every field is looked at")
		for m := range record {
			marked, last := false, ""
			for _, e := range st.Trace {
				if (e.Kind == "mapset" || e.Kind == "delete") && e.Recv == m {
					k := bare(e.Args[0])
					if callTerm(k, "(reflect.Value).Type") && bare(k.Args[0]) == st.Params()[1] {
						last = e.Kind
						marked = marked || e.Kind == "mapset" && e.Val.IsTrue()
					}
				}
			}
			c.On(st, marked && last == "delete", "struct", con, x.Pos, "a type is not marked while it is being bound, or stays so")
		}
	}
	for _, n := range []string{"embedded", "new", "bound"} {
		c.Check(met[n], "met", con, 0, "no path for: %s", n)
	}
	c.Min("struct", 100)
	for g := range asked {
		if g != f {
			c.c35has(P, g)
		}
	}
	// from outside
	for _, g := range c.P.Funcs {
		if outer(g).Pkg != bs.bind.Pkg || g == f || !callsFn(g, f) {
			continue
		}
		con := eng.FuncName(g)
		for _, x := range c.Run(g, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(h *ssa.Function) bool { return h != f },
			Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}).Exits {
			st := x.St
			if x.Kind != "return" {
				continue
			}
			n := 0
			for _, e := range st.Trace {
				if called(e.Res, f) {
					n++
					in := bare(e.Res).Args
					to := bare(in[1])
					ok := (callTerm(to, "reflect.Indirect") || callTerm(to, "(reflect.Value).Elem")) && callTerm(bare(to.Args[0]), "reflect.ValueOf") && bare(bare(to.Args[0]).Args[0]).Op == eng.OParam
					c.On(st, ok && bare(in[0]) == st.Params()[0], "outside", con, e.Pos, "another struct is bound, or to other parameters: %v", to)
				}
			}
			c.On(st, n == 1, "outside", con, x.Pos, "the struct is not bound")
		}
	}
	c.Min("outside", 2)
}

// c35has: whether there is a value for a name, for one of its elements or for
// one of its fields.
func (c *Ctx) c35has(P *types.Named, f *ssa.Function) {
	con := eng.FuncName(f)
	ni, pi := -1, -1
	for i, p := range f.Params {
		switch {
		case isStringT(p.Type()):
			ni = i
		case tid(pointee(p.Type()), P):
			pi = i
		default:
			if _, ok := p.Type().Underlying().(*types.Map); ok {
				pi = i
			}
		}
	}
	if !c.Check(ni >= 0 && pi >= 0 && len(f.Params) == 2, "has", con, f.Pos(), "whether there is a value is not asked for a name and its parameters") {
		return
	}
	on := func(st *eng.State) (*binding, func(m *eng.Term) bool) {
		ps := st.Params()
		b := &binding{lines: lines{c: c, u: c.U, st: st}, p: ps[pi], name: ps[ni]}
		return b, func(m *eng.Term) bool { return b.values(m) || bare(m) == ps[pi] }
	}
	// whether the parameter of this round counts: 1, 0 or -1
	counts := func(st *eng.State, b *binding, next, m *eng.Term) int {
		key := bare(st.Ext(next, 1))
		full := -1
		for _, v := range valuesOf(st, next, m) {
			if noneIn(st, c.U, bare(v)) {
				full = 0
			}
			if ltProved(st, c.U, c.U.Int(0), c.U.Len(v), nil) {
				full = 1
			}
		}
		plain := eqFact(st, func(t *eng.Term) bool { return bare(t) == key }, func(t *eng.Term) bool { return bare(t) == b.name })
		elem, field := b.prefixed(key, "["), b.prefixed(key, ".")
		switch {
		case full == 1 && (plain == 1 || elem == 1 || field == 1):
			return 1
		case full == 0 || plain == 0 && elem == 0 && field == 0:
			return 0
		}
		return -1
	}
	opt := &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
		return e.Kind == "call" || e.Kind == "store" || e.Kind == "mapset"
	}}
	met := 0
	opt.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if !back {
			return
		}
		b, is := on(st)
		next, m := nextOf(st, h, true)
		if next == nil || !is(m) {
			c.On(st, false, "has", con, h.Instrs[0].Pos(), "something else than the values is looked through")
			return
		}
		c.On(st, counts(st, b, next, m) == 0, "has", con, h.Instrs[0].Pos(), "a value for the name is passed over")
	}
	for _, x := range c.Run(f, opt).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "has", con, x.Pos, "looking for a value panics")
			continue
		}
		b, is := on(st)
		res := bare(x.Results[0])
		yes := b2i(res.IsTrue())
		if !res.IsTrue() && !res.IsFalse() {
			yes = hasFact(st, func(t *eng.Term) bool { return bare(t) == res })
		}
		if yes == 0 {
			c.On(st, walked(st, is), "has", con, x.Pos, "not every value is looked at")
			continue
		}
		ok := false
		for _, l := range st.Facts() {
			if next, m := nextFact(l); next != nil && !l.Neg && is(m) && counts(st, b, next, m) == 1 {
				ok = true
			}
		}
		met++
		c.On(st, yes == 1 && ok, "has", con, x.Pos, "a value is reported that is not there: %v", res)
	}
	c.Check(met > 0, "met", con, f.Pos(), "no path for: a value is found")
}

// hasNumField: the loop counts the fields of a struct.
func hasNumField(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() != nil && x.Call.StaticCallee().Name() == "NumField" {
			return true
		}
	}
	return false
}

// c35body: the body of the request as it is read into a value.
func (c *Ctx) c35body(P *types.Named) {
	f := c.Meth(types.NewPointer(P), "BindJsonBody")
	con := eng.FuncName(f)
	met := map[string]bool{}
	for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "body", con, x.Pos, "reading the body panics")
			continue
		}
		ps := st.Params()
		res := bare(x.Results[0])
		var read, dec *eng.Event
		numbers := 0
		var made *eng.Term
		for _, e := range st.Trace {
			switch e.Name {
			case "io/ioutil.ReadAll", "io.ReadAll":
				read = e
				c.On(st, fieldPath(unConv(e.Args[0]), ps[0], "req", "Body"), "body", con, e.Pos, "something else than the body is read: %v", e.Args[0])
			case "(*encoding/json.Decoder).UseNumber":
				numbers++
				made = bare(e.Recv)
			case "(*encoding/json.Decoder).Decode":
				dec = e
			}
		}
		c.On(st, read != nil, "body", con, x.Pos, "the body is not read")
		if read == nil {
			continue
		}
		err := errOf(st, read)
		text := bare(st.Ext(read.Res, 0))
		if dec == nil {
			none := st.IsNil(err) == 1 && noneIn(st, c.U, text)
			failed := st.IsNil(err) != 1 && res == bare(err)
			if none {
				met["empty"] = true
			}
			if failed {
				met["failed"] = true
			}
			c.On(st, failed || none && (res.IsNil() || res == bare(err)), "body", con, x.Pos, "a body that was read is passed over, or the failure to read it: %v", res)
			continue
		}
		met["read"] = true
		c.On(st, st.IsNil(err) == 1, "body", con, dec.Pos, "a body that could not be read is looked at")
		d := bare(dec.Recv)
		src := retOf(d, "encoding/json.NewDecoder") || callTerm(d, "encoding/json.NewDecoder")
		if src {
			r := unConv(d.Args[0])
			src = (retOf(r, "bytes.NewReader") || callTerm(r, "bytes.NewReader") || retOf(r, "strings.NewReader") || callTerm(r, "strings.NewReader") || retOf(r, "bytes.NewBuffer") || callTerm(r, "bytes.NewBuffer")) && bare(r.Args[0]) == text
		}
		c.On(st, src && unConv(dec.Args[0]) == ps[1], "body", con, dec.Pos, "the value is not read from the body: %v", d)
		// numbers as they are written when the first option asks for it
		ask := hasFact(st, func(t *eng.Term) bool {
			l, i, ok := index(t)
			return ok && bare(l) == ps[2] && isZero(i)
		})
		if ask < 0 && noneIn(st, c.U, ps[2]) {
			ask = 0
		}
		c.On(st, ask == 1 && numbers == 1 && made == d || ask == 0 && numbers == 0, "body", con, dec.Pos, "numbers are not read the way that was asked for")
		derr := bare(errOf(st, dec))
		switch st.IsNil(derr) {
		case 1:
			c.On(st, res.IsNil() || res == derr, "body", con, x.Pos, "a body that could be read gives an error")
		default:
			c.On(st, reports(st, x.Results[0], derr) || res == derr, "body", con, x.Pos, "a body that could not be read gives no error")
		}
	}
	for _, n := range []string{"read", "empty", "failed"} {
		c.Check(met[n], "met", con, 0, "no path for: %s", n)
	}
	c.Min("body", 10)
}
