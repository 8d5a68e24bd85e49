package main

import (
	"go/constant"
	"go/types"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33",
		"Provenance and completeness of every token handed out: the buffer has the asked length and was filled by the system's cryptographic source without an error on the path, a loop proven to visit every position stores there an element of the alphabet chosen by the random byte of this position, and nothing else is stored. All other ways out give an error and nothing, the panicking forms panic exactly there, and the derived forms hand on their arguments. A session id is the time part and so many random characters that the lengths add up to the fixed one.",
		"how evenly the characters are distributed; the quality of the system's source",
		c33)
}

func c33(c *Ctx) {
	u := c.U
	f := c.Fn("utils", "RandomCreateBytes")
	con := eng.FuncName(f)
	wide := func(t *eng.Term) *eng.Term { // conversions that keep the value of a byte
		for {
			t = bare(t)
			if t.Op == eng.OConv && t.Typ != nil && isIntegerT(t.Typ) {
				t = t.Args[0]
				continue
			}
			return t
		}
	}
	isSource := func(e *eng.Event) (buf *eng.Term, needCount bool) {
		if e.Kind != "call" {
			return nil, false
		}
		reader := func(t *eng.Term) bool {
			t = noOld(u, bare(t))
			return t.Op == eng.OLoad && t.Args[0].Op == eng.OGlobal && eng.Any(t, func(t *eng.Term) bool {
				v, ok := t.Obj.(*ssa.Global)
				return ok && v.Pkg.Pkg.Path() == "crypto/rand" && v.Name() == "Reader"
			})
		}
		switch {
		case e.Name == "crypto/rand.Read":
			return e.Args[0], false
		case e.Name == "io.ReadFull" && reader(e.Args[0]):
			return e.Args[1], false
		case e.Recv != nil && reader(e.Recv) && e.Name == "(io.Reader).Read":
			return e.Args[0], true
		}
		return nil, false
	}
	type source struct {
		e     *eng.Event
		buf   *eng.Term
		count bool
	}
	sourceOf := func(st *eng.State) (out []source) {
		for _, e := range st.Trace {
			if b, n := isSource(e); b != nil {
				out = append(out, source{e, bare(b), n})
			}
		}
		return
	}
	good, bad := map[*ssa.BasicBlock]*eng.Term{}, map[*ssa.BasicBlock]bool{}
	// alphabetOK: the list is the one given if there is one, else the default
	alphabetOK := func(st *eng.State, t *eng.Term) bool {
		given := st.Params()[1]
		t = noOld(u, bare(t))
		none := emptyText(st, u, given)
		if none < 0 {
			none = st.IsNil(given)
		}
		if t == given {
			return none == 0
		}
		return none == 1 && t.Op == eng.OLoad && t.Args[0].Op == eng.OGlobal
	}
	// picked: the value is the element of the alphabet the random byte at idx chooses
	picked := func(st *eng.State, v, idx *eng.Term) bool {
		alph, k, ok := index(bare(v))
		if !ok || !alphabetOK(st, alph) {
			return false
		}
		k = bare(k)
		if k.Op == eng.OConv && isIntegerT(k.Typ) {
			k = bare(k.Args[0])
		}
		if k.Op != eng.OBin || k.Sym != "%" || k.Args[1] != u.Len(alph) && !wideLen(k.Args[1], u.Len(alph)) {
			return false
		}
		b, i, ok := index(wide(k.Args[0]))
		if !ok || noOld(u, i) != noOld(u, idx) {
			return false
		}
		for _, s := range sourceOf(st) {
			if s.buf == bare(b) {
				return true
			}
		}
		return false
	}
	// or the characters are appended one by one to an empty list
	grown := map[*ssa.BasicBlock]*ssa.Phi{}
	empty := func(t *eng.Term) bool {
		t = bare(t)
		return t.IsNil() || t.Op == eng.OAlloc && len(t.Args) > 0 && isZero(t.Args[0]) || t.Op == eng.OBuiltin && t.Sym == "slicelit" && len(t.Args) == 0
	}
	r := c.Run(f, &eng.Options{Exact: true, Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		for p, v := range vals {
			if !isSlice(p.Type()) {
				continue
			}
			if !back {
				if empty(v) && !bad[h] {
					grown[h] = p
				}
				continue
			}
			if grown[h] != p {
				continue
			}
			v = noOld(u, bare(v))
			ok := v.Op == eng.OBuiltin && v.Sym == "append" && phiOf(noOld(u, bare(v.Args[0]))) == p
			if ok {
				els := listArgs(v.Args[1])
				ok = len(els) == 1
				if ok {
					_, k, isEl := index(bare(els[0]))
					_, ind := (*eng.Term)(nil), (*eng.Induction)(nil)
					if isEl {
						_, ind = phiIn(noOld(u, k))
					}
					ok = isEl && ind != nil && ind.Phi.Block() == h
					if ok {
						var idx *eng.Term
						eng.Any(k, func(t *eng.Term) bool {
							if _, i, isEl := index(t); isEl && t.Op == eng.OLoad {
								idx = i
							}
							return false
						})
						ok = idx != nil && forward(u, noOld(u, idx)) && picked(st, els[0], idx)
					}
				}
			}
			if !ok {
				delete(grown, h)
				bad[h] = true
			}
		}
	}, CutAt: func(*ssa.BasicBlock) int { return 2 },
		Inline: func(g *ssa.Function) bool { return outer(g).Pkg != nil && outer(g).Pkg == f.Pkg },
		Event:  func(st *eng.State, e *eng.Event) bool { return true },
		Back: func(st *eng.State, h *ssa.BasicBlock) {
			var n int
			for _, e := range st.Trace {
				if e.Kind != "store" || !inLoop(h, e.Instr) {
					continue
				}
				b, i, ok := index2(e.Addr)
				_, ind := phiIn(noOld(u, i))
				if d, okd := delta(noOld(u, i)); !ok || ind == nil || ind.Phi.Block() != h || !forward(u, noOld(u, i)) || !okd || d != 1 {
					continue
				}
				if picked(st, e.Val, i) {
					n++
					if good[h] == nil {
						good[h] = bare(b)
					}
					bad[h] = bad[h] || good[h] != bare(b)
				}
			}
			if n != 1 && grown[h] == nil {
				bad[h] = true
			}
		}})
	for _, x := range r.Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "token", con, x.Pos, "making a token panics")
			continue
		}
		res, rerr := bare(x.Results[0]), bare(x.Results[1])
		if st.IsNil(rerr) == 0 {
			c.On(st, res.IsNil(), "error", con, x.Pos, "there is a token in spite of an error")
			continue
		}
		c.On(st, rerr.IsNil() || st.IsNil(rerr) == 1, "error", con, x.Pos, "it is not known whether the source failed")
		n := st.Params()[0]
		ok := res.Op == eng.OAlloc && len(res.Args) > 0 && res.Args[0] == n
		byAppend := func(h *ssa.BasicBlock) bool { return grown[h] != nil && phiOf(res) == grown[h] }
		if p := phiOf(res); p != nil && byAppend(p.Block()) {
			ok = true
		}
		c.On(st, ok, "length", con, x.Pos, "the token is %v", res)
		filled := false
		for _, s := range sourceOf(st) {
			one := st.IsNil(st.Ext(s.e.Res, 1)) == 1
			if s.count {
				one = one && st.EqTerms(st.Ext(s.e.Res, 0), n) == 1
			}
			c.On(st, one, "error", con, s.e.Pos, "a failure of the source is ignored")
			filled = filled || s.buf.Op == eng.OAlloc && len(s.buf.Args) > 0 && s.buf.Args[0] == n
		}
		c.On(st, filled, "random", con, x.Pos, "the token is not made of as many random bytes")
		done := ltProved(st, u, n, u.Int(1), nil) && res.Op == eng.OAlloc
		for _, l := range st.Facts() {
			if l.T.Op != eng.OBin || l.T.Sym != "lt" || !l.Neg {
				continue
			}
			if _, ind := phiIn(noOld(u, l.T.Args[0])); ind != nil {
				h := ind.Phi.Block()
				v, okv := firstIdx(u, noOld(u, l.T.Args[0]))
				if (good[h] == res && !bad[h] || byAppend(h)) && okv && v == 0 && (l.T.Args[1] == n || l.T.Args[1] == u.Len(res)) {
					done = true
				}
			}
		}
		c.On(st, done, "random", con, x.Pos, "not every character is chosen from the alphabet by its random byte")
		for _, e := range st.Trace {
			if e.Kind == "copy" && eng.Root(e.Args[0]) == res {
				c.On(st, false, "random", con, e.Pos, "something else is stored in the token")
			}
			if e.Kind == "store" && eng.Root(e.Addr) == res {
				_, i, ok := index2(e.Addr)
				c.On(st, ok && picked(st, e.Val, i), "random", con, e.Pos, "something else is stored in the token")
			}
		}
	}
	c.Min("random", 4)
	c.Min("error", 4)

	// derived forms
	for _, d := range []struct {
		name      string
		must, str bool
	}{{"RandomCreateString", false, true}, {"MustRandomCreateBytes", true, false}, {"MustRandomCreateString", true, true}} {
		g := c.Fn("utils", d.name)
		con := eng.FuncName(g)
		for _, x := range c.Run(g, &eng.Options{Exact: true,
			Inline: func(h *ssa.Function) bool { return h != f && outer(h).Pkg != nil && outer(h).Pkg == f.Pkg },
			Event:  func(st *eng.State, e *eng.Event) bool { return true }}).Exits {
			st := x.St
			var call *eng.Event
			for _, e := range st.Trace {
				if e.Kind == "call" && target(e) == f {
					call = e
				}
			}
			if call == nil {
				c.On(st, false, "derived", con, x.Pos, "no token is made")
				continue
			}
			args := call.Args
			c.On(st, len(args) == 2 && bare(args[0]) == st.Params()[0] && bare(args[1]) == st.Params()[1], "derived", con, call.Pos, "another token is made: %v", args)
			val, err := st.Ext(call.Res, 0), st.Ext(call.Res, 1)
			if x.Kind != "return" {
				c.On(st, d.must && st.IsNil(err) == 0, "derived", con, x.Pos, "it panics although a token was made, or instead of giving the error")
				continue
			}
			got := bare(x.Results[0])
			empty := false
			if d.str {
				if s, ok := got.StrVal(); ok && s == "" {
					empty = true
				}
				if got.Op == eng.OConv {
					got = bare(got.Args[0])
				}
			} else {
				empty = got.IsNil()
			}
			if d.must {
				c.On(st, st.IsNil(err) == 1 && got == val, "derived", con, x.Pos, "%v is handed out", x.Results)
				continue
			}
			failed := st.IsNil(err)
			rerr := bare(x.Results[1])
			c.On(st, (rerr == err || failed == 1 && rerr.IsNil()) && (got == val || failed == 0 && empty), "derived", con, x.Pos, "%v is handed out", x.Results)
		}
	}
	c.Min("derived", 8)

	// session ids
	sid := c.Fn("sessions", "CreateSid")
	con = eng.FuncName(sid)
	cst, _ := sid.Pkg.Pkg.Scope().Lookup("SESSION_ID_LENGTH").(*types.Const)
	c.Need(cst != nil, "the length of session ids")
	length, _ := constant.Int64Val(cst.Val())
	c.Check(length >= 20, "sid", con, cst.Pos(), "session ids are only %d characters long", length)
	for _, x := range c.Run(sid, &eng.Options{Exact: true,
		Inline: func(h *ssa.Function) bool { return outer(h).Pkg != nil && outer(h).Pkg == sid.Pkg },
		Event:  func(st *eng.State, e *eng.Event) bool { return true }}).Exits {
		st := x.St
		var call *eng.Event
		for _, e := range st.Trace {
			if g := target(e); e.Kind == "call" && g != nil && g.Pkg == f.Pkg && (g == f || g.Name() == "RandomCreateString" || g.Name() == "MustRandomCreateBytes" || g.Name() == "MustRandomCreateString") {
				c.On(st, call == nil, "sid", con, e.Pos, "two random parts")
				call = e
			}
		}
		if call == nil {
			c.On(st, false, "sid", con, x.Pos, "a session id without a random part")
			continue
		}
		rnd, err := call.Res, (*eng.Term)(nil)
		if target(call).Signature.Results().Len() > 1 {
			rnd, err = st.Ext(call.Res, 0), st.Ext(call.Res, 1)
		}
		if x.Kind != "return" {
			c.On(st, err != nil && st.IsNil(err) == 0, "sid", con, x.Pos, "making a session id panics although there are random characters")
			continue
		}
		c.On(st, err == nil || st.IsNil(err) == 1, "sid", con, x.Pos, "a session id is handed out although there may be no random characters")
		var sum eng.Linear = eng.Lin(call.Args[0])
		has := false
		for _, p := range concat(bare(x.Results[0])) {
			q := bare(p)
			if q.Op == eng.OConv && !isIntegerT(q.Typ) {
				q = bare(q.Args[0])
			}
			if q == rnd && !has {
				has = true
				continue
			}
			l := eng.Lin(u.Bin("+", sumTerm(u, sum), u.Len(p), types.Typ[types.Int]))
			sum = l
		}
		c.On(st, has, "sid", con, x.Pos, "the session id is %v", x.Results)
		c.On(st, len(sum.Coeff) == 0 && sum.C == length, "sid", con, x.Pos, "the parts of a session id do not add up to its length")
	}
	c.Min("sid", 4)
}

func sumTerm(u *eng.Universe, l eng.Linear) *eng.Term {
	t := u.Int(l.C)
	for x, k := range l.Coeff {
		for ; k > 0; k-- {
			t = u.Bin("+", t, x, types.Typ[types.Int])
		}
		for ; k < 0; k++ {
			t = u.Bin("-", t, x, types.Typ[types.Int])
		}
	}
	return t
}

// concat: the parts a text is put together from.
func concat(t *eng.Term) []*eng.Term {
	if t.Op == eng.OBin && t.Sym == "+" && isString(t.Typ) {
		return append(concat(t.Args[0]), concat(t.Args[1])...)
	}
	return []*eng.Term{t}
}

// wideLen: the length, converted to a type that holds it.
func wideLen(t, n *eng.Term) bool {
	if t.Op != eng.OConv || t.Args[0] != n {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Int32, types.Uint32:
		return true
	}
	return false
}

func isIntegerT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
