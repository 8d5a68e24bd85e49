package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25",
		"Case analysis of every lookup: what is handed out is the first non-empty of the environment, the own section and key, and the parent, in this order, and nothing is passed over that may hold a value; a default is used only where nothing was found. A target is changed only with a value that was found and fits its type, through any number of pointers, and a found value that fits always arrives. Files are linked so that a later one wins over an earlier one.",
		"how the text of a file is parsed; concurrent changes of a configuration; programs that link a configuration to itself",
		c25)
}

// partOf: which part of the name "section::key" t is: w(hole), b(efore), a(fter).
func partOf(st *eng.State, u *eng.Universe, t, name *eng.Term) byte {
	t = bare(t)
	if t == name {
		return 'w'
	}
	isSplit := func(t *eng.Term) bool {
		if !callTerm(t, "strings.SplitN") && !retOf(t, "strings.SplitN") || t.Args[0] != name {
			return false
		}
		s, ok := t.Args[1].StrVal()
		n, ok2 := t.Args[2].IntVal()
		return ok && ok2 && s == "::" && n == 2
	}
	if b, i, ok := index(t); ok && isSplit(bare(b)) {
		many := splitIn(st, u, bare(b))
		if n, isC := i.IntVal(); isC {
			switch {
			case n == 0 && many == 1:
				return 'b'
			case n == 0 && many == 0:
				return 'w'
			case n == 1 && many == 1:
				return 'a'
			}
			return 0
		}
		// the last
		if l := eng.Lin(i); l.C == -1 && len(l.Coeff) == 1 && l.Coeff[u.Len(b)] == 1 {
			switch many {
			case 1:
				return 'a'
			case 0:
				return 'w'
			}
		}
		return 0
	}
	if t.Op == eng.OExtract && (retOf(t.Args[0], "strings.Cut") || callTerm(t.Args[0], "strings.Cut")) && t.Args[0].Args[0] == name && isStr(t.Args[0].Args[1], "::") {
		found := hasFact(st, func(x *eng.Term) bool { return x.Op == eng.OExtract && x.Sym == "2" && x.Args[0] == t.Args[0] })
		switch {
		case t.Sym == "0" && found == 1:
			return 'b'
		case t.Sym == "1" && found == 1:
			return 'a'
		case t.Sym == "0" && found == 0:
			return 'w'
		}
		return 0
	}
	if t.Op == eng.OSlice && t.Args[0] == name {
		isIdx := func(x *eng.Term) bool {
			return (callTerm(x, "strings.Index") || retOf(x, "strings.Index")) && x.Args[0] == name && isStr(x.Args[1], "::")
		}
		lo, hi := t.Args[1], t.Args[2]
		found := func(x *eng.Term) bool {
			return ltProved(st, u, u.Int(-1), x, nil) || eqFact(st, func(t *eng.Term) bool { return t == x }, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == -1 }) == 0
		}
		if isIdx(hi) && (noBound(lo) || isZero(lo)) && found(hi) {
			return 'b'
		}
		if noBound(hi) {
			if l := eng.Lin(lo); l.C == 2 && len(l.Coeff) == 1 {
				for x, n := range l.Coeff {
					if n == 1 && isIdx(x) && found(x) {
						return 'a'
					}
				}
			}
		}
	}
	return 0
}

// noBound: a slice is not bounded on this side.
func noBound(t *eng.Term) bool { return t == nil || t.IsNil() }

// splitIn: whether the list a text was split into has two parts.
func splitIn(st *eng.State, u *eng.Universe, list *eng.Term) int {
	n := u.Len(list)
	switch {
	case ltProved(st, u, u.Int(1), n, nil):
		return 1
	case leProved(st, u, n, u.Int(1), nil):
		return 0
	}
	switch eqFact(st, func(t *eng.Term) bool { return t == n }, func(t *eng.Term) bool { k, ok := t.IntVal(); return ok && k == 2 }) {
	case 1:
		return 1
	case 0:
		return 0
	}
	switch eqFact(st, func(t *eng.Term) bool { return t == n }, func(t *eng.Term) bool { k, ok := t.IntVal(); return ok && k == 1 }) {
	case 1:
		return 0
	case 0:
		return 1
	}
	return -1
}

// emptyText: t is known to be empty (1), to hold something (0).
func emptyText(st *eng.State, u *eng.Universe, t *eng.Term) int {
	if s, ok := t.StrVal(); ok {
		return b2i(s == "")
	}
	if n := eqFact(st, func(x *eng.Term) bool { return x == t }, isStrFn("")); n >= 0 {
		return n
	}
	if n := eqFact(st, func(x *eng.Term) bool { return x == u.Len(t) }, isZero); n >= 0 {
		return n
	}
	if ltProved(st, u, u.Int(0), u.Len(t), nil) {
		return 0
	}
	return -1
}

func c25(c *Ctx) {
	c.c25lookup()
	c.c25bind()
	c.c25files()
	c.c25decode()
}

func (c *Ctx) c25lookup() {
	u := c.U
	iface := c.Iface("github.com/wujiu2020/strip/config", "Configer")
	dataOK := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok || !isString(m.Key()) {
			return false
		}
		m2, ok := m.Elem().Underlying().(*types.Map)
		return ok && isString(m2.Key()) && isString(m2.Elem())
	}
	for _, t := range c.Impls("config", iface) {
		f := c.Meth(t, "Find")
		con := eng.FuncName(f)
		recur := func(x *eng.Term) bool { // lookup of the parent
			return callSuffix(x, ").Find") && len(x.Args) > 1
		}
		for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Inline: func(g *ssa.Function) bool { return g == f || outer(g).Pkg == f.Pkg && g.Name() != "Find" },
			Event:  func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "lookup", con, x.Pos, "a lookup panics")
				continue
			}
			name := st.Params()[1]
			res := bare(x.Results[0])
			if hasFact(st, func(t *eng.Term) bool { // splitting in two gives at least one part
				if t.Op != eng.OBin || t.Sym != "eq" {
					return false
				}
				for i, a := range t.Args {
					if a.Op == eng.OBuiltin && a.Sym == "len" && callTerm(a.Args[0], "strings.SplitN") && isZero(t.Args[1-i]) {
						return true
					}
				}
				return false
			}) == 1 {
				continue
			}
			// the parts of the name on this path
			var sec, key *eng.Term
			look := func(t *eng.Term) {
				eng.Any(t, func(t *eng.Term) bool {
					if t.Op == eng.OIAddr {
						return false
					}
					switch partOf(st, u, t, name) {
					case 'b':
						sec = t
					case 'a':
						key = t
					case 'w':
						if t != name || key == nil {
							if key == nil || partOf(st, u, key, name) != 'a' {
								key = t
							}
						}
					}
					return false
				})
			}
			for _, e := range st.Trace {
				for _, a := range e.Args {
					look(a)
				}
			}
			for _, l := range st.Facts() {
				look(l.T)
			}
			if key == nil {
				key = name
			}
			if emptyText(st, u, key) == 1 {
				c.On(st, emptyText(st, u, res) == 1, "lookup", con, x.Pos, "a name without a key finds %v", res)
				continue
			}
			secEmpty := 1
			if sec != nil {
				secEmpty = emptyText(st, u, sec)
			}
			// environment
			isEnv := func(t *eng.Term) bool {
				if !retOf(t, "os.Getenv") && !callTerm(t, "os.Getenv") {
					return false
				}
				return envName(c, st, t.Args[0], sec, key, secEmpty)
			}
			isOwnSec := func(t *eng.Term) bool {
				if secEmpty == 1 {
					return isStr(t, "default")
				}
				return secEmpty == 0 && t == sec
			}
			isData := func(m *eng.Term) bool {
				m = noOld(u, bare(m))
				return m.Op == eng.OLoad && base0(m) == st.Params()[0] && m.Typ != nil && dataOK(m.Typ)
			}
			isSecMap := func(m *eng.Term) bool {
				m = noOld(u, bare(m))
				return m.Op == eng.OLoad && m.Args[0].Op == eng.OMAddr && isData(m.Args[0].Args[0]) && isOwnSec(m.Args[0].Args[1])
			}
			isOwn := func(t *eng.Term) bool {
				t = noOld(u, bare(t))
				return t.Op == eng.OLoad && t.Args[0].Op == eng.OMAddr && isSecMap(t.Args[0].Args[0]) && t.Args[0].Args[1] == key
			}
			ownAbsent := hasFact(st, func(t *eng.Term) bool {
				t = noOld(u, t)
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				return t.Op == eng.OMOk && (isData(t.Args[0]) && isOwnSec(t.Args[1]) || isSecMap(t.Args[0]) && t.Args[1] == key)
			}) == 0
			for _, l := range st.Facts() {
				// any of the presence facts being refuted
				t := noOld(u, l.T)
				if t.Op == eng.OLoad {
					t = t.Args[0]
				}
				if t.Op == eng.OMOk && l.Neg && (isData(t.Args[0]) && isOwnSec(t.Args[1]) || isSecMap(t.Args[0]) && t.Args[1] == key) {
					ownAbsent = true
				}
				if l.T.Op == eng.OBin && l.T.Sym == "eq" && !l.Neg && (isSecMap(l.T.Args[0]) && l.T.Args[1].IsNil() || isSecMap(l.T.Args[1]) && l.T.Args[0].IsNil()) {
					ownAbsent = true
				}
			}
			isParent := func(t *eng.Term) bool {
				t = bare(t)
				if !recur(t) || len(t.Args) < 2 || t.Args[len(t.Args)-1] != name {
					return false
				}
				p := noOld(u, bare(t.Args[0]))
				return p.Op == eng.OLoad && base0(p) == st.Params()[0]
			}
			noParent := hasFact(st, func(t *eng.Term) bool {
				if t.Op != eng.OBin || t.Sym != "eq" {
					return false
				}
				for i := range t.Args {
					p := noOld(u, bare(t.Args[i]))
					if t.Args[1-i].IsNil() && p.Op == eng.OLoad && base0(p) == st.Params()[0] && p.Typ != nil && types.IsInterface(p.Typ) {
						return true
					}
				}
				return false
			}) == 1
			known := func(is func(*eng.Term) bool) int { // 1: known empty on the path
				out := -1
				for _, l := range st.Facts() {
					if l.T.Op == eng.OBin {
						for _, a := range l.T.Args {
							if is(a) {
								if n := emptyText(st, u, a); n >= 0 {
									out = n
								}
							}
							if a.Op == eng.OBuiltin && a.Sym == "len" && is(a.Args[0]) {
								if n := emptyText(st, u, a.Args[0]); n >= 0 {
									out = n
								}
							}
						}
					}
				}
				return out
			}
			envNone := known(isEnv) == 1
			ownNone := ownAbsent || known(isOwn) == 1
			switch {
			case isEnv(res) && known(isEnv) == 0:
				c.On(st, true, "lookup", con, x.Pos, "")
			case isOwn(res) && !(known(isOwn) == 1):
				c.On(st, envNone, "lookup", con, x.Pos, "an own value is handed out without asking the environment")
				c.On(st, known(isOwn) == 0 || noParent, "lookup", con, x.Pos, "an own value is handed out that may be empty although there may be a parent")
			case isParent(res):
				c.On(st, envNone && ownNone, "lookup", con, x.Pos, "the parent is asked although there may be a value of its own")
			default:
				c.On(st, (emptyText(st, u, res) == 1 || isEnv(res) && envNone || isOwn(res) && ownNone) && envNone && ownNone && noParent, "lookup", con, x.Pos, "something else is found: %v", res)
			}
			for _, e := range st.Trace {
				if strings.HasSuffix(e.Name, ".Find") && e.Res != nil && !isParent(e.Res) {
					c.On(st, false, "lookup", con, e.Pos, "the parent is asked for another name")
				}
			}
		}
	}
	c.Min("lookup", 12)

	// the lookup with a default
	f := c.Meth(c.Type("", "Config"), "Find")
	con := eng.FuncName(f)
	for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll}).Exits {
		st := x.St
		if x.Kind != "return" {
			c.On(st, false, "default", con, x.Pos, "a lookup panics")
			continue
		}
		name, defs := st.Params()[1], st.Params()[2]
		res := bare(x.Results[0])
		isFound := func(t *eng.Term) bool {
			t = bare(t)
			return callSuffix(t, ").Find") && len(t.Args) == 2 && t.Args[1] == name
		}
		isConf := func(t *eng.Term) bool {
			t = noOld(u, bare(t))
			return t.Op == eng.OLoad && base0(t) == st.Params()[0] && t.Typ != nil && types.IsInterface(t.Typ)
		}
		none := false
		for _, l := range st.Facts() {
			if l.T.Op == eng.OBin && l.T.Sym == "eq" && !l.Neg {
				a, b := l.T.Args[0], l.T.Args[1]
				none = none || isConf(a) && b.IsNil() || isConf(b) && a.IsNil() || isFound(a) && isStr(b, "") || isFound(b) && isStr(a, "")
			}
		}
		noDef := leProved(st, u, u.Len(defs), u.Int(0), nil)
		b, i, isI := index(res)
		switch {
		case isFound(res) && !none:
			c.On(st, noDef || emptyText(st, u, res) == 0, "default", con, x.Pos, "the default is passed over for a value that may be empty")
		case isI && bare(b) == defs && isZero(i):
			c.On(st, none, "default", con, x.Pos, "the default is used although a value may have been found")
		case isStr(res, "") || isFound(res):
			c.On(st, none && noDef, "default", con, x.Pos, "neither a value nor the default is handed out")
		default:
			c.On(st, false, "default", con, x.Pos, "something else is found: %v", res)
		}
	}
	c.Min("default", 4)
}

// envName: t is the name of the environment variable for section and key.
func envName(c *Ctx, st *eng.State, t, sec, key *eng.Term, secEmpty int) bool {
	u := c.U
	upper, repl := 0, map[string]bool{}
	for {
		t = bare(t)
		switch {
		case callTerm(t, "strings.ToUpper") || retOf(t, "strings.ToUpper"):
			upper++
			t = t.Args[0]
			continue
		case (callTerm(t, "(*strings.Replacer).Replace") || retOf(t, "(*strings.Replacer).Replace")) && len(t.Args) == 2:
			for _, s := range replacerOf(c, t.Args[0]) {
				repl[s] = true
			}
			t = t.Args[1]
			continue
		case (callTerm(t, "strings.ReplaceAll") || retOf(t, "strings.ReplaceAll")) && isStr(t.Args[2], "_"):
			s, _ := t.Args[1].StrVal()
			repl[s] = true
			t = t.Args[0]
			continue
		}
		break
	}
	if upper == 0 || len(repl) != 4 || !repl["."] || !repl["-"] || !repl[":"] || !repl[" "] {
		return false
	}
	var ps []*eng.Term
	for _, p := range joined(u, parts(t)) {
		if sec != nil && p == sec && secEmpty == 1 {
			continue
		}
		ps = append(ps, p)
	}
	if secEmpty == 1 {
		return len(ps) == 1 && ps[0] == key
	}
	return secEmpty == 0 && len(ps) == 3 && ps[0] == sec && isStr(ps[1], "_") && ps[2] == key
}

// replacerOf: the texts a package level replacer turns into "_".
func replacerOf(c *Ctx, t *eng.Term) []string {
	t = noOld(c.U, bare(t))
	if t.Op != eng.OLoad {
		return nil
	}
	g, _ := t.Args[0].Obj.(*ssa.Global)
	if g == nil {
		return nil
	}
	var out []string
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				call, ok := s.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "strings.NewReplacer" || f.Name() != "init" {
					return nil
				}
				args := stringsOf(call.Call.Args[0])
				if len(args)%2 != 0 {
					return nil
				}
				for i := 0; i < len(args); i += 2 {
					if args[i+1] != "_" {
						return nil
					}
					out = append(out, args[i])
				}
			}
		}
	}
	return out
}

// stringsOf: the texts of a literal list, in order.
func stringsOf(v ssa.Value) []string {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]string{}
	for _, r := range *al.Referrers() {
		e, isE := r.(*ssa.IndexAddr)
		if !isE {
			continue
		}
		i, isC := e.Index.(*ssa.Const)
		if !isC {
			return nil
		}
		for _, w := range *e.Referrers() {
			if st, isS := w.(*ssa.Store); isS {
				k, isK := st.Val.(*ssa.Const)
				if !isK || k.Value == nil {
					return nil
				}
				m[i.Int64()] = strings.Trim(k.Value.ExactString(), `"`)
			}
		}
	}
	var out []string
	for i := int64(0); i < int64(len(m)); i++ {
		out = append(out, m[i])
	}
	return out
}

func (c *Ctx) c25bind() {
	u := c.U
	cfg := c.Type("", "Config")
	f := c.Meth(cfg, "Bind")
	con := eng.FuncName(f)
	isConv := func(t *eng.Term) *eng.Term { // conversion of a text to a type
		t = bare(t)
		if (t.Op == eng.ORet || t.Op == eng.OPure) && len(t.Args) == 2 && t.Typ != nil && t.Typ.String() == "reflect.Value" && t.Args[0].Typ != nil && isString(t.Args[0].Typ) {
			return t
		}
		return nil
	}
	n := 0
	for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(g *ssa.Function) bool {
			s := g.Signature
			return !(s.Results().Len() == 1 && s.Results().At(0).Type().String() == "reflect.Value" && s.Params().Len() == 2 && isString(s.Params().At(0).Type()))
		},
		Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}).Exits {
		st := x.St
		ptr, name := st.Params()[1], st.Params()[2]
		isDest := func(t *eng.Term) bool { return callTerm(t, "reflect.ValueOf") && bare(t.Args[0]) == ptr }
		isElm := func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).Elem") && isDest(t.Args[0]) }
		isKind := func(t *eng.Term, of func(*eng.Term) bool) int { // a pointer?
			return eqFact(st, func(k *eng.Term) bool { return callTerm(k, "(reflect.Value).Kind") && of(k.Args[0]) },
				func(k *eng.Term) bool { n, ok := k.IntVal(); return ok && n == 22 })
		}
		if x.Kind == "panic" {
			c.On(st, isKind(nil, isDest) == 0, "bound", con, x.Pos, "binding panics")
			continue
		}
		isFound := func(t *eng.Term) bool {
			t = bare(t)
			return callSuffix(t, ").Find") && len(t.Args) >= 2 && t.Args[1] == name
		}
		isFit := func(t *eng.Term) bool { // the found text as the type of the target
			t = isConv(t)
			return t != nil && isFound(t.Args[0]) && callTerm(t.Args[1], "(reflect.Value).Type") && isElm(t.Args[1].Args[0])
		}
		valid := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).IsValid") && isFit(t.Args[0]) })
		found := eqFact(st, isFound, isStrFn(""))
		set := false
		for _, e := range st.Trace {
			if !strings.HasPrefix(e.Name, "(reflect.Value).Set") {
				continue
			}
			n++
			c.On(st, found == 0 && valid == 1, "bound", con, e.Pos, "the target is changed although nothing that fits may have been found")
			arg := bare(e.Args[0])
			kind := isKind(nil, func(t *eng.Term) bool { return t == e.Recv })
			switch {
			case isFit(arg):
				set = true
				c.On(st, kind == 0, "bound", con, e.Pos, "a value is put into what may be a pointer")
			case callTerm(arg, "reflect.New") || retOf(arg, "reflect.New"):
				c.On(st, kind == 1 || eng.Any(e.Recv, func(t *eng.Term) bool { return t.Op == eng.OOpaque }), "bound", con, e.Pos, "a new pointer is put into what may be no pointer")
			default:
				c.On(st, false, "bound", con, e.Pos, "something else is put into the target: %v", arg)
			}
		}
		if !set {
			noConf := hasFact(st, func(t *eng.Term) bool {
				if t.Op != eng.OBin || t.Sym != "eq" {
					return false
				}
				for i := range t.Args {
					p := noOld(u, bare(t.Args[i]))
					if t.Args[1-i].IsNil() && p.Op == eng.OLoad && base0(p) == st.Params()[0] {
						return true
					}
				}
				return false
			}) == 1
			fixed := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Value).CanSet") && isElm(t.Args[0]) }) == 0
			c.On(st, noConf || fixed || found == 1 || valid == 0, "bound", con, x.Pos, "a value that was found does not arrive")
		}
	}
	c.Check(n > 0, "bound", con, f.Pos(), "nothing is ever bound")

	// the settings of the application
	env := map[string]string{}
	for _, g := range c.topFuncs("") {
		s := g.Signature
		if s.Recv() != nil || s.Results().Len() != 1 || !tid(s.Results().At(0).Type(), types.NewPointer(cfg)) || s.Params().Len() != 0 {
			continue
		}
		for _, x := range c.Run(g, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "store" && e.Addr != nil && e.Addr.Op == eng.OFAddr {
				if fv := fieldOf(e.Addr); fv != nil {
					eng.Any(e.Val, func(t *eng.Term) bool {
						if retOf(t, "os.Getenv") || callTerm(t, "os.Getenv") {
							if s, ok := t.Args[0].StrVal(); ok {
								env[fv.Name()] = s
							}
						}
						return false
					})
				}
			}
			return e.Kind == "call"
		}}).Exits {
			_ = x
		}
	}
	imp := c.Meth(c.Type("", "Strip"), "ImportConfig")
	con = eng.FuncName(imp)
	for _, x := range c.Run(imp, &eng.Options{Exact: true, CutAt: cutAll, Inline: func(g *ssa.Function) bool { return g != f },
		Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" || e.Kind == "store" }}).Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		linked := false
		done := map[string]bool{}
		for _, e := range st.Trace {
			if e.Kind == "store" && bare(e.Val) == st.Params()[1] {
				linked = true
			}
			if e.Kind != "call" || target(e) != f {
				continue
			}
			args := e.Args
			if e.Recv != nil {
				args = append([]*eng.Term{e.Recv}, args...)
			}
			fv := fieldOf(bare(args[1]))
			name, ok := args[2].StrVal()
			c.On(st, linked, "settings", con, e.Pos, "a setting is read before the configuration is there")
			ok = ok && fv != nil
			c.On(st, ok, "settings", con, e.Pos, "another target is bound: %v", args[1])
			if ok {
				done[fv.Name()] = true
				c.On(st, env[fv.Name()] == strings.ToUpper(name), "settings", con, e.Pos, "%s is read from %s but from %s in the environment", fv.Name(), name, env[fv.Name()])
			}
		}
		for k := range env {
			c.On(st, done[k], "settings", con, x.Pos, "%s is not read from the configuration", k)
		}
	}
	c.Min("settings", 8)
}

func (c *Ctx) c25files() {
	u := c.U
	load := c.Fn("config", "LoadIniFile")
	imp := c.Meth(c.Type("", "Strip"), "ImportConfig")
	for _, f := range c.topFuncs("utils/helpers") {
		if !callsDeep(f, load, map[*ssa.Function]bool{}) || !callsDeep(f, imp, map[*ssa.Function]bool{}) || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		con := eng.FuncName(f)
		isLoad := func(e *eng.Event) bool { return e.Kind == "call" && target(e) == load }
		isLink := func(e *eng.Event) bool { return e.Kind == "call" && strings.HasSuffix(e.Name, ").SetParent") }
		isTier := func(t *eng.Term) int {
			t = bare(t)
			if !callTerm(t, "path/filepath.Join") && !retOf(t, "path/filepath.Join") {
				return -1
			}
			args := listArgs(t.Args[0])
			if len(args) < 2 {
				return -1
			}
			ps := fmtParts(u, args[len(args)-1])
			if len(ps) == 0 {
				return -1
			}
			hasMode := false
			for _, p := range ps {
				if eng.Any(p, func(t *eng.Term) bool {
					return t.Op == eng.OFAddr && fieldOf(t) != nil && fieldOf(t).Name() == "RunMode"
				}) {
					hasMode = true
				}
			}
			mode := b2i(hasMode)
			if s, ok := ps[0].StrVal(); ok {
				switch {
				case strings.HasPrefix(s, "default."):
					return mode
				case strings.HasPrefix(s, "override."):
					return 4 + mode
				}
				return -1
			}
			if ps[0].Op == eng.OParam {
				return 2 + mode
			}
			return -1
		}
		var lastPhi *ssa.Phi
		n, ordered := 0, 0
		o := &eng.Options{Exact: true, CutAt: func(h *ssa.BasicBlock) int {
			for _, b := range h.Parent().Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && inLoop(h, in) {
						if g := ci.Common().StaticCallee(); g != nil && (g == load || g.Pkg == f.Pkg && callsDeep(g, load, map[*ssa.Function]bool{})) {
							return 2
						}
					}
				}
			}
			return 0
		},
			Inline: func(g *ssa.Function) bool {
				return g != load && g != imp && outer(g).Pkg == f.Pkg && g.Name() != "Decode"
			},
			Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
				for p, v := range vals {
					if !types.IsInterface(p.Type()) || !strings.HasSuffix(p.Type().String(), "config.Configer") {
						continue
					}
					if !back {
						if v.IsNil() {
							lastPhi = p
						}
						continue
					}
					if lastPhi != p {
						continue
					}
					var cur *eng.Event
					linked := false
					for _, e := range st.Trace {
						if isLoad(e) {
							cur, linked = e, false
						}
						if isLink(e) && cur != nil && bare(e.Recv) == st.Ext(cur.Res, 0) && phiOf(bare(e.Args[0])) == p {
							linked = true
						}
					}
					if cur == nil {
						c.On(st, phiOf(bare(v)) == p, "linked", con, h.Instrs[0].Pos(), "what was loaded last is forgotten")
						// only a file that was seen before
						seen := hasFact(st, func(t *eng.Term) bool {
							t = noOld(u, t)
							if t.Op == eng.OLoad {
								t = t.Args[0]
							}
							return t.Op == eng.OMAddr || t.Op == eng.OMOk
						}) == 1
						c.On(st, seen, "skipped", con, h.Instrs[0].Pos(), "a file is not loaded although it was not seen before")
						continue
					}
					n++
					failed := st.IsNil(st.Ext(cur.Res, 1))
					switch failed {
					case 1:
						c.On(st, bare(v) == st.Ext(cur.Res, 0), "linked", con, h.Instrs[0].Pos(), "a file that was loaded is not used")
						first := hasFact(st, func(t *eng.Term) bool {
							return t.Op == eng.OBin && t.Sym == "eq" && (t.Args[0].IsNil() && phiOf(bare(t.Args[1])) == p || t.Args[1].IsNil() && phiOf(bare(t.Args[0])) == p)
						}) == 1
						c.On(st, linked || first, "linked", con, h.Instrs[0].Pos(), "the files loaded earlier are lost")
					case 0:
						c.On(st, phiOf(bare(v)) == p, "linked", con, h.Instrs[0].Pos(), "a file that could not be loaded is used")
						gone := hasFact(st, func(t *eng.Term) bool { return callTerm(t, "os.IsNotExist") || callTerm(t, "errors.Is") }) == 1
						told := false
						for _, e := range st.Trace {
							told = told || strings.HasSuffix(e.Name, "Logger).Errorf") || strings.HasSuffix(e.Name, "Logger).Error")
						}
						c.On(st, gone || told, "told", con, h.Instrs[0].Pos(), "a file that could not be loaded is passed over silently")
					default:
						c.On(st, false, "linked", con, h.Instrs[0].Pos(), "a file is used without knowing whether it could be loaded")
					}
				}
			},
			Event: func(st *eng.State, e *eng.Event) bool {
				switch {
				case e.Kind == "append":
					for _, a := range e.Args[1:] { // not what the list held
						for _, el := range listArgs(a) {
							t := isTier(el)
							if t < 0 {
								continue
							}
							ordered++
							prev := int64(-1)
							if v := st.Var("tier"); v != nil {
								prev, _ = v.IntVal()
							}
							c.On(st, int64(t/2) >= prev/2 && (int64(t) == prev+1 || t%2 == 0), "order", con, e.Pos, "a file comes after one that wins over it: %v", el)
							st.SetVar("tier", u.Int(int64(t)))
						}
					}
				case e.Kind == "call" && target(e) == imp:
					args := e.Args
					if e.Recv != nil {
						args = append([]*eng.Term{e.Recv}, args...)
					}
					v := bare(args[1])
					glob := v.Op == eng.OLoad && v.Args[0].Op == eng.OGlobal
					none := false
					for _, l := range st.Facts() {
						if l.T.Op == eng.OBin && l.T.Sym == "eq" && !l.Neg && (l.T.Args[0].IsNil() && phiOf(bare(l.T.Args[1])) == lastPhi || l.T.Args[1].IsNil() && phiOf(bare(l.T.Args[0])) == lastPhi) {
							none = true
						}
					}
					c.On(st, lastPhi != nil && phiOf(v) == lastPhi || glob && none, "linked", con, e.Pos, "not the file loaded last is used: %v", v)
				}
				return e.Kind == "call"
			}}
		r := c.Run(f, o)
		for _, x := range r.Exits {
			st := x.St
			imported := false
			for _, e := range st.Trace {
				imported = imported || e.Kind == "call" && target(e) == imp
			}
			c.On(st, x.Kind != "return" || imported, "linked", con, x.Pos, "the files are not used")
		}
		c.Check(n > 0, "linked", con, f.Pos(), "no file is loaded")
		c.Check(ordered >= 6, "order", con, f.Pos(), "files are missing: %d", ordered)
	}
	c.Min("linked", 4)
}

// callSuffix: t is the result of a call of a function with such a name.
func callSuffix(t *eng.Term, suffix string) bool {
	if t.Op != eng.ORet && t.Op != eng.OPure {
		return false
	}
	n := t.Sym
	if i := strings.LastIndex(n, "@"); i > 0 && t.Op == eng.ORet {
		n = n[:i]
	}
	return strings.HasSuffix(n, suffix)
}

// c25decode: every field of a structure is read from the name in its tag.
func (c *Ctx) c25decode() {
	u := c.U
	bind := c.Meth(c.Type("", "Config"), "Bind")
	f := c.Fn("config", "Decode")
	con := eng.FuncName(f)
	norm := func(t *eng.Term) *eng.Term { return noOld(u, bare(t)) }
	// fieldAt: t is field i of v (as a value)
	fieldAt := func(t *eng.Term) (v, i *eng.Term) {
		t = norm(t)
		if callTerm(t, "(reflect.Value).Field") {
			return norm(t.Args[0]), norm(t.Args[1])
		}
		return nil, nil
	}
	pointee := func(t *eng.Term) *eng.Term {
		t = norm(t)
		if callTerm(t, "(reflect.Value).Interface") && callTerm(norm(t.Args[0]), "(reflect.Value).Addr") {
			return norm(norm(t.Args[0]).Args[0])
		}
		return nil
	}
	// tagOf: t is the tag of field i of the type of v
	tagOf := func(t *eng.Term) (v, i *eng.Term) {
		t = norm(t)
		if !callTerm(t, "(reflect.StructTag).Get") || !isStr(t.Args[1], "conf") {
			return nil, nil
		}
		t = norm(t.Args[0])
		for t.Op != eng.ORet && t.Op != eng.OPure {
			if len(t.Args) == 0 {
				return nil, nil
			}
			t = norm(t.Args[0])
		}
		if !callTerm(t, "(reflect.Type).Field") {
			return nil, nil
		}
		ty := norm(t.Args[0])
		switch {
		case callTerm(ty, "(reflect.Value).Type"):
			return norm(ty.Args[0]), norm(t.Args[1])
		case callTerm(ty, "(reflect.Type).Elem") && callTerm(norm(ty.Args[0]), "reflect.TypeOf"):
			return nil, nil
		}
		return nil, nil
	}
	top := func(st *eng.State, v *eng.Term) bool {
		return v != nil && (callTerm(v, "(reflect.Value).Elem") || callTerm(v, "reflect.Indirect")) && callTerm(norm(v.Args[0]), "reflect.ValueOf") && norm(norm(v.Args[0]).Args[0]) == st.Params()[1]
	}
	named := func(st *eng.State, tag *eng.Term) bool { // neither empty nor "-"
		return emptyText(st, u, tag) == 0 && eqFact(st, func(t *eng.Term) bool { return norm(t) == norm(tag) }, isStrFn("-")) == 0
	}
	tags := func(st *eng.State, v, i *eng.Term) (out []*eng.Term) {
		for _, l := range st.Facts() {
			eng.Any(l.T, func(t *eng.Term) bool {
				if a, b := tagOf(t); a != nil && a == v && b == i {
					out = append(out, t)
				}
				return false
			})
		}
		return
	}
	unnamed := func(st *eng.State, v, i *eng.Term) bool {
		for _, t := range tags(st, v, i) {
			if emptyText(st, u, t) == 1 || eqFact(st, func(x *eng.Term) bool { return x == t }, isStrFn("-")) == 1 {
				return true
			}
		}
		return false
	}
	args := func(e *eng.Event) []*eng.Term {
		if e.Recv != nil {
			return append([]*eng.Term{e.Recv}, e.Args...)
		}
		return e.Args
	}
	c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(g *ssa.Function) bool { return outer(g).Pkg == f.Pkg && g != f },
		Back: func(st *eng.State, h *ssa.BasicBlock) {
			for _, e := range st.Trace {
				if e.Kind != "call" || e.Name != "(reflect.Value).Field" || e.Res == nil {
					continue
				}
				v, i := fieldAt(e.Res)
				_, ind := phiIn(i)
				if v == nil || ind == nil || ind.Phi.Block() != h {
					continue
				}
				ok := unnamed(st, v, i)
				for _, d := range st.Trace {
					if d.Kind != "call" {
						continue
					}
					if g := target(d); g == bind || g == f {
						pv, pi := fieldAt(pointee(args(d)[1]))
						ok = ok || pv == v && pi == i
					}
					if d.Name == "(reflect.Value).NumField" {
						pv, pi := fieldAt(d.Recv)
						ok = ok || pv == v && pi == i
					}
				}
				c.On(st, ok, "tags", con, e.Pos, "a field with a name is not read from the configuration")
				return
			}
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind != "call" {
				return false
			}
			switch target(e) {
			case f:
				pv, _ := fieldAt(pointee(args(e)[1]))
				c.On(st, top(st, pv) && args(e)[0] == st.Params()[0], "tags", con, e.Pos, "something else is read: %v", args(e)[1])
			case bind:
				p := pointee(args(e)[1])
				v, i := fieldAt(p)
				ps := joined(u, parts(args(e)[2]))
				if !c.On(st, v != nil && len(ps) > 0 && args(e)[0] == st.Params()[0], "tags", con, e.Pos, "what is read is no field: %v", args(e)[1]) {
					break
				}
				tag := ps[len(ps)-1]
				tv, ti := tagOf(tag)
				c.On(st, tv == v && ti == i && named(st, tag), "tags", con, e.Pos, "a field is read from another name than the one in its tag: %v", args(e)[2])
				switch {
				case top(st, v):
					c.On(st, len(ps) == 1, "tags", con, e.Pos, "a field is read from another name than the one in its tag: %v", args(e)[2])
				default:
					sv, si := fieldAt(v)
					ok := len(ps) == 3 && isStr(ps[1], "::") && top(st, sv)
					if ok {
						av, ai := tagOf(ps[0])
						ok = av == sv && ai == si && named(st, ps[0])
					}
					c.On(st, ok, "tags", con, e.Pos, "a field of a section is read from another section: %v", args(e)[2])
				}
			}
			return true
		}})
	c.Min("tags", 6)
}

// base0: what a chain of fields and loads starts from.
func base0(t *eng.Term) *eng.Term {
	for t.Op == eng.OLoad || t.Op == eng.OFAddr {
		t = t.Args[0]
	}
	return t
}

// listArgs: the elements of a literal list.
func listArgs(t *eng.Term) []*eng.Term {
	t = bare(t)
	if t != nil && t.Op == eng.OBuiltin && t.Sym == "slicelit" {
		return t.Args
	}
	return nil
}

// fmtParts: the parts a text is joined from, formatted texts taken apart.
func fmtParts(u *eng.Universe, t *eng.Term) []*eng.Term {
	var out []*eng.Term
	for _, p := range parts(t) {
		f, ok := "", false
		var args []*eng.Term
		if callTerm(p, "fmt.Sprintf") && len(p.Args) == 2 {
			f, ok = p.Args[0].StrVal()
			args = listArgs(p.Args[1])
		}
		fs := strings.Split(strings.ReplaceAll(f, "%v", "%s"), "%s")
		if !ok || len(fs) != len(args)+1 || strings.Contains(strings.Join(fs, ""), "%") {
			out = append(out, p)
			continue
		}
		for i, s := range fs {
			if s != "" {
				out = append(out, u.Str(s))
			}
			if i < len(args) {
				out = append(out, bare(args[i]))
			}
		}
	}
	return joined(u, out)
}

func callsDeep(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && (h == g || h.Pkg == f.Pkg && callsDeep(h, g, seen)) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if callsDeep(a, g, seen) {
			return true
		}
	}
	return false
}
