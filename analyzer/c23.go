package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23",
		"Case analysis of every conversion between text and typed values: each number handed out is the whole text read in base ten with exactly the size and signedness of the type it is given in, or comes with the error of reading it (zero where no error can be given); a value already of the type is handed out as it is. Written as text, a value takes the writer of its kind with the size of its kind. Narrowing of a number needs a proof that it fits.",
		"what strconv itself accepts; conversions of lists and structs; platforms with an int of 32 bits",
		c23)
}

type numKind struct {
	class byte // i, u, f, b
	bits  int64
}

func numKindOf(t types.Type) (numKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return numKind{}, false
	}
	sz := types.SizesFor("gc", "amd64").Sizeof(b) * 8
	switch {
	case b.Kind() == types.Uintptr || b.Info()&types.IsUntyped != 0:
		return numKind{}, false
	case b.Info()&types.IsBoolean != 0:
		return numKind{'b', 0}, true
	case b.Info()&types.IsFloat != 0:
		return numKind{'f', sz}, true
	case b.Info()&types.IsUnsigned != 0:
		return numKind{'u', sz}, true
	case b.Info()&types.IsInteger != 0:
		return numKind{'i', sz}, true
	}
	return numKind{}, false
}

// reflectKinds maps the kinds of package reflect.
var reflectKinds = map[int64]numKind{1: {'b', 0}, 2: {'i', 64}, 3: {'i', 8}, 4: {'i', 16}, 5: {'i', 32}, 6: {'i', 64},
	7: {'u', 64}, 8: {'u', 8}, 9: {'u', 16}, 10: {'u', 32}, 11: {'u', 64}, 13: {'f', 32}, 14: {'f', 64}, 24: {'s', 0}}

// parsed: the value read from a text by strconv; conversions are dropped.
type parsed struct {
	call *eng.Term
	text *eng.Term
	kind numKind
	bits *eng.Term // when not constant
	dec  bool      // base ten
}

func parseCall(t *eng.Term) *parsed {
	is := func(s string) bool { return callTerm(t, "strconv."+s) || retOf(t, "strconv."+s) }
	p := &parsed{call: t, dec: true}
	num := func(class byte, base, bits int) *parsed {
		p.kind.class = class
		p.text = t.Args[0]
		if base > 0 {
			n, ok := t.Args[base].IntVal()
			p.dec = ok && n == 10
		}
		if n, ok := t.Args[bits].IntVal(); ok {
			if n == 0 {
				n = 64
			}
			p.kind.bits = n
		} else {
			p.bits = t.Args[bits]
		}
		return p
	}
	switch {
	case t == nil:
	case is("ParseInt"):
		return num('i', 1, 2)
	case is("ParseUint"):
		return num('u', 1, 2)
	case is("ParseFloat"):
		return num('f', 0, 1)
	case is("Atoi"):
		p.text, p.kind = t.Args[0], numKind{'i', 64}
		return p
	case is("ParseBool"):
		p.text, p.kind = t.Args[0], numKind{'b', 0}
		return p
	}
	return nil
}

func unConv(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == eng.OConv || t.Op == eng.OIface) {
		t = t.Args[0]
	}
	return t
}

// numRead: t is the value of a parse.
func numRead(t *eng.Term) *parsed {
	t = unConv(t)
	if t != nil && t.Op == eng.OExtract && t.Sym == "0" {
		return parseCall(t.Args[0])
	}
	return nil
}

// parses on the path.
func parsesOf(st *eng.State) []*parsed {
	var out []*parsed
	for _, e := range st.Trace {
		if e.Kind == "call" && e.Res != nil {
			if p := parseCall(e.Res); p != nil {
				out = append(out, p)
			}
		}
	}
	return out
}

// kindsOn gives the kinds of package reflect the path leaves possible for
// what k is the kind of.
func kindsOn(st *eng.State, u *eng.Universe, k *eng.Term) map[int64]bool {
	out := map[int64]bool{}
	for n := range reflectKinds {
		out[n] = true
	}
	for _, n := range []int64{0, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26} {
		out[n] = true
	}
	for _, l := range st.Facts() {
		if l.T.Op != eng.OBin || len(l.T.Args) != 2 {
			continue
		}
		a, b := l.T.Args[0], l.T.Args[1]
		if a != k && b != k {
			continue
		}
		for n := range out {
			val := func(t *eng.Term) (int64, bool) {
				if t == k {
					return n, true
				}
				return t.IntVal()
			}
			x, ok1 := val(a)
			y, ok2 := val(b)
			if !ok1 || !ok2 {
				continue
			}
			var v bool
			switch l.T.Sym {
			case "eq":
				v = x == y
			case "lt":
				v = x < y
			default:
				continue
			}
			if v == l.Neg {
				delete(out, n)
			}
		}
	}
	return out
}

// kindTerms: the kind calls the path has facts about.
func kindTerms(st *eng.State) []*eng.Term {
	var out []*eng.Term
	seen := map[*eng.Term]bool{}
	for _, l := range st.Facts() {
		eng.Any(l.T, func(t *eng.Term) bool {
			if (callTerm(t, "(reflect.Value).Kind") || callTerm(t, "(reflect.Type).Kind")) && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return false
		})
	}
	return out
}

func c23(c *Ctx) {
	u := c.U
	errT := types.Universe.Lookup("error").Type()
	toStr := c.FnOpt("utils", "ToStr")
	opt := func(f *ssa.Function) *eng.Options {
		return &eng.Options{Exact: true, CutAt: cutAll,
			Inline: func(g *ssa.Function) bool { return g == f || g != toStr },
			Event:  func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }}
	}
	failedOn := func(st *eng.State, p *parsed) int {
		return st.IsNil(st.Ext(p.call, 1)) // 0: failed
	}
	// methods that read a text
	n := 0
	for _, tn := range [][2]string{{"", "StrTo"}, {"utils", "StrTo"}, {"utils", "Value"}} {
		T := c.Type(tn[0], tn[1])
		isText := basicT(T, types.String)
		ms := types.NewMethodSet(types.NewPointer(T))
		for i := 0; i < ms.Len(); i++ {
			m, _ := ms.At(i).Obj().(*types.Func)
			sig := m.Type().(*types.Signature)
			rs := sig.Results()
			if m == nil || !m.Exported() || sig.Params().Len() != 0 || rs.Len() == 0 || rs.Len() > 2 {
				continue
			}
			if m.Name() == "IsNil" {
				continue
			}
			want, ok := numKindOf(rs.At(0).Type())
			if !ok || rs.Len() == 2 && !tid(rs.At(1).Type(), errT) {
				continue
			}
			f := c.Meth(T, m.Name())
			con := eng.FuncName(f)
			n++
			for _, x := range c.Run(f, opt(f)).Exits {
				if x.Kind != "return" {
					c.On(x.St, false, "read", con, x.Pos, "a conversion panics")
					continue
				}
				st := x.St
				recv := st.Params()[0]
				var err *eng.Term
				if len(x.Results) == 2 {
					err = x.Results[1]
				}
				isVal := func(t *eng.Term) bool {
					t = unConv(t)
					return t != nil && cellOf(t) != nil && eng.Root(cellOf(t)) == recv && fieldOf(t) != nil
				}
				srcOK := func(t *eng.Term) bool {
					t = unConv(t)
					switch {
					case isText:
						return t == recv
					case t.Op == eng.OTA:
						return isVal(t.Args[0])
					case isStr(t, ""):
						return hasFactNil(st, isVal) == 1
					case toStr != nil:
						return isCallTo(t, toStr) && isVal(t.Args[0])
					}
					return false
				}
				res := x.Results[0]
				p := numRead(res)
				own := !isText && unConv(res).Op == eng.OTA && isVal(unConv(res).Args[0]) && tid(unConv(res).Typ, rs.At(0).Type())
				switch {
				case p != nil:
					c.On(st, p.kind == want && p.bits == nil && p.dec, "read", con, x.Pos, "the text is not read as a number of the type: %v", res)
					c.On(st, srcOK(p.text), "read", con, x.Pos, "another text than the value's is read: %v", p.text)
					if err != nil {
						same := bare(err) == st.Ext(p.call, 1)
						c.On(st, same || err.IsNil() && failedOn(st, p) == 1, "errors", con, x.Pos, "the error of reading the text is lost: %v", err)
					}
				case own:
					c.On(st, err == nil || err.IsNil(), "read", con, x.Pos, "a value of the type gives an error")
				case want.class == 'b' && unConv(res) == u.Bool(true):
					onText := hasFact(st, func(t *eng.Term) bool {
						if t.Op != eng.OBin || t.Sym != "eq" {
							return false
						}
						for i := range t.Args {
							a, b := unConv(t.Args[i]), t.Args[1-i]
							if s, ok := unConv(b).StrVal(); ok && s == "on" && (srcOK(a) || isVal(a)) {
								return true
							}
						}
						return false
					})
					c.On(st, onText == 1 && (err == nil || err.IsNil()), "read", con, x.Pos, "a text other than \"on\" is taken for true")
				default:
					// zero, because reading failed
					ok := false
					for _, p := range parsesOf(st) {
						ok = ok || failedOn(st, p) == 0 && p.kind == want && p.bits == nil && p.dec && srcOK(p.text) && (err == nil || st.IsNil(err) == 0)
					}
					z := zeroOpt(unConv(res))
					c.On(st, ok && z, "errors", con, x.Pos, "a value is made up: %v", res)
				}
			}
		}
	}
	c.Check(n >= 26, "met", "methods", 0, "only %d conversion methods were found", n)
	c.Min("read", 60)

	c.c23write(opt)
	c.c23typed(opt)
	c.c23bind(opt)
}

func isCallTo(t *eng.Term, f *ssa.Function) bool {
	t = bare(t)
	return t != nil && (t.Op == eng.ORet || t.Op == eng.OPure) && strings.TrimPrefix(t.Sym, "call:") == f.String()
}

// c23write: values written as text, and as int64.
func (c *Ctx) c23write(opt func(*ssa.Function) *eng.Options) {
	u := c.U
	met := map[int64]bool{}
	for _, pkg := range []string{"", "utils"} {
		f := c.Fn(pkg, "ToStr")
		con := eng.FuncName(f)
		for _, x := range c.Run(f, opt(f)).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "written", con, x.Pos, "writing a value panics")
				continue
			}
			args := func(t *eng.Term, i int64, def int64) bool {
				if n, ok := t.IntVal(); ok {
					return n == def
				}
				b, j, ok := index(t)
				if !ok {
					return false
				}
				n, isN := j.IntVal()
				return isN && n == i && b.Op == eng.OParam
			}
			res := unConv(x.Results[0])
			for _, k := range kindTerms(st) {
				v := k.Args[0]
				if !callTerm(k, "(reflect.Value).Kind") {
					continue
				}
				// the last value looked at
				ks := kindsOn(st, u, k)
				if ks[22] && len(ks) == 1 || len(ks) > 14 && !eng.Any(res, func(t *eng.Term) bool { return t == v }) {
					continue
				}
				get := func(t *eng.Term, m string) bool {
					return callTerm(t, "(reflect.Value)."+m) && t.Args[0] == v
				}
				for n := range ks {
					want, ok := reflectKinds[n]
					if !ok {
						continue
					}
					met[n] = true
					good := false
					switch want.class {
					case 'b':
						good = callTerm(res, "strconv.FormatBool") && get(res.Args[0], "Bool")
					case 'i':
						good = callTerm(res, "strconv.FormatInt") && get(res.Args[0], "Int") && args(res.Args[1], 0, 10)
					case 'u':
						good = callTerm(res, "strconv.FormatUint") && get(res.Args[0], "Uint") && args(res.Args[1], 0, 10)
					case 'f':
						good = callTerm(res, "strconv.FormatFloat") && get(res.Args[0], "Float") && args(res.Args[2], 0, -1) && args(res.Args[3], 1, want.bits)
					case 's':
						good = get(res, "String")
					}
					c.On(st, good, "written", con, x.Pos, "a value of kind %d is written as %v", n, res)
				}
			}
		}
	}
	for n := range reflectKinds {
		c.Check(met[n], "met", "ToStr", 0, "no path writes values of kind %d", n)
	}
	f := c.FnOpt("utils", "ToInt64")
	if f == nil {
		return
	}
	con := eng.FuncName(f)
	for _, x := range c.Run(f, opt(f)).Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		res, err := x.Results[0], x.Results[1]
		bad := st.IsNil(err) == 0 || retOf(err, "fmt.Errorf") || retOf(err, "errors.New") || callTerm(err, "fmt.Errorf") || callTerm(err, "errors.New")
		for _, k := range kindTerms(st) {
			v := k.Args[0]
			for n := range kindsOn(st, u, k) {
				want := reflectKinds[n]
				switch want.class {
				case 'i':
					c.On(st, err.IsNil() && callTerm(res, "(reflect.Value).Int") && res.Args[0] == v, "narrowed", con, x.Pos, "a number is changed: %v", res)
				case 'u':
					b := unConv(res)
					ok := callTerm(b, "(reflect.Value).Uint") && b.Args[0] == v
					c.On(st, bad || ok && ltOrEq(st, u, b, 1<<63-1), "narrowed", con, x.Pos, "a number that may not fit is converted without an error: %v", res)
				default:
					c.On(st, bad, "narrowed", con, x.Pos, "what is no whole number gives no error: %v", res)
				}
			}
		}
	}
	c.Min("written", 20)
}

// c23typed: texts converted to a type known only at run time.
func (c *Ctx) c23typed(opt func(*ssa.Function) *eng.Options) {
	u := c.U
	met := map[int64]bool{}
	found := false
	for _, f := range c.topFuncs("") {
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isString(s.Params().At(0).Type()) ||
			s.Params().At(1).Type().String() != "reflect.Type" || s.Results().At(0).Type().String() != "reflect.Value" {
			continue
		}
		found = true
		con := eng.FuncName(f)
		for _, x := range c.Run(f, opt(f)).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "typed", con, x.Pos, "converting a text panics")
				continue
			}
			str := st.Params()[0]
			res := bare(x.Results[0])
			for _, k := range kindTerms(st) {
				ks := kindsOn(st, u, k)
				typ := k.Args[0]
				if callTerm(typ, "(reflect.Type).Elem") {
					of := false // the elements of a list
					for _, o := range kindTerms(st) {
						of = of || o.Args[0] == typ.Args[0] && !kindsOn(st, u, o)[22]
					}
					if of {
						continue
					}
				}
				if ks[22] || len(ks) > 14 {
					continue
				}
				for n := range ks {
					want, ok := reflectKinds[n]
					if !ok {
						continue
					}
					met[n] = true
					if !callTerm(res, "(reflect.Value).Convert") {
						no := hasFact(st, func(t *eng.Term) bool {
							return callTerm(t, "(reflect.Type).ConvertibleTo") || callTerm(t, "(reflect.Value).IsValid") || callTerm(t, "(reflect.Value).CanConvert")
						})
						neg := no == 0 || hasFact(st, func(t *eng.Term) bool { return callTerm(t, "(reflect.Type).ConvertibleTo") }) == 0
						failed := false
						for _, p := range parsesOf(st) {
							failed = failed || st.IsNil(st.Ext(p.call, 1)) == 0 && p.kind == want && p.bits == nil && p.dec && unConv(p.text) == str
						}
						c.On(st, neg || failed, "typed", con, x.Pos, "a text is not converted to kind %d", n)
						continue
					}
					c.On(st, res.Args[1] == typ, "typed", con, x.Pos, "the text is converted to another type: %v", res.Args[1])
					v := bare(res.Args[0])
					if !c.On(st, callTerm(v, "reflect.ValueOf"), "typed", con, x.Pos, "the value is not known: %v", v) {
						continue
					}
					val := v.Args[0]
					if want.class == 's' {
						c.On(st, unConv(val) == str, "typed", con, x.Pos, "a text is changed: %v", val)
						continue
					}
					if p := numRead(val); p != nil {
						c.On(st, p.kind == want && p.bits == nil && p.dec && unConv(p.text) == str, "typed", con, x.Pos, "a text for kind %d is read as %c%d", n, p.kind.class, p.kind.bits)
						if got, ok := numKindOf(ifaceType(val)); ok {
							c.On(st, got == want, "typed", con, x.Pos, "a text for kind %d goes through another type: %v", n, val)
						}
						continue
					}
					if want.class == 'b' && unConv(val) == u.Bool(true) {
						c.On(st, eqFact(st, isStrFn("on"), func(t *eng.Term) bool { return unConv(t) == str }) == 1, "typed", con, x.Pos, "a text other than \"on\" is taken for true")
						continue
					}
					failed := false
					for _, p := range parsesOf(st) {
						failed = failed || st.IsNil(st.Ext(p.call, 1)) == 0 && p.kind == want && p.bits == nil && p.dec && unConv(p.text) == str
					}
					c.On(st, failed && zeroOpt(unConv(val)), "typed", con, x.Pos, "a value of kind %d is made up: %v", n, val)
				}
			}
		}
	}
	c.Check(found, "met", "typed", 0, "the conversion of texts to types was not found")
	for n := range reflectKinds {
		c.Check(met[n], "met", "typed", 0, "no path converts texts to kind %d", n)
	}
}

// c23bind: the binders of single values.
func (c *Ctx) c23bind(opt func(*ssa.Function) *eng.Options) {
	u := c.U
	class := map[*ssa.Function]byte{}
	p := c.P.Pkg("params")
	c.Need(p != nil, "package params")
	for _, f := range c.P.Funcs {
		s := f.Signature
		if outer(f).Pkg != p || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isString(s.Params().At(0).Type()) ||
			s.Params().At(1).Type().String() != "reflect.Type" || s.Results().At(0).Type().String() != "reflect.Value" || f.Name() == "BindValue" {
			continue
		}
		con := eng.FuncName(f)
		for _, x := range c.Run(f, opt(f)).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "bound", con, x.Pos, "binding a value panics")
				continue
			}
			val, typ := st.Params()[0], st.Params()[1]
			isVal := func(t *eng.Term) bool { return unConv(t) == val }
			failed := func(p *parsed) bool { return st.IsNil(st.Ext(p.call, 1)) == 0 }
			sized := func(p *parsed) bool {
				return p.dec && isVal(p.text) && p.bits != nil && callTerm(p.bits, "(reflect.Type).Bits") && p.bits.Args[0] == typ
			}
			res := bare(x.Results[0])
			switch {
			case callTerm(res, "reflect.Zero"):
				ok := eqFact(st, isVal, isStrFn("")) == 1
				for _, p := range parsesOf(st) {
					ok = ok || failed(p) && isVal(p.text) && (sized(p) || p.kind == numKind{'i', 64})
				}
				c.On(st, ok && res.Args[0] == typ, "bound", con, x.Pos, "a value is lost")
			case callTerm(res, "(reflect.Value).Elem") && (retOf(res.Args[0], "reflect.New") || callTerm(res.Args[0], "reflect.New")):
				var set *eng.Event
				for _, e := range st.Trace {
					if e.Kind == "call" && strings.HasPrefix(e.Name, "(reflect.Value).Set") && e.Recv == res {
						set = e
					}
				}
				if set == nil {
					c.On(st, eqFact(st, isVal, isStrFn("")) == 1, "bound", con, x.Pos, "a value is lost")
					continue
				}
				w := map[string]byte{"Int": 'i', "Uint": 'u', "Float": 'f', "Bool": 'b', "String": 's'}[strings.TrimPrefix(set.Name, "(reflect.Value).Set")]
				if w == 's' {
					class[f] = w
					c.On(st, isVal(set.Args[0]), "bound", con, set.Pos, "a text is changed: %v", set.Args[0])
					continue
				}
				p := numRead(set.Args[0])
				c.On(st, p != nil && p.kind.class == w && isVal(p.text) && (w == 'b' || sized(p)), "bound", con, set.Pos, "a value is not read with the size of the type it is put into: %v", set.Args[0])
				if p != nil {
					class[f] = w
					c.On(st, st.IsNil(st.Ext(p.call, 1)) == 1, "bound", con, set.Pos, "a value is used without knowing whether it could be read")
				}
			case callTerm(res, "reflect.ValueOf"):
				v := unConv(res.Args[0])
				p := (*parsed)(nil)
				if callTerm(v, "time.Unix") {
					p = numRead(v.Args[0])
				}
				isTime := v.Op == eng.OExtract && v.Sym == "0" && (retOf(v.Args[0], "time.Parse") || retOf(v.Args[0], "time.ParseInLocation"))
				switch {
				case v == val:
					class[f] = 's'
				case v.IsTrue() || v.IsFalse():
					class[f] = 'b'
					words, unknown := 0, 0
					is := func(s string) bool {
						n := eqFact(st, isStrFn(s), func(t *eng.Term) bool { return eng.Any(t, func(t *eng.Term) bool { return t == val }) })
						if n < 0 {
							unknown++
						}
						return n == 1
					}
					for _, s := range []string{"true", "on", "1"} {
						if is(s) {
							words++
						}
					}
					if v.IsTrue() {
						c.On(st, words == 1, "bound", con, x.Pos, "another text than true, on and 1 is taken for true")
					} else {
						c.On(st, words == 0 && unknown == 0, "bound", con, x.Pos, "a text that may mean true is taken for false")
					}
				case v.Op == eng.OBin && v.Sym == "eq":
					class[f] = 'b'
					other := 0
					for _, s := range []string{"true", "on", "1"} {
						in := func(t *eng.Term) bool { return eng.Any(t, func(t *eng.Term) bool { return t == val }) }
						if isStrFn(s)(v.Args[0]) && in(v.Args[1]) || isStrFn(s)(v.Args[1]) && in(v.Args[0]) || eqFact(st, isStrFn(s), in) == 0 {
							other++
						}
					}
					c.On(st, other == 3, "bound", con, x.Pos, "another text than true, on and 1 is taken for true")
				case isTime:
					class[f] = 't'
					c.On(st, st.IsNil(st.Ext(v.Args[0], 1)) == 1 && isVal(v.Args[0].Args[1]), "bound", con, x.Pos, "a time is used without knowing whether it could be read")
				case p != nil:
					class[f] = 't'
					c.On(st, p.kind == numKind{'i', 64} && isVal(p.text) && st.IsNil(st.Ext(p.call, 1)) == 1 && isZero(v.Args[1]), "bound", con, x.Pos, "a time is not the one the text names: %v", v)
				default:
					c.On(st, false, "bound", con, x.Pos, "another value is bound: %v", v)
				}
			default:
				c.On(st, false, "bound", con, x.Pos, "another value is bound: %v", res)
			}
		}
	}
	// the first value given
	for _, m := range c.closures(c.Fn("params", "ValueBinder")) {
		con := "params.ValueBinder"
		o := opt(m.fn)
		o.Closure, o.From = m.t, m.st
		for _, x := range c.Run(m.fn, o).Exits {
			st := x.St
			if x.Kind != "return" {
				continue
			}
			res := bare(x.Results[0])
			isList := func(t *eng.Term) bool {
				return t.Op == eng.OLoad && t.Args[0].Op == eng.OMAddr && t.Args[0].Args[1] == st.Params()[1]
			}
			if callTerm(res, "reflect.Zero") {
				none := hasFact(st, func(t *eng.Term) bool {
					t = noOld(u, t)
					if t.Op == eng.OLoad {
						t = t.Args[0]
					}
					return t.Op == eng.OMOk && t.Args[1] == st.Params()[1]
				})
				empty := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OBin && t.Sym == "eq" && (isZero(t.Args[0]) || isZero(t.Args[1]))
				})
				c.On(st, none == 0 || empty == 1, "first", con, x.Pos, "the value given is lost")
				continue
			}
			fn, args := dynCall(res)
			ok := fn != nil && len(args) == 2
			if ok {
				b, i, isI := index(args[0])
				ok = isI && isZero(i) && isList(b) && args[1] == st.Params()[2]
			}
			c.On(st, ok, "first", con, x.Pos, "another value than the first one given is bound: %v", res)
		}
	}
	c.Min("first", 2)
	c.Min("bound", 12)
	// which kind is bound by what
	of := map[*ssa.Global]byte{}
	madeBy := func(v ssa.Value) byte {
		call, isC := v.(*ssa.Call)
		if !isC || len(call.Call.Args) != 1 {
			return 0
		}
		w := call.Call.Args[0]
		if m, isM := w.(*ssa.MakeClosure); isM {
			w = m.Fn
		}
		if h, isF := w.(*ssa.Function); isF {
			return class[h]
		}
		return 0
	}
	for _, f := range c.P.Funcs {
		if f.Pkg != p || f.Name() != "init" {
			continue
		}
		local := map[ssa.Value]byte{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if a, isA := s.Addr.(*ssa.FieldAddr); isA {
					local[a.X] = madeBy(s.Val)
					if g, isG := a.X.(*ssa.Global); isG {
						of[g] = local[a.X]
					}
				}
				if g, isG := s.Addr.(*ssa.Global); isG {
					if ld, isL := s.Val.(*ssa.UnOp); isL {
						of[g] = local[ld.X]
					}
				}
			}
		}
	}
	reg := map[int64]bool{}
	for _, f := range c.P.Funcs {
		if outer(f).Pkg != p {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				ld, isL := m.Value.(*ssa.UnOp)
				if !isL || m.Key.Type().String() != "reflect.Kind" {
					continue
				}
				g, isG := ld.X.(*ssa.Global)
				if !isG || of[g] == 0 {
					continue
				}
				for _, n := range keysOf(m.Key) {
					reg[n] = true
					c.Check(reflectKinds[n].class == of[g], "registered", "params", m.Pos(), "values of kind %d are bound by %s", n, g.Name())
				}
			}
		}
	}
	for n := range reflectKinds {
		c.Check(reg[n], "registered", "params", 0, "values of kind %d are not bound", n)
	}
}

// keysOf: the constants v goes through, an element of a literal list included.
func keysOf(v ssa.Value) (out []int64) {
	switch v := v.(type) {
	case *ssa.Const:
		return []int64{v.Int64()}
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		list := a.X
		if s, isS := list.(*ssa.Slice); isS {
			list = s.X
		}
		al, ok := list.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, r := range *al.Referrers() {
			e, isE := r.(*ssa.IndexAddr)
			if !isE {
				continue
			}
			for _, w := range *e.Referrers() {
				if s, isS := w.(*ssa.Store); isS {
					if k, isK := s.Val.(*ssa.Const); isK {
						out = append(out, k.Int64())
					}
				}
			}
		}
	}
	return
}

// ifaceType: the type a number has inside an interface.
func ifaceType(t *eng.Term) types.Type {
	if t.Op == eng.OIface && len(t.Args) > 0 {
		t = t.Args[0]
	}
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}

// ltOrEq: the path proves t <= n.
func ltOrEq(st *eng.State, u *eng.Universe, t *eng.Term, n int64) bool {
	for _, l := range st.Facts() {
		if l.T.Op != eng.OBin || l.T.Sym != "lt" {
			continue
		}
		a, b := l.T.Args[0], l.T.Args[1]
		if k, ok := a.IntVal(); ok && b == t && l.Neg && k <= n { // !(k < t)
			return true
		}
		if k, ok := b.IntVal(); ok && a == t && !l.Neg && k-1 <= n { // t < k
			return true
		}
	}
	return false
}
