package main

import (
	"go/constant"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27",
		"Path analysis of every answer type of the api package and of every function that makes or derives one: the status is sent once, before any byte of the body and with its value, bodies are sent whole and in the way of their kind, an encoding that failed is never sent as a success, and nothing an answer or derivation stores reaches the value it started from.",
		"how values are encoded; answers that are changed by their users",
		c27)
}

func c27(c *Ctx) {
	const pkg = "utils/apires"
	u := c.U
	resT := c.Type("", "ActionResult")
	rwT := c.P.TPkg("net/http").Scope().Lookup("ResponseWriter").Type()
	ioT := func(n string) types.Type { return c.P.TPkg("io").Scope().Lookup(n).Type() }
	met := map[string]bool{}
	k := 0
	for _, T := range c.Impls(pkg, resT.Underlying().(*types.Interface)) {
		f := c.Meth(T, "Write")
		if f == nil || f.Synthetic != "" {
			continue
		}
		k++
		c.apiWrite(f, T, rwT, ioT, met)
	}
	c.Check(k >= 2, "answers", pkg, 0, "the answer types of the api package were not found")
	for _, m := range []string{"default status", "own status", "no content", "json", "json failed", "raw", "text", "bytes", "reader", "closed", "nil"} {
		c.Check(met[m], "met", "answers", 0, "no path of an answer for: %s", m)
	}

	// errors
	errT := c.Type(pkg, "ResError")
	fld := func(T *types.Named, n string) *types.Var { return c.fld(pkg, T.Obj().Name(), n) }
	bodyT := c.Type(pkg, "ResBody")
	code, msg, data := fld(errT, "Code"), fld(errT, "Message"), fld(errT, "Data")
	st0, body := fld(bodyT, "Status"), fld(bodyT, "Body")
	var emb *types.Var
	for s, i := structOf(errT), 0; i < s.NumFields(); i++ {
		if tid(s.Field(i).Type(), bodyT) {
			emb = s.Field(i)
		}
	}
	c.Need(emb != nil, "the answer inside an error")
	get := func(st *eng.State, p *eng.Term, fs ...*types.Var) *eng.Term {
		for _, f := range fs {
			p = u.FAddr(p, f)
		}
		return st.Load(p)
	}
	own := func(e *eng.Event, recv *eng.Term) bool {
		return e.Kind == "store" && eng.Root(e.Addr) == recv
	}
	derive := func(f *ssa.Function) {
		con := eng.FuncName(f)
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
			recv := st.Params()[0]
			if f.Signature.Recv() != nil && (e.Kind == "store" || e.Kind == "mapset") {
				c.On(st, !own(e, recv), "unchanged", con, e.Pos, "the error it is derived from is changed: %v", e.Addr)
				c.On(st, e.Addr == nil || eng.Root(e.Addr).Op == eng.OAlloc, "unchanged", con, e.Pos, "shared memory is changed: %v", e.Addr)
			}
			return e.Kind == "call"
		}})
		n := 0
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			n++
			st := x.St
			v := bare(x.Results[0])
			if !c.On(st, v.Op == eng.OAlloc, "derived", con, x.Pos, "the error handed back is not a new one: %v", v) {
				continue
			}
			b := bare(get(st, v, emb, body))
			c.On(st, b == v, "derived", con, x.Pos, "the body of the new error is another value than itself: %v", b)
			ps := st.Params()
			if f.Signature.Recv() == nil {
				want := []*eng.Term{get(st, v, emb, st0), get(st, v, code), get(st, v, msg)}
				for i, w := range want {
					c.On(st, len(ps) > i && bare(w) == ps[i], "derived", con, x.Pos, "the new error does not get what was given: %v", w)
				}
				d := bare(get(st, v, data))
				if len(ps) > 3 {
					if e, i, ok := index(d); ok {
						z, isZ := i.IntVal()
						c.On(st, isZ && z == 0 && e == ps[3], "derived", con, x.Pos, "the data is not the one given")
					} else {
						c.On(st, d.IsNil() && st.EvalTerm(u.Eq(u.Len(ps[3]), u.Int(0))) == 1, "derived", con, x.Pos, "the data given is lost: %v", d)
					}
				}
				continue
			}
			same := func(fs ...*types.Var) bool {
				w := bare(get(st, v, fs...))
				if w.Op == eng.OLoad {
					w = w.Args[0]
				}
				for i := len(fs) - 1; i >= 0; i-- {
					if w.Op != eng.OField && w.Op != eng.OFAddr || w.Obj != fs[i] {
						return false
					}
					if w = w.Args[0]; w.Op == eng.OLoad {
						w = w.Args[0]
					}
				}
				return w == ps[0]
			}
			c.On(st, same(emb, st0) && same(code), "derived", con, x.Pos, "the derived error has another status or code")
			text := func(p *eng.Term) bool { return p.Typ != nil && isString(p.Typ) }
			m := bare(get(st, v, msg))
			if f.Name() == "WithData" {
				c.On(st, bare(get(st, v, data)) == ps[1], "derived", con, x.Pos, "the derived error has not the given data: %v", get(st, v, data))
				b, i, ok := index(m)
				z, isZ := int64(-1), false
				if ok {
					z, isZ = i.IntVal()
				}
				given := ok && isZ && z == 0 && b == ps[2]
				none := st.EvalTerm(u.Eq(u.Len(ps[2]), u.Int(0))) == 1
				isErr := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OIs && bare(t.Args[0]) == ps[1] && tid(eng.IsType(t), types.Universe.Lookup("error").Type())
				})
				isTxt := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OIs && bare(t.Args[0]) == ps[1] && tid(eng.IsType(t), types.Typ[types.String])
				})
				switch {
				case !none:
					c.On(st, given, "derived", con, x.Pos, "the message given is not used: %v", m)
				case isErr == 1:
					c.On(st, isCallOn(m, "Error", func(t *eng.Term) bool { return unTA(t) == ps[1] }), "derived", con, x.Pos, "the text of the error given as data is not used: %v", m)
				case isTxt == 1:
					c.On(st, unTA(m) == ps[1], "derived", con, x.Pos, "the text given as data is not used: %v", m)
				default:
					c.On(st, same(msg), "derived", con, x.Pos, "the message is lost: %v", m)
				}
				continue
			}
			c.On(st, same(data), "derived", con, x.Pos, "the derived error has other data")
			ok := false
			for _, p := range ps[1:] {
				ok = ok || text(p) && (m == p || callTerm(m, "fmt.Sprintf") && m.Args[0] == p)
			}
			c.On(st, ok, "derived", con, x.Pos, "the derived error has not the given message: %v", m)
		}
		c.Check(n > 0, "derived", con, f.Pos(), "no path hands an error back")
	}
	derive(c.Fn(pkg, "NewResError"))
	for _, n := range []string{"WithData", "WithMsg", "WithMsgf"} {
		f := c.Meth(types.NewPointer(errT), n)
		c.Need(f != nil, "method "+n)
		derive(f)
	}
	// equality: some given error has the same status and code
	eq := c.Meth(types.NewPointer(errT), "EqualAny")
	c.Need(eq != nil, "EqualAny")
	con := eng.FuncName(eq)
	sameF := func(st *eng.State, el *eng.Term, fs ...*types.Var) int {
		is := func(base *eng.Term) func(t *eng.Term) bool {
			return func(t *eng.Term) bool {
				a := u.FAddr(base, fs[0])
				for _, f := range fs[1:] {
					a = u.FAddr(a, f)
				}
				return cellOf(t) == a
			}
		}
		return eqFact(st, is(el), is(st.Params()[0]))
	}
	list := func(b *eng.Term) bool { return b.Op == eng.OParam && b.Typ != nil && isSliceT(b.Typ) }
	sc := c.newScan(list, func(st *eng.State, el *eng.Term) bool {
		return sameF(st, el, emb, st0) == 0 || sameF(st, el, code) == 0
	})
	r := c.Run(eq, &eng.Options{Exact: true, CutAt: cutAll, Back: sc.back})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		switch v := st.EvalTerm(x.Results[0]); {
		case v == 1:
			ok := false
			for _, el := range sc.elems(st) {
				ok = ok || sameF(st, el, emb, st0) == 1 && sameF(st, el, code) == 1
			}
			c.On(st, ok, "equal", con, x.Pos, "errors are taken for equal without the same status and code")
		case v == 0:
			c.On(st, sc.done(st), "equal", con, x.Pos, "not all of the given errors are compared")
		default:
			c.On(st, false, "equal", con, x.Pos, "the result is not decided: %v", x.Results[0])
		}
	}
	c.Min("equal", 2)
	// answers made from a value and a status
	for _, m := range [][2]string{{"With", "ResBody"}, {"Ret", "ResBody"}, {"RawWith", "RawBody"}, {"RawRet", "RawBody"}} {
		f := c.FnOpt(pkg, m[0])
		if f == nil {
			continue
		}
		con := eng.FuncName(f)
		for _, x := range c.Run(f, &eng.Options{Exact: true}).Exits {
			if x.Kind != "return" {
				continue
			}
			st, v := x.St, bare(x.Results[0])
			if !c.On(st, v.Op == eng.OAlloc, "made", con, x.Pos, "the answer is not a new one: %v", v) {
				continue
			}
			var b, n *eng.Term
			s, hasB := bare(get(st, v, c.fld(pkg, m[1], "Status"))), bare(get(st, v, c.fld(pkg, m[1], "Body")))
			for _, p := range st.Params() {
				switch {
				case isSliceT(p.Typ), basicT(p.Typ, types.Int):
					n = p
				default:
					b = p
				}
			}
			c.On(st, b == nil && hasB.IsNil() || b != nil && hasB == b, "made", con, x.Pos, "the body is not the one given: %v", hasB)
			ok := n != nil && s == n
			if n != nil && isSliceT(n.Typ) {
				if e, i, isI := index(s); isI {
					z, isZ := i.IntVal()
					ok = isZ && z == 0 && e == n
				} else {
					z, isZ := s.IntVal()
					ok = isZ && (z == 200 || z == 0) && st.EvalTerm(u.Eq(u.Len(n), u.Int(0))) == 1
				}
			}
			c.On(st, ok, "made", con, x.Pos, "the status is not the one given: %v", s)
		}
	}
	c.Min("made", 4)
	// the http code
	hc := c.Meth(types.NewPointer(errT), "HttpCode")
	c.Need(hc != nil, "HttpCode")
	for _, x := range c.Run(hc, &eng.Options{Exact: true}).Exits {
		if x.Kind == "return" {
			c.On(x.St, cellOf(x.Results[0]) == u.FAddr(u.FAddr(x.St.Params()[0], emb), st0), "derived", eng.FuncName(hc), x.Pos, "the code is not the status: %v", x.Results[0])
		}
	}
	c.Min("derived", 10)
	c.Min("unchanged", 3)
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// unTA drops conversions and assertions.
func unTA(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == eng.OIface || t.Op == eng.OConv || t.Op == eng.OTA) {
		t = t.Args[0]
	}
	return t
}

func (c *Ctx) apiWrite(f *ssa.Function, T *types.Named, rwT types.Type, ioT func(string) types.Type, met map[string]bool) {
	con := eng.FuncName(f)
	name := T.Obj().Name()
	status, body := c.fld("utils/apires", name, "Status"), c.fld("utils/apires", name, "Body")
	raw := false // text, bytes and readers are sent as they are
	writers := map[string]bool{"io.Copy": true, "io.CopyBuffer": true, "io.CopyN": true, "io.WriteString": true}
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
		if e.Kind == "store" || e.Kind == "mapset" {
			c.On(st, e.Addr == nil || eng.Root(e.Addr).Op == eng.OAlloc, "unchanged", con, e.Pos, "sending an answer changes shared memory: %v", e.Addr)
			return false
		}
		return e.Kind == "call" || e.Kind == "go" || e.Kind == "defer"
	}})
	for _, x := range r.Exits {
		for _, e := range x.St.Trace {
			if e.Kind == "call" && (e.Name == "io.Copy" || e.Name == "io.CopyBuffer") {
				raw = true
			}
		}
	}
	if raw {
		met["raw"] = true
	}
	for _, x := range r.Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		recv := st.Params()[0]
		isRW := func(t *eng.Term) bool { t = unTA(t); return t != nil && t.Op == eng.OParam && tid(t.Typ, rwT) }
		isBody := func(t *eng.Term) bool { t = unTA(t); return t != nil && isFieldOf(t, recv, body) }
		isStatus := func(t *eng.Term) bool { t = unTA(t); return t != nil && isFieldOf(t, recv, status) }
		isT := func(T types.Type) int {
			return hasFact(st, func(t *eng.Term) bool { return t.Op == eng.OIs && isBody(t.Args[0]) && tid(eng.IsType(t), T) })
		}
		statusIs := func(n int64) int {
			res := -1
			for _, l := range st.Facts() {
				if l.T.Op != eng.OBin || l.T.Sym != "eq" {
					continue
				}
				for i := range l.T.Args {
					if k, ok := l.T.Args[1-i].IntVal(); ok && isStatus(l.T.Args[i]) {
						if !l.Neg {
							return b2i(k == n)
						}
						if k == n {
							res = 0
						}
					}
				}
			}
			return res
		}
		bodyNil := hasFactNil(st, isBody)
		if hasFact(st, func(t *eng.Term) bool { return t.Op == eng.OIs && isBody(t.Args[0]) }) == 1 {
			bodyNil = 0
		}
		var head, wrote, ctype, closed []int
		var enc *eng.Event // the encoding of the body
		for i, e := range st.Trace {
			if e.Kind != "call" {
				c.On(st, e.Kind == "defer", "whole", con, e.Pos, "something runs beside the answer")
				continue
			}
			short := e.Name[strings.LastIndex(e.Name, ".")+1:]
			if h, m := hdrCall(e); m != "" && callTerm(e.Recv, "(net/http.ResponseWriter).Header") && isRW(e.Recv.Args[0]) {
				if h == "Content-Type" && m == "Set" {
					ctype = append(ctype, i)
				}
			}
			switch {
			case e.Recv != nil && isRW(e.Recv) && short == "WriteHeader":
				head = append(head, i)
			case e.Recv != nil && isRW(e.Recv) && (short == "Write" || short == "WriteString"), writers[e.Name] && isRW(e.Args[0]):
				wrote = append(wrote, i)
			case e.Recv != nil && isBody(e.Recv) && short == "Close":
				closed = append(closed, i)
			case strings.HasPrefix(e.Name, "encoding/json.Marshal"):
				v := unTA(e.Args[0])
				empty := v != nil && bodyNil == 1 && (v.Op == eng.OZero || v.Op == eng.OStruct || v.Op == eng.OConst)
				if isBody(v) || empty {
					c.On(st, enc == nil, "whole", con, e.Pos, "the body is encoded twice")
					enc = e
				}
			case e.Recv != nil && isRW(e.Recv) && short != "Header":
				c.On(st, false, "once", con, e.Pos, "the answer is used in another way: %s", short)
			}
		}
		failed := -1
		if enc != nil {
			failed = 1 - st.IsNil(st.Ext(enc.Res, 1))
		}
		// status
		if !c.On(st, len(head) == 1, "once", con, x.Pos, "the status is not sent exactly once") {
			continue
		}
		h := st.Trace[head[0]]
		n, isN := h.Args[0].IntVal()
		switch {
		case failed == 1:
			met["json failed"] = true
			c.On(st, isN && n >= 500 && n < 600, "failed", con, h.Pos, "a body that can not be encoded is answered with %v", h.Args[0])
		case isN && n == 200 && statusIs(200) != 1:
			met["default status"] = true
			c.On(st, statusIs(0) == 1, "status", con, h.Pos, "the default status is sent although one may be given")
		default:
			met["own status"] = true
			ok := isStatus(h.Args[0]) || isN && statusIs(n) == 1
			c.On(st, ok && statusIs(0) == 0, "status", con, h.Pos, "the status sent is not the one of the answer: %v", h.Args[0])
		}
		for _, i := range wrote {
			c.On(st, i > head[0], "once", con, st.Trace[i].Pos, "the body is sent before the status")
		}
		for _, i := range ctype {
			c.On(st, i < head[0], "typed", con, st.Trace[i].Pos, "the content type is set after the status was sent")
		}
		// body
		none := statusIs(204) == 1 || raw && bodyNil == 1
		if none {
			met[map[bool]string{true: "no content", false: "nil"}[statusIs(204) == 1]] = true
			c.On(st, len(wrote) == 0, "whole", con, x.Pos, "a body is sent although there must be none")
			continue
		}
		c.On(st, statusIs(204) == 0, "whole", con, x.Pos, "a body is sent although the status may forbid it")
		if raw {
			c.On(st, bodyNil == 0, "whole", con, x.Pos, "a body is sent although there may be none")
		}
		if !c.On(st, len(wrote) == 1, "whole", con, x.Pos, "the body is not sent exactly once") {
			continue
		}
		w := st.Trace[wrote[0]]
		sent := w.Args[len(w.Args)-1]
		if writers[w.Name] {
			sent = w.Args[1]
		}
		isText, isBytes, isReader := isT(types.Typ[types.String]), isT(types.NewSlice(types.Typ[types.Byte])), isT(ioT("Reader"))
		if raw && (isText == 1 || isBytes == 1 || isReader == 1) {
			switch {
			case isText == 1:
				met["text"] = true
			case isBytes == 1:
				met["bytes"] = true
			default:
				met["reader"] = true
			}
			c.On(st, isBody(sent) && w.Name != "io.CopyN", "whole", con, w.Pos, "something else than the body is sent: %v", sent)
			c.On(st, (isReader == 1) == strings.HasPrefix(w.Name, "io.Copy"), "whole", con, w.Pos, "the body is not sent in the way of its kind")
			c.On(st, enc == nil && len(ctype) == 0, "typed", con, w.Pos, "a raw body is encoded or marked as JSON")
			if isReader == 1 {
				closer := isT(ioT("Closer"))
				if closer < 0 {
					closer = isT(ioT("ReadCloser"))
				}
				c.On(st, closer >= 0, "closed", con, x.Pos, "it is not known whether the reader must be closed")
				if closer == 1 {
					met["closed"] = true
					c.On(st, len(closed) == 1 && closed[0] > wrote[0], "closed", con, x.Pos, "the reader is not closed once after it was sent")
				}
			}
			continue
		}
		if raw {
			c.On(st, isText == 0 && isBytes == 0 && isReader == 0, "whole", con, w.Pos, "a body is encoded that may be text, bytes or a reader")
		}
		if !c.On(st, enc != nil && failed >= 0, "failed", con, x.Pos, "the body is sent without knowing that it could be encoded") {
			continue
		}
		c.On(st, len(ctype) == 1 && isJSONType(c, st.Trace[ctype[0]].Args[1]), "typed", con, x.Pos, "the answer is not marked as JSON before it is sent")
		if failed == 1 {
			c.On(st, !eng.Any(sent, func(t *eng.Term) bool { return t == st.Ext(enc.Res, 0) }), "failed", con, w.Pos, "what could not be encoded is sent")
			continue
		}
		met["json"] = true
		c.On(st, bare(sent) == st.Ext(enc.Res, 0), "whole", con, w.Pos, "something else than the encoded body is sent: %v", sent)
	}
	c.Min("once", 2)
}

// isJSONType: the text or the module variable holding it is the JSON type.
func isJSONType(c *Ctx, t *eng.Term) bool {
	if s, ok := t.StrVal(); ok {
		return strings.HasPrefix(strings.ToLower(s), "application/json")
	}
	if t.Op != eng.OLoad || t.Args[0].Op != eng.OGlobal {
		return false
	}
	g := t.Args[0].Obj.(*ssa.Global)
	if !c.P.ImmutableGlobal(g) {
		return false
	}
	init := g.Pkg.Func("init")
	ok := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, isS := in.(*ssa.Store); isS && s.Addr == ssa.Value(g) {
				k, isC := s.Val.(*ssa.Const)
				ok = isC && k.Value != nil && k.Value.Kind() == constant.String && strings.HasPrefix(strings.ToLower(constant.StringVal(k.Value)), "application/json")
			}
		}
	}
	return ok
}
