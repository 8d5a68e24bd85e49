package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21",
		"Path analysis of the compressing filter and of every method of the writer it hands out: the header that announces compression is set only for clients naming it and only stays where something was compressed, everything written passes one compressor over the original answer, in whole and in order, the length is dropped before the first byte, and the compressor is completed once on every way out, panics included.",
		"the compressed format itself; handlers that write to the original answer directly; weights in the list of encodings",
		c21)
}

const gzW = "(*compress/gzip.Writer)."

// hdrCall: a call of a method of a header: the name of the header in canonical
// form and the method.
func hdrCall(e *eng.Event) (name, method string) {
	const p = "(net/http.Header)."
	if e.Kind != "call" || !strings.HasPrefix(e.Name, p) || len(e.Args) == 0 {
		return
	}
	s, ok := e.Args[0].StrVal()
	if !ok {
		return "?", strings.TrimPrefix(e.Name, p)
	}
	return canonical(s), strings.TrimPrefix(e.Name, p)
}

func canonical(s string) string {
	ps := strings.Split(strings.ToLower(s), "-")
	for i, p := range ps {
		if p != "" {
			ps[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(ps, "-")
}

func c21(c *Ctx) {
	hs := c.handlers(c.Fn("gzip", "All"))
	c.Need(len(hs) == 1, "the handler of the compressing filter")
	h := hs[0]
	u := c.U
	con := "gzip.All handler"
	rwT := c.P.TPkg("net/http").Scope().Lookup("ResponseWriter").Type()
	reqT := types.NewPointer(c.P.TPkg("net/http").Scope().Lookup("Request").Type())
	isNext := func(e *eng.Event) bool { return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == "Next" }
	var wT *types.Named
	var zF *types.Var
	r := c.Run(h, &eng.Options{Exact: true, CutAt: cutAll,
		MayPanic: func(st *eng.State, e *eng.Event) bool { return isNext(e) },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "go" || e.Kind == "panic" || e.Kind == "assert"
		}})
	n := map[string]int{}
	for _, x := range r.Exits {
		st := x.St
		// does the client name the encoding?
		accept := hasFact(st, func(t *eng.Term) bool {
			if t.Op == eng.OPure && t.Sym == "strings.Contains" {
				if s, ok := t.Args[1].StrVal(); !ok || s != "gzip" {
					return false
				}
				g := t.Args[0]
				for callTerm(g, "strings.ToLower") {
					g = g.Args[0]
				}
				if retOf(g, "(net/http.Header).Get") {
					s, _ := g.Args[1].StrVal()
					return canonical(s) == "Accept-Encoding" && g.Args[0].Op == eng.OLoad && tid(eng.Root(g.Args[0].Args[0]).Typ, reqT)
				}
			}
			return false
		})
		isRW := func(t *eng.Term) bool { return t != nil && bare(t).Op == eng.OParam && tid(bare(t).Typ, rwT) }
		next, enc, vary, prov, closed := -1, -1, -1, -1, -1
		back, gone := -1, -1
		var w *eng.Term
		nexts, touched := 0, 0
		for i, e := range st.Trace {
			if isNext(e) {
				next = i
				nexts++
				continue
			}
			name, m := hdrCall(e)
			if m == "Set" || m == "Add" || m == "Del" {
				own := retOf(e.Recv, "(net/http.ResponseWriter).Header") && isRW(e.Recv.Args[0])
				touched++
				switch {
				case own && name == "Content-Encoding" && m == "Set" && next < 0:
					s, _ := e.Args[1].StrVal()
					c.On(st, s == "gzip", "announced", con, e.Pos, "another encoding is announced")
					enc = i
				case own && name == "Content-Encoding" && m == "Del" && next >= 0:
					gone = i
				case own && name == "Vary" && m != "Del" && next < 0:
					s, _ := e.Args[1].StrVal()
					c.On(st, canonical(s) == "Accept-Encoding", "announced", con, e.Pos, "caches are not told what the answer depends on")
					vary = i
				default:
					c.On(st, false, "announced", con, e.Pos, "the filter changes another header: %s", name)
				}
			}
			if e.Kind == "call" && e.Callee != nil && e.Callee.Name() == "ProvideAs" {
				touched++
				isT := e.Args[1].Typ != nil && strings.HasSuffix(bareTyp(e.Args[1]), "*net/http.ResponseWriter")
				switch v := bare(e.Args[0]); {
				case isT && isRW(v) && next >= 0:
					back = i
				case isT && v.Op == eng.OAlloc && next < 0:
					w = v
					prov = i
				default:
					c.On(st, false, "provided", con, e.Pos, "the filter provides something else")
				}
			}
			if e.Kind == "call" && strings.HasPrefix(e.Name, gzW) {
				if strings.HasSuffix(e.Name, ".Close") {
					c.On(st, closed < 0, "completed", con, e.Pos, "the compressor is closed twice")
					closed = i
				} else {
					c.On(st, false, "completed", con, e.Pos, "the filter uses the compressor itself")
				}
			}
			if e.Kind == "go" || e.Kind == "call" && e.Recv != nil && isRW(e.Recv) && e.Callee.Name() != "Header" {
				c.On(st, false, "announced", con, e.Pos, "the filter does something else with the answer")
			}
		}
		c.On(st, nexts <= 1, "chain", con, x.Pos, "the rest of the chain runs twice")
		if x.Kind == "panic" && next < 0 {
			continue // the writer is no writer of the framework
		}
		if accept != 1 {
			c.On(st, accept == 0 || touched == 0, "announced", con, x.Pos, "something changes for a client that may not name the encoding")
			c.On(st, touched == 0, "announced", con, x.Pos, "something changes for a client that does not name the encoding")
			n["plain"]++
			continue
		}
		n["gzip "+x.Kind]++
		c.On(st, nexts == 1, "chain", con, x.Pos, "the rest of the chain does not run between the start and the end of the compression")
		c.On(st, enc >= 0 && enc < next, "announced", con, x.Pos, "the encoding is not announced before the chain runs")
		c.On(st, vary >= 0 && vary < next, "announced", con, x.Pos, "caches are not told before the chain runs that the answer depends on the encodings")
		c.On(st, prov >= 0 && prov < next, "provided", con, x.Pos, "the rest of the chain does not get the compressing writer")
		if w == nil {
			continue
		}
		p, ok := w.Typ.(*types.Pointer)
		if ok {
			nt, _ := p.Elem().(*types.Named)
			c.Need(nt != nil, "the type of the compressing writer")
			wT = nt
			s := structOf(nt)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Type().String() == "*compress/gzip.Writer" {
					zF = f
				}
				if types.Implements(f.Type(), rwT.Underlying().(*types.Interface)) {
					v := st.Load(u.FAddr(w, f))
					for v.Op == eng.OTA || v.Op == eng.OIface {
						v = v.Args[0]
					}
					c.On(st, isRW(v), "provided", con, x.Pos, "the compressing writer does not write to this answer")
				}
			}
		}
		c.Need(zF != nil, "the compressor of the compressing writer")
		z := func(t *eng.Term) bool { return t != nil && fieldOf(t) == zF && eng.Root(cellOf(t)) == w }
		made := hasFact(st, func(t *eng.Term) bool {
			return t.Op == eng.OBin && t.Sym == "eq" && (t.Args[0].IsNil() && z(t.Args[1]) || t.Args[1].IsNil() && z(t.Args[0]))
		})
		c.On(st, made >= 0, "completed", con, x.Pos, "it is not known at the end whether something was compressed")
		if made == 0 {
			n["made"]++
			ok := closed > next && z(st.Trace[maxi(closed, 0)].Recv)
			c.On(st, ok, "completed", con, x.Pos, "the compressor is not closed when the chain has ended%s", map[bool]string{true: " in a panic"}[x.Kind == "panic"])
			c.On(st, gone < 0 && back < 0, "announced", con, x.Pos, "a compressed answer is not announced any more")
		} else {
			n["nothing"]++
			c.On(st, closed < 0, "completed", con, x.Pos, "a compressor that was not made is closed")
			c.On(st, gone > next, "announced", con, x.Pos, "an answer of which nothing was compressed stays announced as compressed")
			c.On(st, back > next, "provided", con, x.Pos, "what is written later goes through a compressor that nobody completes")
		}
	}
	for _, k := range []string{"plain", "gzip return", "gzip panic", "made", "nothing"} {
		c.Check(n[k] > 0, "met", con+" "+k, h.Pos(), "no path of the filter for: %s", k)
	}
	if wT == nil || zF == nil {
		return
	}
	c.gzWriter(wT, zF, rwT)
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func bareTyp(t *eng.Term) string {
	if t.Op == eng.OIface {
		return t.Sym
	}
	return types.TypeString(t.Typ, nil)
}

// gzWriter checks every method of the writer.
func (c *Ctx) gzWriter(wT *types.Named, zF *types.Var, rwT types.Type) {
	u := c.U
	ms := types.NewMethodSet(types.NewPointer(wT))
	var fs []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		f := c.P.SSA.MethodValue(ms.At(i))
		if f != nil && f.Synthetic == "" && c.P.HasBody(f) {
			fs = append(fs, f)
		}
	}
	seen := map[string]bool{}
	for _, f := range fs {
		con := eng.FuncName(f)
		name := f.Name()
		exported := name[:1] == strings.ToUpper(name[:1])
		if !exported {
			continue // analysed where it is called
		}
		seen[name] = true
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "store" && fieldOf(e.Addr) == zF || e.Kind == "go"
		}})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			recv := st.Params()[0]
			under := func(t *eng.Term) bool {
				t = bare(t)
				if t == nil {
					return false
				}
				if t.Op == eng.OTA {
					t = bare(t.Args[0])
				}
				fv := fieldOf(t)
				return fv != nil && fv != zF && types.Implements(fv.Type(), rwT.Underlying().(*types.Interface)) && eng.Root(cellOf(t)) == recv
			}
			zAddr := u.FAddr(recv, zF)
			var made *eng.Event // the store of a new compressor
			madeAt, lenAt, useAt, flushAt, ztouch := -1, -1, -1, -1, 0
			ctGet, ctSet := -1, -1
			var use *eng.Event
			first := 0
			if k, _ := onceFact(st, recv); k != 0 {
				first = k
			} else {
				k := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OBin && t.Sym == "eq" && (t.Args[0].IsNil() && fieldOf(t.Args[1]) == zF || t.Args[1].IsNil() && fieldOf(t.Args[0]) == zF)
				})
				first = map[int]int{1: 1, 0: -1, -1: 0}[k]
			}
			for i, e := range st.Trace {
				switch {
				case e.Kind == "go":
					c.On(st, false, "order", con, e.Pos, "something is written at the same time")
				case e.Kind == "store":
					c.On(st, madeAt < 0 && first == 1, "one", con, e.Pos, "the compressor is replaced while it is in use")
					v := e.Val
					ok := retOf(v, "compress/gzip.NewWriter") && under(v.Args[0])
					if v.Op == eng.OExtract && retOf(v.Args[0], "compress/gzip.NewWriterLevel") {
						ok = under(v.Args[0].Args[0])
					}
					c.On(st, ok, "one", con, e.Pos, "the compressor does not write to this answer")
					made, madeAt = e, i
				case strings.HasPrefix(e.Name, gzW):
					op := strings.TrimPrefix(e.Name, gzW)
					ztouch++
					want := name
					c.On(st, op == want, "use", con, e.Pos, "the compressor is used in another way: %s", op)
					use, useAt = e, i
					okz := made != nil && e.Recv == made.Val || made == nil && cellOf(e.Recv) == zAddr
					c.On(st, okz, "use", con, e.Pos, "another compressor is used")
					c.On(st, made != nil || first == -1, "use", con, e.Pos, "the compressor may not have been made")
				case e.Recv != nil && under(e.Recv) && e.Callee != nil:
					switch m := e.Callee.Name(); m {
					case "Header":
					case "Flush":
						flushAt = i
						c.On(st, name == "Flush", "plain", con, e.Pos, "the answer is flushed")
					case "Hijack":
						c.On(st, name == "Hijack", "plain", con, e.Pos, "the connection is taken over")
					case "Status", "Written", "Size":
					default:
						c.On(st, m == name && m != "Write", "plain", con, e.Pos, "the original answer is written to directly: %s", m)
					}
				default:
					for _, a := range e.Args {
						if under(a) && !strings.HasPrefix(e.Name, "compress/gzip.NewWriter") {
							c.On(st, false, "plain", con, e.Pos, "the original answer is handed on")
						}
					}
				}
				hn, m := hdrCall(e)
				switch {
				case m == "":
				case hn == "Content-Length" && m == "Del":
					lenAt = i
				case hn == "Content-Type" && m == "Get":
					ctGet = i
				case hn == "Content-Type" && m == "Set":
					ctSet = i
					ok := retOf(e.Args[1], "net/http.DetectContentType") && len(st.Params()) > 1 && e.Args[1].Args[0] == st.Params()[1]
					c.On(st, ok, "type", con, e.Pos, "the type set is not that of what is written")
				case m == "Set" || m == "Add" || m == "Del":
					c.On(st, false, "type", con, e.Pos, "the writer changes another header: %s", hn)
				}
			}
			switch name {
			case "Write", "Flush":
				c.On(st, ztouch == 1, "use", con, x.Pos, "what is to be done does not reach the compressor once")
				c.On(st, first != 1 || madeAt >= 0, "one", con, x.Pos, "no compressor is made at first")
				if made != nil {
					c.On(st, lenAt >= 0 && lenAt < useAt, "length", con, x.Pos, "the length of the plain answer is not dropped before the first byte")
				}
			}
			switch name {
			case "Write":
				if use != nil {
					p := st.Params()[1]
					c.On(st, use.Args[0] == p, "use", con, use.Pos, "something else than the bytes given is compressed")
					c.On(st, x.Results[0] == st.Ext(use.Res, 0) && x.Results[1] == st.Ext(use.Res, 1), "use", con, x.Pos, "the outcome of writing is not handed back")
				}
				if made != nil {
					empty := eqFact(st, func(t *eng.Term) bool {
						if t.Op == eng.OBuiltin {
							t = t.Args[0]
						}
						if !retOf(t, "(net/http.Header).Get") {
							return false
						}
						s, _ := t.Args[1].StrVal()
						return canonical(s) == "Content-Type"
					}, func(t *eng.Term) bool {
						s, ok := t.StrVal()
						k, ok2 := t.IntVal()
						return ok && s == "" || ok2 && k == 0
					})
					c.On(st, empty >= 0 && ctGet >= 0, "type", con, x.Pos, "the type of the answer is not asked for before the first byte")
					c.On(st, (empty == 1) == (ctSet >= 0), "type", con, x.Pos, "a type is set other than when none was chosen")
					c.On(st, ctSet < useAt, "type", con, x.Pos, "the type is set after the first byte")
				} else {
					c.On(st, ctSet < 0, "type", con, x.Pos, "the type is changed later")
				}
			case "Flush":
				c.On(st, flushAt > useAt && useAt >= 0, "flush", con, x.Pos, "a flush does not first send what the compressor holds back")
			case "Header":
				ok := retOf(x.Results[0], "(net/http.ResponseWriter).Header") && under(x.Results[0].Args[0])
				c.On(st, ok, "plain", con, x.Pos, "another header is handed out")
			}
		}
	}
	c.Check(seen["Write"], "use", eng.FuncName(fs[0]), fs[0].Pos(), "the compressing writer has no Write of its own")
	c.Check(seen["Flush"], "flush", "the compressing writer", wT.Obj().Pos(), "a flush does not first send what the compressor holds back")
	c.Check(!seen["ReadFrom"] && !seen["WriteString"], "plain", "the compressing writer", wT.Obj().Pos(), "the compressing writer has further ways to write")
}
