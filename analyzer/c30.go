package main

import (
	"go/constant"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30",
		"Path analysis of the handler the request logger installs, with its options, and of the hook it registers: the id is the request's own one exactly where its length is proved to be in range and a new one otherwise, the one logger is made with this very id, gets every option and is handed on by type and in the context of the request that is handed on, the id is written to the request and, last, by a hook to the response, and the chain runs once between the two lines.",
		"uniqueness of fresh ids; what is logged when the chain panics; times in the lines",
		c30)
}

func c30(c *Ctx) {
	const pkg = "request-logger"
	f := c.Fn(pkg, "ReqLoggerFilter")
	optT := c.Type(pkg, "LoggerOption")
	u := c.U
	con := "ReqLoggerFilter handler"
	rwT := c.P.TPkg("net/http").Scope().Lookup("ResponseWriter").Type()
	reqT := types.NewPointer(c.P.TPkg("net/http").Scope().Lookup("Request").Type())
	logT := c.Type("", "Logger")
	newLog := eng.FuncName(c.Fn("", "NewReqLogger"))
	withVal := eng.FuncName(c.Fn("utils", "CtxWithValue"))
	fresh := c.Fn(pkg, "NewReqId")
	optF := map[string]*types.Var{}
	for s, i := structOf(optT), 0; i < s.NumFields(); i++ {
		optF[s.Field(i).Name()] = s.Field(i)
	}
	setter := map[string]string{"SetColorMode": "ColorMode", "SetLineInfo": "LineInfo", "SetShortLine": "ShortLine", "SetFlatLine": "FlatLine", "EnableLogStack": "LogStackLevel"}
	n := map[string]int{}
	for _, m := range c.closures(f) {
		r := c.Run(m.fn, &eng.Options{Exact: true, CutAt: cutAll, Closure: m.t, From: m.st,
			Inline: func(h *ssa.Function) bool { return h.Pkg == f.Pkg && h != fresh },
			Event: func(st *eng.State, e *eng.Event) bool {
				if e.Kind == "store" {
					if h := st.Var("hook"); h != nil && e.Val.Typ != nil && isString(e.Val.Typ) {
						for _, a := range h.Args {
							c.On(st, a != e.Addr, "same-id", con, e.Pos, "what the hook uses changes after it was registered")
						}
					}
					return false
				}
				if e.Kind == "call" && e.Callee != nil {
					switch e.Callee.Name() {
					case "NewReqLogger":
						if e.Name == newLog {
							st.SetVar("id", e.Args[1])
						}
					case "Before":
						st.SetVar("hook", bare(e.Args[0]))
						if id := st.Var("id"); id != nil {
							n["hook"]++
							c.idHook(st.Snapshot(), bare(e.Args[0]), id, con)
						}
					case "CtxWithValue":
						if v := bare(e.Args[1]); e.Name == withVal {
							if p, ok := v.Typ.Underlying().(*types.Pointer); ok && tid(p.Elem(), logT) {
								st.SetVar("in-ctx", bare(st.Load(v)))
							}
						}
					}
				}
				return e.Kind == "call" || e.Kind == "go" || e.Kind == "defer" || e.Kind == "send"
			}})
		opt := func(t *eng.Term, name string) bool { return fieldOf(bare(t)) != nil && fieldOf(bare(t)) == optF[name] }
		none := false // without options
		for _, t := range c.paramTerms(f) {
			if _, ok := t.Typ.Underlying().(*types.Slice); ok {
				none = m.st.EvalTerm(u.Eq(u.Len(t), u.Int(0))) == 1
			}
		}
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			isReq := func(t *eng.Term) bool { t = bare(t); return t != nil && t.Op == eng.OParam && tid(t.Typ, reqT) }
			ofReq := func(t *eng.Term) bool { // the request or a copy with another context
				t = bare(t)
				for t != nil && callTerm(t, "(*net/http.Request).WithContext") {
					t = bare(t.Args[0])
				}
				return t != nil && isReq(t)
			}
			isRW := func(t *eng.Term) bool {
				t = bare(t)
				if t != nil && t.Op == eng.OTA {
					t = bare(t.Args[0])
				}
				return t != nil && t.Op == eng.OParam && tid(t.Typ, rwT)
			}
			reqHdr := func(t *eng.Term) bool {
				fv := fieldOf(t)
				return fv != nil && fv.Name() == "Header" && ofReq(cellOf(t).Args[0])
			}
			isOwn := func(t *eng.Term) bool { // the id the client sent
				t = bare(t)
				if !callTerm(t, "(net/http.Header).Get") {
					return false
				}
				s, ok := t.Args[1].StrVal()
				return ok && canonical(s) == "X-Reqid" && reqHdr(t.Args[0])
			}
			filterSet := func(name string) int { // is there such a function in the options?
				return 1 - hasFactNil(st, func(t *eng.Term) bool { return opt(t, name) })
			}
			// the filtered text: base itself without a filter
			filtered := func(t *eng.Term, name string) (*eng.Term, bool) {
				if fld, args := dynCall(t); fld != nil && opt(fld, name) {
					return args[len(args)-1], len(args) == 4 && isRW(args[1]) && ofReq(args[2])
				}
				return t, filterSet(name) == 0 || none
			}
			var lg, id, next *eng.Term
			at := map[string]int{}
			cnt := map[string]int{}
			mark := func(k string, i int) { at[k] = i; cnt[k]++ }
			var infos []int
			var ctxSet, reqSet *eng.Term
			for i, e := range st.Trace {
				if e.Kind != "call" {
					c.On(st, e.Kind == "defer", "once", con, e.Pos, "something goes on beside the request")
					continue
				}
				name, mth := hdrCall(e)
				switch {
				case e.Name == newLog:
					mark("new", i)
					lg, id = e.Res, e.Args[1]
					c.On(st, capturedParam(e.Args[0]), "one-logger", con, e.Pos, "the logger does not print to the given output: %v", e.Args[0])
				case name == "X-Reqid" && mth == "Set" && reqHdr(e.Recv):
					mark("reqid", i)
				case name == "X-Reqid" && (mth == "Set" || mth == "Del" || mth == "Add") && reqHdr(e.Recv):
					mark("reqid-other", i)
				case e.Callee != nil && e.Callee.Name() == "Before" && isRW(e.Recv):
					mark("hook", i)
				case e.Callee != nil && e.Callee.Name() == "Next":
					mark("next", i)
					next = e.Recv
				case e.Callee != nil && e.Callee.Name() == "ProvideAs" && len(e.Args) > 1:
					if lg != nil && bare(e.Args[0]) == bare(lg) {
						mark("as "+strings.TrimPrefix(bareTyp(e.Args[1]), "*"), i)
					}
				case e.Callee != nil && e.Callee.Name() == "Provide":
					es, ok := st.Elems(e.Args[0])
					for _, v := range es {
						if ok && ofReq(v) && !isReq(v) {
							mark("request", i)
							reqSet = bare(v)
						}
					}
				case e.Callee != nil && e.Callee.Name() == "ReplaceContext":
					mark("context", i)
					ctxSet = bare(e.Args[0])
				case e.Callee != nil && e.Recv != nil && lg != nil && bare(e.Recv) == bare(lg):
					mth := e.Callee.Name()
					if o, ok := setter[mth]; ok {
						mark(mth, i)
						v := bare(e.Args[0])
						c.On(st, opt(v, o) || none && zeroOpt(v), "options", con, e.Pos, "%s gets something else than the option: %v", mth, v)
					} else if mth == "SetPrefix" {
						mark(mth, i)
						b, ok := filtered(bare(e.Args[0]), "PrefixFilter")
						s, isS := b.StrVal()
						c.On(st, ok && isS && s == "", "options", con, e.Pos, "the prefix is not the one of its filter: %v", e.Args[0])
					} else if mth == "Info" {
						infos = append(infos, i)
					}
				}
			}
			if !c.On(st, cnt["new"] == 1 && lg != nil && id != nil, "one-logger", con, x.Pos, "not one logger is made for the request") {
				continue
			}
			// the id
			base, ok := filtered(id, "ReqidFilter")
			c.On(st, ok, "own-id", con, x.Pos, "the filter for ids is not applied to the id, or to another request: %v", id)
			base = bare(base)
			length := func(t *eng.Term) *eng.Term { return u.Len(t) }
			switch {
			case isOwn(base):
				n["own"]++
				l := length(base)
				c.On(st, leProved(st, u, u.Int(10), l, nil) && leProved(st, u, l, u.Int(32), nil), "own-id", con, x.Pos, "an id of the client is used although it may be shorter than 10 or longer than 32 characters")
			case callTerm(base, eng.FuncName(fresh)):
				n["fresh"]++
				out := false
				for _, e := range st.Trace {
					if o := e.Res; o != nil && isOwn(o) {
						l := length(o)
						out = out || leProved(st, u, l, u.Int(9), nil) || leProved(st, u, u.Int(33), l, nil)
					}
				}
				c.On(st, out, "own-id", con, x.Pos, "the id of the client is not used although it may have 10 to 32 characters")
			default:
				c.On(st, false, "own-id", con, x.Pos, "the id is neither the one of the client nor a new one: %v", base)
			}
			if filterSet("ReqidFilter") == 1 {
				n["filter"]++
			}
			// everywhere the same id, before the chain
			nx := at["next"]
			c.On(st, cnt["next"] == 1 && next != nil, "once", con, x.Pos, "the rest of the chain does not run exactly once")
			before := func(k string) bool { return cnt[k] == 1 && at[k] < nx }
			c.On(st, before("reqid") && cnt["reqid-other"] == 0 && st.Trace[at["reqid"]].Args[1] == id, "same-id", con, x.Pos, "the request does not carry the id of its logger")
			c.On(st, before("as github.com/wujiu2020/strip.Logger") && before("as github.com/wujiu2020/strip.ReqLogger"), "one-logger", con, x.Pos, "the handlers do not get the logger under both of its types")
			for s := range setter {
				c.On(st, before(s), "options", con, x.Pos, "%s is not called with the option before the chain", s)
			}
			c.On(st, filterSet("PrefixFilter") == 0 || before("SetPrefix"), "options", con, x.Pos, "the prefix is not set before the chain")
			// the context of the request
			if c.On(st, before("request") && before("context"), "in-context", con, x.Pos, "the handlers do not get the request and the context with the logger in it") {
				have := func(cx *eng.Term) bool {
					if !callTerm(cx, withVal) {
						return false
					}
					return st.Var("in-ctx") == bare(lg)
				}
				rc := bare(reqSet.Args[1])
				if cx := ctxSet; callTerm(cx, "(*net/http.Request).Context") {
					c.On(st, bare(cx.Args[0]) == reqSet, "in-context", con, x.Pos, "the context handed on is the one of another request")
				} else {
					c.On(st, cx == rc, "in-context", con, x.Pos, "the context handed on is not the one of the request")
				}
				c.On(st, have(rc), "in-context", con, x.Pos, "the logger is not in the context of the request: %v", rc)
				if have(rc) {
					b := bare(rc.Args[0])
					c.On(st, (callTerm(b, "(*net/http.Request).Context")) && ofReq(b.Args[0]), "in-context", con, x.Pos, "the context does not build on the one of the request: %v", b)
				}
			}
			// the hook
			c.On(st, before("hook"), "same-id", con, x.Pos, "the hook writing the id to the response is not registered once before the chain")
			// lines
			var begs, ends []int
			for _, i := range infos {
				if i < nx {
					begs = append(begs, i)
				} else {
					ends = append(ends, i)
				}
			}
			sent := func(t *eng.Term) bool {
				t = bare(t)
				k, isC := t.IntVal()
				zero := hasFact(st, func(q *eng.Term) bool {
					return q.Op == eng.OBin && q.Sym == "eq" && (isCallOn(q.Args[0], "Status", isRW) || isCallOn(q.Args[1], "Status", isRW))
				})
				return isC && k == 200 && zero == 1 || isCallOn(t, "Status", isRW) && zero == 0
			}
			after := func(name string) bool {
				ok := false
				for i, e := range st.Trace {
					if e.Callee != nil && e.Callee.Name() == name && e.Recv != nil && isRW(e.Recv) {
						ok = i > nx
					}
				}
				return ok
			}
			line := func(kind, filter string, ls []int) {
				tells := map[string]string{"beginning": "URL", "end": "Size"}[kind]
				ofLine := func(t *eng.Term) bool { // the text of this line
					b, okF := filtered(t, filter)
					return okF && eng.Any(b, func(q *eng.Term) bool {
						fv := fieldOf(q)
						return fv != nil && fv.Name() == tells || isCallOn(q, tells, isRW)
					})
				}
				if len(ls) > 1 {
					c.On(st, false, "lines", con, x.Pos, "more than one line at the %s", kind)
					return
				}
				if len(ls) == 0 {
					n["no "+kind]++
					ok := hasFact(st, func(t *eng.Term) bool {
						if t.Op != eng.OBin || t.Sym != "eq" {
							return false
						}
						for i := 0; i < 2; i++ {
							if s, isS := t.Args[i].StrVal(); isS && s == "" {
								return ofLine(t.Args[1-i])
							}
						}
						return false
					}) == 1
					c.On(st, ok, "lines", con, x.Pos, "no line at the %s although it is not empty", kind)
					return
				}
				n[kind]++
				e := st.Trace[ls[0]]
				es, ok := st.Elems(e.Args[0])
				if !c.On(st, ok && len(es) > 0, "lines", con, e.Pos, "the line is not known") {
					return
				}
				b, okF := filtered(bare(es[0]), filter)
				c.On(st, okF, "lines", con, e.Pos, "the line does not go through its filter")
				b = bare(b)
				args := fmtArgs(st, b)
				has := func(pred func(*eng.Term) bool) bool {
					for _, a := range args {
						if eng.Any(a, pred) {
							return true
						}
					}
					return false
				}
				fld := func(name string) func(*eng.Term) bool {
					return func(t *eng.Term) bool {
						fv := fieldOf(t)
						return fv != nil && fv.Name() == name && ofReq(cellOf(t).Args[0])
					}
				}
				if kind == "beginning" {
					c.On(st, has(fld("Method")) && has(fld("URL")), "lines", con, e.Pos, "the line at the beginning does not tell method and address: %v", b)
				} else {
					c.On(st, has(sent) && after("Status"), "lines", con, e.Pos, "the line at the end does not tell the status after the chain: %v", b)
					c.On(st, has(func(t *eng.Term) bool { return isCallOn(t, "Size", isRW) }) && after("Size"), "lines", con, e.Pos, "the line at the end does not tell the size after the chain: %v", b)
				}
			}
			line("beginning", "ReqBegFilter", begs)
			line("end", "ReqEndFilter", ends)
		}
	}
	for _, k := range []string{"own", "fresh", "filter", "hook", "beginning", "end"} {
		c.Check(n[k] > 0, "met", con, f.Pos(), "no path for: %s", k)
	}
	c.freshID(fresh)
}

// zeroOpt: without options every option has its zero value.
func zeroOpt(v *eng.Term) bool {
	if v.Op == eng.OZero {
		return true
	}
	if k, ok := v.IntVal(); ok {
		return k == 0
	}
	if v.Op == eng.OConst && v.Const != nil && v.Const.Kind() == constant.Float {
		return constant.Sign(v.Const) == 0
	}
	return v.IsFalse()
}

func hasFactNil(st *eng.State, is func(*eng.Term) bool) int {
	return eqFact(st, func(t *eng.Term) bool { return t.IsNil() }, is)
}

// capturedParam: a parameter of the constructor.
func capturedParam(t *eng.Term) bool {
	t = bare(t)
	return t != nil && t.Op == eng.OParam
}

// dynCall splits the result of a call of a function value.
func dynCall(t *eng.Term) (fn *eng.Term, args []*eng.Term) {
	t = bare(t)
	if t != nil && t.Op == eng.ORet && len(t.Args) > 0 && strings.HasPrefix(t.Sym, "@") {
		return t.Args[0], t.Args[1:]
	}
	return nil, nil
}

// isCallOn: the result of a method of such a receiver.
func isCallOn(t *eng.Term, method string, recv func(*eng.Term) bool) bool {
	t = bare(t)
	if t == nil || t.Op != eng.ORet && t.Op != eng.OPure || len(t.Args) == 0 {
		return false
	}
	s := t.Sym
	if i := strings.LastIndex(s, "@"); i > 0 {
		s = s[:i]
	}
	return strings.HasSuffix(s, ")."+method) && recv(t.Args[0])
}

// fmtArgs: what a text is made of.
func fmtArgs(st *eng.State, t *eng.Term) []*eng.Term {
	if callTerm(t, "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln") {
		var out []*eng.Term
		for _, a := range t.Args {
			if es, ok := st.Elems(a); ok {
				out = append(out, es...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	return parts(t)
}

// idHook: the hook leaves exactly the id in the header of the response.
func (c *Ctx) idHook(st *eng.State, hook, id *eng.Term, con string) {
	hook = bare(hook)
	fn, ok := hook.Obj.(*ssa.Function)
	if !c.On(st, ok && (hook.Op == eng.OFunc || hook.Op == eng.OClosure), "same-id", con, 0, "the hook writing the id is not known") {
		return
	}
	r := c.Run(fn, &eng.Options{Exact: true, CutAt: cutAll, Closure: hook, From: st,
		Inline: func(h *ssa.Function) bool { return h.Pkg == fn.Pkg },
		Event:  func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" || e.Kind == "go" }})
	for _, x := range r.Exits {
		st := x.St
		last := -1
		val := false
		for i, e := range st.Trace {
			if i < len(st.Trace) && e.Kind == "call" {
				name, mth := hdrCall(e)
				if mth == "" || !callTerm(e.Recv, "(net/http.ResponseWriter).Header", "(github.com/wujiu2020/strip.ResponseWriter).Header") {
					continue
				}
				switch {
				case name == "?" && mth != "Get" && mth != "Values":
					val, last = false, i
				case name != "X-Reqid":
				case mth == "Set":
					val, last = e.Args[1] == id, i
				case mth == "Add":
					// alone only right behind a removal
					val, last = last >= 0 && !val && e.Args[1] == id, i
				case mth == "Del":
					val, last = false, i
				}
			}
		}
		c.On(st, x.Kind == "return" && last >= 0 && val, "same-id", con, fn.Pos(), "the hook does not leave the id in the header of the response")
	}
}

// freshID: every new id is made of something read for it.
func (c *Ctx) freshID(f *ssa.Function) {
	con := eng.FuncName(f)
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }})
	src := func(t *eng.Term) bool {
		return callTerm(t, "time.Now", "sync/atomic.AddUint32", "sync/atomic.AddUint64", "sync/atomic.AddInt64", "math/rand.Int63", "math/rand.Uint32", "math/rand.Uint64") || t.Op == eng.ORet && strings.Contains(t.Sym, "(*sync/atomic.")
	}
	k := 0
	for _, x := range r.Exits {
		if x.Kind != "return" || len(x.Results) != 1 {
			continue
		}
		k++
		st := x.St
		v := x.Results[0]
		into := map[*eng.Term]bool{} // buffers something fresh was put in
		for _, e := range st.Trace {
			put := callTerm2(e, "crypto/rand.Read")
			for _, a := range e.Args {
				put = put || eng.Any(a, src)
			}
			if put {
				for _, a := range e.Args {
					eng.Any(a, func(t *eng.Term) bool {
						if t.Op == eng.OAlloc {
							into[t] = true
						}
						return false
					})
				}
			}
		}
		ok := eng.Any(v, func(t *eng.Term) bool { return src(t) || into[t] })
		c.On(st, ok, "fresh-id", con, x.Pos, "a new id is not made of a time or random number read for it: %v", v)
	}
	c.Check(k > 0, "fresh-id", con, f.Pos(), "no path hands an id back")
}

func callTerm2(e *eng.Event, names ...string) bool {
	for _, n := range names {
		if e.Kind == "call" && e.Name == n {
			return true
		}
	}
	return false
}
