package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31",
		"Path analysis of the request entry point over every way its chain can end, unwinding included: after the chain, never before, the files of the form of the request that is then the current one are removed, unless there is no form. No other function removes files of a form unless the rest of the chain has run. The memory a form may take is the configured limit, or the default where none is given.",
		"files a handler creates itself; where net/http keeps the files of a form",
		c31)
}

func c31(c *Ctx) {
	u := c.U
	serve := c.Meth(c.Type("", "Strip"), "ServeHTTP")
	con := "ServeHTTP"
	chain := c.invokers()
	formT := types.NewPointer(c.P.TPkg("mime/multipart").Scope().Lookup("Form").Type())
	reqT := types.NewPointer(c.P.TPkg("net/http").Scope().Lookup("Request").Type())
	isRemove := func(e *eng.Event) bool {
		return e.Kind == "call" && (strings.HasSuffix(e.Name, "/multipart.Form).RemoveAll") || strings.HasSuffix(e.Name, "(*mime/multipart.Form).RemoveAll"))
	}
	isFind := func(e *eng.Event) bool {
		return e.Kind == "call" && strings.HasSuffix(e.Name, ".Find") && len(e.Args) > 0 && e.Recv != nil
	}
	entered := map[*ssa.Function]bool{serve: true}
	isChain := func(e *eng.Event) bool { return e.Kind == "call" && chain[target(e)] }
	r := c.Run(serve, &eng.Options{Exact: true, CutAt: cutAll,
		Inline: func(f *ssa.Function) bool {
			in := !chain[f] && f.Pkg != nil && !strings.HasSuffix(f.Pkg.Pkg.Path(), "/inject")
			if in {
				entered[f] = true
			}
			return in
		},
		MayPanic: func(st *eng.State, e *eng.Event) bool { return isChain(e) },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "go" || isChain(e) || isRemove(e) || isFind(e)
		}})
	n, met := 0, map[string]bool{}
	for _, x := range r.Exits {
		st := x.St
		ran := -1
		for i, e := range st.Trace {
			if isChain(e) {
				ran = i
			}
		}
		done := ran < 0
		for i, e := range st.Trace {
			c.On(st, e.Kind != "go", "kept", con, e.Pos, "something goes on after the request is done")
			if isRemove(e) {
				c.On(st, ran >= 0 && i > ran, "kept", con, e.Pos, "the uploaded files are removed before the request is done")
			}
			if i < ran || ran < 0 || !isFind(e) || originOf(e.Recv) == st.Recv() {
				continue
			}
			// the request that is current now
			cell := bare(e.Args[0])
			if p, isP := types.Type(nil), false; cell.Op == eng.OAlloc && cell.Typ != nil {
				if pp, ok := cell.Typ.Underlying().(*types.Pointer); ok {
					p, isP = pp.Elem(), true
				}
				if !isP || !tid(p, reqT) {
					continue
				}
			} else {
				continue
			}
			isReq := func(t *eng.Term) bool {
				t = bare(t)
				return t != nil && t.Op == eng.OLoad && noOld(u, t.Args[0]) == cell
			}
			isForm := func(t *eng.Term) bool {
				t = bare(t)
				return t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OFAddr && fieldOf(t).Name() == "MultipartForm" && isReq(t.Args[0].Args[0])
			}
			for _, r := range st.Trace[i:] {
				if isRemove(r) && isForm(r.Recv) {
					done, met["removed"] = true, true
				}
			}
			switch {
			case hasFactNil(st, isForm) == 1, hasFactNil(st, isReq) == 1:
				done, met["none"] = true, true
			case hasFactNil(st, func(t *eng.Term) bool { return t == e.Res }) == 0:
				done = true // there is no such request
			}
		}
		c.On(st, done, "removed", con, x.Pos, "the files of the current request are left behind (%s)", x.Kind)
		if ran >= 0 {
			met[x.Kind] = true
		}
		n++
	}
	for _, m := range []string{"removed", "none", "return", "panic"} {
		c.Check(met[m], "met", con, serve.Pos(), "no path for: %s", m)
	}
	// nobody else
	k := 0
	for _, f := range c.P.Funcs {
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Name() == "RemoveAll" && g.Signature.Recv() != nil && tid(g.Signature.Recv().Type(), formT) {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		k++
		if o := outer(f); entered[f] || entered[o] {
			continue
		}
		con := eng.FuncName(f)
		next := func(e *eng.Event) bool {
			return e.Kind == "call" && (chain[target(e)] || e.Callee != nil && e.Callee.Name() == "Next")
		}
		c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
			if isRemove(e) {
				ok := false
				for _, o := range st.Trace {
					ok = ok || next(o)
				}
				c.On(st, ok, "kept", con, e.Pos, "uploaded files are removed before the handlers have run")
			}
			return next(e)
		}})
	}
	c.Check(k > 0, "met", "removal", 0, "nobody removes the files of a form")
	c.Min("removed", 4)

	// the memory a form takes
	h := c.handlers(c.Fn("params", "ParamsParser"))
	c.Need(len(h) == 1, "the handler of the params parser")
	hc := "params.ParamsParser handler"
	bound := map[string]bool{}
	c.Run(h[0], &eng.Options{Exact: true, CutAt: cutAll, Inline: func(f *ssa.Function) bool {
		return outer(f).Pkg == outer(h[0]).Pkg && !loops(f)
	}, Event: func(st *eng.State, e *eng.Event) bool {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Request).ParseMultipartForm") {
			v, rq := bare(e.Args[0]), bare(e.Recv)
			if rq.Op == eng.OLoad {
				rq = bare(st.Load(rq.Args[0]))
			}
			c.On(st, rq.Op == eng.OParam && tid(rq.Typ, reqT), "removed", hc, e.Pos, "the form is parsed for another request than the current one: %v", rq)
			lim := false
			for _, b := range st.Trace {
				if v.Op == eng.OLoad && noOld(u, v.Args[0]) == bare(b.Args[0]) {
					lim = true
				}
			}
			g := v.Op == eng.OLoad && v.Args[0].Op == eng.OGlobal
			c.On(st, g || lim && st.EvalTerm(u.Lt(u.Int(0), v)) == 1, "limit", hc, e.Pos, "the memory of a form is not limited as configured: %v", v)
			bound[map[bool]string{true: "default", false: "configured"}[g]] = true
			if g {
				for _, b := range st.Trace {
					cell := bare(b.Args[0])
					pos := hasFact(st, func(t *eng.Term) bool {
						return t.Op == eng.OBin && t.Sym == "lt" && isZero(t.Args[0]) && bare(t.Args[1]).Op == eng.OLoad && noOld(u, bare(t.Args[1]).Args[0]) == cell
					})
					c.On(st, pos < 1, "limit", hc, e.Pos, "the configured limit is not used")
				}
			}
		}
		return e.Kind == "call" && strings.HasSuffix(e.Name, "Config).Bind") && isStr(e.Args[1], "max_memory")
	}})
	c.Check(bound["default"] && bound["configured"], "limit", hc, h[0].Pos(), "the limit of the memory of a form is not the configured one, or the default where none is: %v", bound)
}

// originOf: the object a value was reached from.
func originOf(t *eng.Term) *eng.Term {
	for t != nil {
		switch t.Op {
		case eng.OIface, eng.OConv, eng.OTA, eng.OLoad, eng.OFAddr, eng.OField:
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}
