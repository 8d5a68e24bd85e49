package main

import (
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03",
		"Path-sensitive dataflow over the handler the recovery filter installs, with the rest of the chain returning or panicking: no path lets the panic out, a recovered panic records exactly status 500 before any body, only where no status was recorded before, a body is written only in development mode, and whatever of the panic value or the stack reaches the body passed an HTML escaper.",
		"the text of the page; panics raised while the page is being produced",
		c03)
}

// handlers gives the functions a constructor returns (closures or functions).
func (c *Ctx) handlers(f *ssa.Function) []*ssa.Function {
	r := c.Run(f, &eng.Options{})
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		for _, t := range x.Results {
			t = eng.Strip(t)
			for t.Op == eng.OIface || t.Op == eng.OConv {
				t = t.Args[0]
			}
			if g, ok := t.Obj.(*ssa.Function); ok && (t.Op == eng.OFunc || t.Op == eng.OClosure) && !seen[g] && c.P.HasBody(g) {
				seen[g] = true
				out = append(out, g)
			}
		}
	}
	return out
}

// made is a closure as a constructor leaves it behind.
type made struct {
	fn *ssa.Function
	t  *eng.Term
	st *eng.State
}

// closures gives the functions a constructor returns with what they captured.
func (c *Ctx) closures(f *ssa.Function) []made {
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll})
	var out []made
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		for _, t := range x.Results {
			t = eng.Strip(t)
			for t.Op == eng.OIface || t.Op == eng.OConv {
				t = t.Args[0]
			}
			if g, ok := t.Obj.(*ssa.Function); ok && (t.Op == eng.OFunc || t.Op == eng.OClosure) && c.P.HasBody(g) {
				out = append(out, made{g, t, x.St})
			} else {
				c.Need(false, "the function "+eng.FuncName(f)+" returns")
			}
		}
	}
	return out
}

// tainted: v contains a source that did not pass a sanitizer.
func tainted(v *eng.Term, source func(*eng.Term) bool, clean func(*eng.Term) bool) *eng.Term {
	seen := map[*eng.Term]bool{}
	var visit func(t *eng.Term) *eng.Term
	visit = func(t *eng.Term) *eng.Term {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if clean(t) {
			return nil
		}
		if source(t) {
			return t
		}
		for _, a := range t.Args {
			if x := visit(a); x != nil {
				return x
			}
		}
		return nil
	}
	return visit(v)
}

func callTerm(t *eng.Term, names ...string) bool {
	if t.Op != eng.ORet && t.Op != eng.OPure {
		return false
	}
	n := t.Sym
	if i := strings.LastIndex(n, "@"); i > 0 && t.Op == eng.ORet {
		n = n[:i]
	}
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

func c03(c *Ctx) {
	hs := c.handlers(c.Fn("", "RecoveryFilter"))
	c.Need(len(hs) > 0, "the handler RecoveryFilter installs")
	for _, h := range hs {
		c03handler(c, h)
	}
	c.Min("recover-contained", 1)
	c.Min("recover-500", 1)
}

func c03handler(c *Ctx, h *ssa.Function) {
	u := c.U
	name := "RecoveryFilter handler"
	yes := u.Bool(true)
	isNext := func(e *eng.Event) bool { return e.Callee != nil && e.Callee.Name() == "Next" && e.Kind == "call" }
	onRW := func(e *eng.Event, n string) bool {
		return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == n && e.Recv != nil &&
			(strings.HasSuffix(e.Name, "ResponseWriter)."+n) || e.Name == "(io.Writer)."+n)
	}
	escaper := func(t *eng.Term) bool {
		return callTerm(t, "html.EscapeString", "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "text/template.HTMLEscapeString", "text/template.HTMLEscaper")
	}
	var stackFn []string
	for _, n := range []string{"Stack"} {
		if f := c.FnOpt("", n); f != nil {
			stackFn = append(stackFn, eng.FuncName(f))
		}
	}
	stackFn = append(stackFn, "runtime/debug.Stack")
	nexts := 0
	r := c.Run(h, &eng.Options{
		Exact:    true,
		MaxSteps: 200000,
		Inline: func(f *ssa.Function) bool {
			return f.Name() != "Stack"
		},
		MayPanic: func(st *eng.State, e *eng.Event) bool {
			if isNext(e) {
				nexts++
				return true
			}
			return false
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			switch {
			case isNext(e):
				return true
			case e.Kind == "recover":
				st.SetVar("rec", e.Res)
				return true
			case onRW(e, "Written"), onRW(e, "Status"), onRW(e, "WriteHeader"), onRW(e, "Write"):
				return true
			case e.Kind == "call" && (strings.HasSuffix(e.Name, "http.ResponseWriter).Header")):
				return true
			}
			// anything else that could put bytes on the response
			if e.Kind == "call" && (strings.HasPrefix(e.Name, "fmt.Fprint") || strings.HasPrefix(e.Name, "io.") || strings.HasPrefix(e.Name, "net/http.")) && len(e.Args) > 0 {
				e.Tag = "out"
				return true
			}
			return false
		},
	})
	c.Check(nexts > 0, "recover-next", name, h.Pos(), "the rest of the chain is not run by the recovery handler")
	source := func(t *eng.Term) bool {
		return t.Op == eng.OOpaque && strings.HasPrefix(t.Sym, "panicval@") || callTerm(t, "builtin recover") || callTerm(t, stackFn...)
	}
	recovered := 0
	for _, x := range r.Exits {
		if x.Kind == "panic" {
			p := x.Results[0]
			own := p.Op == eng.OOpaque && strings.HasPrefix(p.Sym, "panicval@")
			c.On(x.St, !own, "recover-contained", name, h.Pos(), "a panic of the rest of the chain leaves the recovery handler")
			continue
		}
		rec := x.St.Var("rec")
		if rec == nil || x.St.IsNil(rec) == 1 || rec.IsNil() {
			// no panic: nothing is added
			for _, e := range x.St.Trace {
				c.On(x.St, !(onRW(e, "WriteHeader") || onRW(e, "Write")), "recover-quiet", name, e.Pos, "the response is changed although nothing panicked")
			}
			continue
		}
		recovered++
		c.Check(true, "recover-contained", name, h.Pos(), "")
		var head *eng.Event
		known := 0 // 1 written, -1 not
		for _, e := range x.St.Trace {
			switch {
			case onRW(e, "Written"):
				switch x.St.EvalTerm(e.Res) {
				case 1:
					known = 1
				case 0:
					known = -1
				}
			case onRW(e, "Status"):
				switch x.St.EvalTerm(u.Eq(e.Res, u.Int(0))) {
				case 0:
					known = 1
				case 1:
					known = -1
				}
			case onRW(e, "WriteHeader"):
				v, ok := e.Args[0].IntVal()
				c.On(x.St, ok && v == 500, "recover-500", name, e.Pos, "a recovered panic records status %v", e.Args[0])
				c.On(x.St, known == -1, "recover-after-write", name, e.Pos, "the status of a response that may have been written already is changed")
				head = e
			case onRW(e, "Write"), e.Tag == "out" && !isStderr(e):
				body := e.Args[len(e.Args)-1]
				if e.Tag == "out" {
					if !respArg(e) {
						continue
					}
				}
				c.On(x.St, known == -1, "recover-after-write", name, e.Pos, "bytes are added to a response that may have been written already")
				c.On(x.St, head != nil, "recover-500", name, e.Pos, "the panic page is written before the status")
				dev := false
				for _, l := range x.St.Facts() {
					if !l.Neg && l.T.Op == eng.OBin && l.T.Sym == "eq" {
						for i, a := range l.T.Args {
							if s, ok := a.StrVal(); ok && s == "dev" && isRunMode(l.T.Args[1-i]) {
								dev = true
							}
						}
					}
				}
				c.On(x.St, dev, "recover-dev-only", name, e.Pos, "panic details can be sent outside development mode")
				bad := tainted(body, source, escaper)
				c.On(x.St, bad == nil, "recover-escaped", name, e.Pos, "unescaped panic details (%v) reach the page", bad)
			}
		}
		if known != 1 {
			c.On(x.St, head != nil, "recover-500", name, h.Pos(), "a recovered panic can leave an unwritten response without status 500")
		}
	}
	c.Check(recovered > 0, "recover-contained", name, h.Pos(), "no path recovers a panic of the rest of the chain")
	_ = yes
}

func isStderr(e *eng.Event) bool {
	return len(e.Args) > 0 && eng.Any(e.Args[0], func(t *eng.Term) bool {
		g, ok := t.Obj.(*ssa.Global)
		return ok && g.Name() == "Stderr"
	})
}

// respArg: the first argument is a response writer.
func respArg(e *eng.Event) bool {
	t := eng.Strip(e.Args[0])
	return t != nil && t.Typ != nil && strings.HasSuffix(t.Typ.String(), "ResponseWriter")
}

func isRunMode(t *eng.Term) bool {
	f := fieldOf(t)
	return f != nil && strings.HasSuffix(f.Type().String(), ".Mode")
}
