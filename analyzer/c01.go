package main

import (
	"go/types"
	"sort"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

const (
	hWriteHeader = "(net/http.ResponseWriter).WriteHeader"
	hFlush       = "(net/http.Flusher).Flush"
	hHijack      = "(net/http.Hijacker).Hijack"
)

func init() {
	register("C01",
		"Path-sensitive dataflow over every method of every implementation of the response writer, from an arbitrary starting state: the header call on the wrapped writer is guarded by a one-shot flag shared by all methods, carries the recorded status (never 0, 200 when none was set), precedes every body write, follows the before-hooks, which are visited from the last to the first under the same flag; the recorded status is not stored to once the flag has fired; the size grows by exactly the count the wrapped writer returned; the request entry point commits the header after the handler chain.",
		"bytes on the wire as produced by net/http; writers supplied by applications",
		c01)
}

// returned field: the struct field a getter reads (nil when it computes).
func (c *Ctx) getterField(t types.Type, name string) *types.Var {
	m := c.Meth(t, name)
	r := c.Run(m, &eng.Options{})
	for _, x := range r.Exits {
		if x.Kind != "return" || len(x.Results) != 1 {
			continue
		}
		if f := fieldOf(x.Results[0]); f != nil && cellOf(x.Results[0]) != nil && cellOf(x.Results[0]).Args[0] == r.Params[0] {
			return f
		}
	}
	return nil
}

func isHTTPWrite(e *eng.Event) bool {
	return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == "Write" && (e.Name == "(net/http.ResponseWriter).Write" || e.Name == "(io.Writer).Write") && isIfaceRecv(e)
}

func isIfaceRecv(e *eng.Event) bool {
	return e.Recv != nil && e.Recv.Typ != nil && types.IsInterface(e.Recv.Typ)
}

func c01(c *Ctx) {
	itf := c.Iface(c.P.Mod, "ResponseWriter")
	hook := c.Type("", "BeforeFunc").Underlying().(*types.Signature)
	impls := c.Impls("", itf)
	c.Need(len(impls) > 0, "an implementation of ResponseWriter")
	for _, t := range impls {
		// wrappers that only embed another ResponseWriter add nothing
		if own := c.P.NamedMethod(types.NewPointer(t), "Write"); own == nil || !c.P.HasBody(own) || own.Synthetic != "" {
			continue
		}
		c01type(c, t, hook)
	}
	c.Min("header-before-body", 1)
	c.Min("header-once", 1)
	c.Min("hooks-order", 1)
	c01serve(c, impls)
}

type c01m struct {
	fn *ssa.Function
	r  *eng.Result
}

func c01type(c *Ctx, t *types.Named, hook *types.Signature) {
	u := c.U
	statusF := c.getterField(t, "Status")
	sizeF := c.getterField(t, "Size")
	tn := t.Obj().Name()
	c.Need(statusF != nil, "the recorded status of "+tn)
	c.Need(sizeF != nil, "the recorded size of "+tn)
	ms := types.NewMethodSet(types.NewPointer(t))
	var runs []c01m
	for i := 0; i < ms.Len(); i++ {
		f := c.P.SSA.MethodValue(ms.At(i))
		if f == nil || !c.P.HasBody(f) || f.Synthetic != "" || !ms.At(i).Obj().Exported() {
			continue
		}
		runs = append(runs, c01m{fn: f})
	}
	isHook := func(e *eng.Event) bool {
		if e.Kind != "call" || e.Callee != nil || e.Fn == nil || e.Fn.Typ == nil {
			return false
		}
		s, ok := e.Fn.Typ.Underlying().(*types.Signature)
		return ok && types.Identical(s, hook)
	}
	keep := func(st *eng.State, e *eng.Event) bool {
		switch {
		case e.Kind == "store":
			if f := fieldOf(e.Addr); f != nil && e.Addr.Args[0] == st.Recv() {
				if f == statusF || f == sizeF {
					// the value being replaced
					e.Args = []*eng.Term{st.Load(e.Addr)}
				}
				return true
			}
			return false
		case isHook(e), isHTTPWrite(e):
			return true
		case e.Name == hWriteHeader && isIfaceRecv(e):
			cur := st.Load(u.FAddr(st.Recv(), statusF))
			e.Tag = "other"
			if st.EqTerms(e.Args[0], cur) == 1 {
				e.Tag = "status"
			}
			if st.EvalTerm(u.Eq(e.Args[0], u.Int(0))) != 0 {
				e.Tag += "-maybe-zero"
			}
			return true
		case e.Name == hFlush, e.Name == hHijack:
			return true
		}
		return false
	}
	for i := range runs {
		runs[i].r = c.Run(runs[i].fn, &eng.Options{Event: keep, Exact: true, MaxSteps: 200000})
	}

	// the flag(s) that make sending the header a one-shot action
	var shots map[string]bool
	boolFields := map[*types.Var]bool{}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				boolFields[s.Field(i)] = true
			}
		}
	}
	// state of a one-shot on a path: 1 fired by this path, -1 already fired, 0 unknown
	shot := func(x *eng.Exit, recv *eng.Term) map[string]int {
		out := map[string]int{}
		if k, w := onceFact(x.St, recv); k != 0 {
			out["once "+w.Args[0].String()] = k
		}
		for f := range boolFields {
			init := u.LoadInit(u.FAddr(recv, f))
			switch x.St.EvalTerm(init) {
			case 1:
				out[f.Name()] = -1
			case 0:
				if x.St.EvalTerm(x.St.Load(u.FAddr(recv, f))) == 1 {
					out[f.Name()] = 1
				}
			}
		}
		return out
	}
	headers := 0
	for _, m := range runs {
		for _, x := range m.r.Exits {
			if x.Kind != "return" {
				continue
			}
			sh := shot(x, m.r.Params[0])
			for _, e := range x.St.Trace {
				if e.Name != hWriteHeader {
					continue
				}
				headers++
				cand := map[string]bool{}
				for k, v := range sh {
					if v == 1 && (shots == nil || shots[k]) {
						cand[k] = true
					}
				}
				shots = cand
				c.On(x.St, !e.Many && len(cand) > 0, "header-once", tn+"."+m.fn.Name(), e.Pos, "the header of the wrapped writer can be sent more than once")
			}
		}
	}
	c.Check(headers > 0, "header-once", tn, t.Obj().Pos(), "no method sends the header of the wrapped writer")
	// a boolean one-shot is never taken back
	fired := func(sh map[string]int, k int) bool {
		for n, v := range sh {
			if v == k && shots[n] {
				return true
			}
		}
		return false
	}
	for f := range boolFields {
		if shots[f.Name()] {
			c01reset(c, t, f)
		}
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if hasSuffix(s.Field(i).Type().String(), "sync.Once") {
				c01reset(c, t, s.Field(i))
			}
		}
	}
	// the hijacked flag: set by Hijack on success only
	var hijF *types.Var
	for _, m := range runs {
		if m.fn.Name() != "Hijack" {
			continue
		}
		for f := range boolFields {
			n, good := 0, true
			for _, x := range m.r.Exits {
				if x.Kind != "return" || len(x.Results) != 3 {
					continue
				}
				now := x.St.Load(u.FAddr(m.r.Params[0], f))
				switch x.St.IsNil(x.Results[2]) {
				case 1:
					n++
					good = good && x.St.EvalTerm(now) == 1
				default:
					if x.St.EvalTerm(now) == 1 && now.Op == eng.OConst {
						good = false
					}
				}
			}
			if n > 0 && good {
				hijF = f
			}
		}
	}
	c.Check(hijF != nil, "hijack-recorded", tn, t.Obj().Pos(), "a successful Hijack (and only that) must be remembered so that no header is sent afterwards")

	// flags known to be true once the header has been sent, without being the
	// one-shot itself (status may not change any more)
	commit := map[*types.Var]bool{}
	for f := range boolFields {
		good, n := true, 0
		for _, m := range runs {
			for _, x := range m.r.Exits {
				if x.Kind != "return" {
					continue
				}
				if !fired(shot(x, m.r.Params[0]), 1) {
					// nothing else may claim that the header was sent
					for _, e := range x.St.Trace {
						if e.Kind == "store" && fieldOf(e.Addr) == f {
							good = false
						}
					}
					continue
				}
				n++
				if x.St.EvalTerm(x.St.Load(u.FAddr(m.r.Params[0], f))) != 1 {
					good = false
				}
			}
		}
		if good && n > 0 {
			commit[f] = true
		}
	}
	for f := range commit {
		c01reset(c, t, f)
	}
	// the path starts with the header already sent
	already := func(x *eng.Exit, sh map[string]int, recv *eng.Term) bool {
		for f := range commit {
			if x.St.EvalTerm(u.LoadInit(u.FAddr(recv, f))) == 1 {
				return true
			}
		}
		return fired(sh, -1)
	}

	wk := map[*ssa.Function]*walk{}
	hookBase := map[*ssa.Function]*eng.Term{}
	for _, m := range runs {
		w := newWalk()
		wk[m.fn] = w
		for _, x := range m.r.Exits {
			for _, e := range x.St.Trace {
				if !isHook(e) {
					continue
				}
				b, i, ok := index(e.Fn)
				if c.On(x.St, ok, "hooks-order", tn+"."+m.fn.Name(), e.Pos, "the hook called is not an element of the registered list") {
					w.add(u, e.Instr, i)
					hookBase[m.fn] = b
				}
			}
		}
	}
	var names []string
	for _, m := range runs {
		recv := m.r.Params[0]
		w := wk[m.fn]
		name := tn + "." + m.fn.Name()
		names = append(names, m.fn.Name())
		// visiting order: first the last hook, then downwards
		hooked := len(w.first)+len(w.later) > 0
		if hooked {
			b := hookBase[m.fn]
			cell := cellOf(b)
			for _, idx := range w.first {
				ok := false
				if cell != nil {
					l := eng.Lin(idx)
					// len(list) - 1
					if l.C == -1 && len(l.Coeff) == 1 {
						for a, k := range l.Coeff {
							if k == 1 && a.Op == eng.OBuiltin && a.Sym == "len" && cellOf(a.Args[0]) == cell {
								ok = true
							}
						}
					}
				}
				c.Check(ok, "hooks-order", name, m.fn.Pos(), "the first hook run is the one at index %v, not the last one registered", idx)
			}
			c.Check(len(w.later) > 0, "hooks-all", name, m.fn.Pos(), "at most one hook is run")
			for _, idx := range w.later {
				d, ok := delta(idx)
				c.Check(ok && d == -1, "hooks-order", name, m.fn.Pos(), "hooks are not visited one by one from the last to the first (index %v)", idx)
			}
		}
		for _, x := range m.r.Exits {
			if x.Kind != "return" {
				continue
			}
			sh := shot(x, recv)
			sent, wrote := false, false
			nhooks := 0
			var grow []*eng.Term
			for _, e := range x.St.Trace {
				switch {
				case isHook(e):
					nhooks++
					c.On(x.St, fired(sh, 1), "hooks-once", name, e.Pos, "before-hooks can run more than once")
					c.On(x.St, !sent && !wrote, "hooks-first", name, e.Pos, "a before-hook runs after the header was sent")
					good := len(e.Args) == 1 && stripIface(e.Args[0]) == recv
					c.On(x.St, good, "hooks-arg", name, e.Pos, "the hook is not given this response writer")
				case e.Name == hWriteHeader:
					sent = true
					c.On(x.St, e.Tag == "status", "header-status", name, e.Pos, "the status sent (%v) is not the recorded, non-zero status (%s)", e.Args[0], e.Tag)
					if hijF != nil {
						c.On(x.St, x.St.EvalTerm(x.St.Load(u.FAddr(recv, hijF))) == 0, "header-hijacked", name, e.Pos, "the header can be sent on a hijacked connection")
					}
					c.On(x.St, recvIsField(e.Recv, recv), "header-target", name, e.Pos, "the header is not sent through the wrapped writer")
				case isHTTPWrite(e):
					wrote = true
					hij := hijF != nil && x.St.EvalTerm(x.St.Load(u.FAddr(recv, hijF))) == 1
					c.On(x.St, sent || already(x, sh, recv) || hij, "header-before-body", name, e.Pos, "the body can be written before the recorded status is sent")
					c.On(x.St, recvIsField(e.Recv, recv), "body-target", name, e.Pos, "the body is not written through the wrapped writer")
					grow = append(grow, x.St.Ext(e.Res, 0))
					c.On(x.St, !e.Many, "body-once", name, e.Pos, "the body can be written repeatedly")
				case e.Name == hFlush:
					c.On(x.St, already(x, sh, recv) || fired(sh, 1), "flush-commits", name, e.Pos, "the wrapped writer is flushed before the recorded status was sent")
				case e.Kind == "store" && fieldOf(e.Addr) == statusF:
					ok := false
					if fired(sh, 1) && !sent {
						// filling in the default inside the one-shot section
						v, isC := e.Val.IntVal()
						ok = isC && v == 200 && x.St.EvalTerm(u.Eq(e.Args[0], u.Int(0))) == 1
						c.On(x.St, ok, "status-default", name, e.Pos, "while sending, the status is changed to %v where it was %v", e.Val, e.Args[0])
						continue
					}
					for f := range commit {
						if x.St.EvalTerm(u.LoadInit(u.FAddr(recv, f))) == 0 {
							ok = true
						}
					}
					c.On(x.St, ok && !sent, "status-frozen", name, e.Pos, "the recorded status can change after the header was sent")
					c.On(x.St, m.fn.Name() == "WriteHeader" && len(m.r.Params) == 2 && e.Val == m.r.Params[1], "status-value", name, e.Pos, "the recorded status becomes %v", e.Val)
				}
			}
			// every registered hook was visited when the header is committed here
			if fired(sh, 1) && hookListKnown(hookBase) {
				ok := false
				idxs := w.first
				if nhooks > 0 {
					for _, e := range x.St.Trace {
						if isHook(e) {
							_, i, _ := index(e.Fn)
							if p, _ := phiIn(i); p != nil || e.Many || nhooks == 1 {
								idxs = w.later
							}
						}
					}
				}
				for _, idx := range idxs {
					if c.past(x.St, idx, hookBase[m.fn]) {
						ok = true
					}
				}
				c.On(x.St, ok, "hooks-all", name, m.fn.Pos(), "the header can be committed before every registered hook has run")
			}
			// size
			want, got := u.Int(0), u.Int(0)
			for _, g := range grow {
				want = u.Bin("+", want, g, types.Typ[types.Int])
			}
			for _, e := range x.St.Trace {
				if e.Kind == "store" && fieldOf(e.Addr) == sizeF {
					got = u.Bin("+", got, u.Bin("-", e.Val, e.Args[0], types.Typ[types.Int]), types.Typ[types.Int])
				}
			}
			c.On(x.St, sameSum(got, want), "size-counts", name, m.fn.Pos(), "the size grows by %v, expected %v", got, want)
			switch m.fn.Name() {
			case "Write":
				c.On(x.St, wrote, "body-written", name, m.fn.Pos(), "Write returns without passing the body on")
				if wrote && len(x.Results) == 2 {
					for _, e := range x.St.Trace {
						if isHTTPWrite(e) {
							c.On(x.St, x.Results[0] == x.St.Ext(e.Res, 0) && x.Results[1] == x.St.Ext(e.Res, 1), "body-result", name, e.Pos, "Write does not return what the wrapped writer returned")
							c.On(x.St, len(e.Args) == 1 && e.Args[0] == m.r.Params[1], "body-bytes", name, e.Pos, "the bytes passed on are not the bytes given")
						}
					}
				}
				c.On(x.St, fired(sh, 1) || already(x, sh, recv), "header-before-body", name, m.fn.Pos(), "Write can return without having committed the header")
			case "WriteHeader":
				now := x.St.Load(u.FAddr(recv, statusF))
				free := false
				for f := range commit {
					if x.St.EvalTerm(u.LoadInit(u.FAddr(recv, f))) == 0 {
						free = true
					}
				}
				if free && len(m.r.Params) == 2 {
					c.On(x.St, x.St.EqTerms(now, m.r.Params[1]) == 1, "status-recorded", name, m.fn.Pos(), "WriteHeader before anything was sent does not record the given status")
				}
			case "Written":
				if len(x.Results) == 1 {
					l := u.Canon(x.Results[0])
					want := u.Canon(u.Eq(u.LoadInit(u.FAddr(recv, statusF)), u.Int(0)))
					ok := l.T == want.T && l.Neg != want.Neg || x.St.EvalTerm(x.Results[0]) != -1 && x.St.EvalTerm(x.Results[0]) == 1-x.St.Eval(want) && x.St.Eval(want) != -1
					c.On(x.St, ok, "written", name, m.fn.Pos(), "Written is not \"a status has been recorded\"")
				}
			case "Flush":
				did := false
				for _, e := range x.St.Trace {
					if e.Name == hFlush {
						did = true
					}
				}
				if !did {
					// only when the wrapped writer cannot flush
					no := false
					for _, l := range x.St.Facts() {
						if l.T.Op == eng.OIs && l.Neg {
							no = true
						}
					}
					c.On(x.St, no, "flush-forwarded", name, m.fn.Pos(), "Flush can return without flushing a writer that supports it")
				}
			case "Before":
				ok := false
				for _, e := range x.St.Trace {
					if e.Kind == "store" && eng.Any(e.Val, func(z *eng.Term) bool { return z == m.r.Params[1] }) {
						if f := fieldOf(e.Addr); f != nil && appendedLast(x.St, e.Val, u.LoadInit(u.FAddr(recv, f)), m.r.Params[1]) {
							ok = true
						}
					}
				}
				c.On(x.St, ok, "hooks-registered", name, m.fn.Pos(), "Before does not add the hook at the end of the list")
			}
		}
	}
	sort.Strings(names)
}

func hookListKnown(m map[*ssa.Function]*eng.Term) bool { return len(m) > 0 }

func stripIface(t *eng.Term) *eng.Term { return eng.Strip(t) }

// recvIsField: the receiver of the call is (a type assertion on) a field of base.
func recvIsField(t, base *eng.Term) bool {
	for t != nil {
		if t.Op == eng.OTA {
			t = t.Args[0]
			continue
		}
		c := cellOf(t)
		return c != nil && c.Op == eng.OFAddr && c.Args[0] == base
	}
	return false
}

func sameSum(a, b *eng.Term) bool {
	x, y := eng.Lin(a), eng.Lin(b)
	if x.C != y.C || len(x.Coeff) != len(y.Coeff) {
		return false
	}
	for k, v := range x.Coeff {
		if y.Coeff[k] != v {
			return false
		}
	}
	return true
}

// appendedLast: v is append(old, x).
func appendedLast(st *eng.State, v, old, x *eng.Term) bool {
	if v.Op == eng.OBuiltin && v.Sym == "append" && len(v.Args) >= 2 && v.Args[0] == old {
		last := v.Args[len(v.Args)-1]
		if last == x {
			return true
		}
		if es, ok := st.Elems(last); ok && len(es) > 0 && es[len(es)-1] == x {
			return true
		}
	}
	if es, ok := st.Elems(v); ok && len(es) > 0 && es[len(es)-1] == x {
		return true
	}
	return false
}

// c01reset: nothing in the module clears a flag once it was set.
func c01reset(c *Ctx, t *types.Named, f *types.Var) {
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOf(fa.X.Type())
				if st == nil || st.Field(fa.Field) != f {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				k, isC := s.Val.(*ssa.Const)
				c.Check(isC && k.Value != nil && k.Value.String() == "true", "flag-kept", t.Obj().Name()+" in "+eng.FuncName(fn), s.Pos(), "a flag recording that the header was sent can be cleared")
			}
		}
	}
}

// c01serve: the request entry point commits the header after the chain ran.
func c01serve(c *Ctx, impls []*types.Named) {
	serve := c.Meth(c.Type("", "Strip"), "ServeHTTP")
	runs := c.invokers()
	isT := map[string]bool{}
	for _, t := range impls {
		isT[t.Obj().Name()] = true
	}
	wr := func(e *eng.Event) bool {
		return e.Recv != nil && e.Callee != nil && (e.Callee.Name() == "Write" || e.Callee.Name() == "Flush")
	}
	r := c.Run(serve, &eng.Options{
		Inline: func(f *ssa.Function) bool {
			return !runs[f] && !hasSuffix(f.RelString(nil), ").Write", ").Flush", ").WriteHeader")
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" && (wr(e) || runs[target(e)])
		},
	})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		ran, done := false, false
		for _, e := range x.St.Trace {
			if runs[target(e)] {
				ran, done = true, false
			} else if wr(e) {
				done = true
				if e.Callee.Name() == "Write" && len(e.Args) == 1 && ran {
					n := x.St.EvalTerm(c.U.Eq(c.U.Len(e.Args[0]), c.U.Int(0)))
					c.On(x.St, n == 1 || e.Args[0].IsNil(), "serve-body", "ServeHTTP", e.Pos, "bytes are added to the response after the handlers")
				}
			}
		}
		c.On(x.St, ran, "serve-runs", "ServeHTTP", serve.Pos(), "a request can be answered without running the handler chain")
		c.On(x.St, done, "serve-commits", "ServeHTTP", serve.Pos(), "ServeHTTP can return without committing the recorded status")
	}
	c.Min("serve-commits", 1)
}

func target(e *eng.Event) *ssa.Function {
	if e.Fn == nil {
		return nil
	}
	f, _ := e.Fn.Obj.(*ssa.Function)
	return f
}

// invokers: module functions from which a handler is invoked through the
// injector (statically reachable calls).
func (c *Ctx) invokers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() != c.P.Mod || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					com := call.Common()
					if com.IsInvoke() && com.Method.Name() == "Invoke" {
						out[f] = true
					}
					if g := com.StaticCallee(); g != nil && g.Name() == "Invoke" && g.Signature.Recv() != nil {
						out[f] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.Funcs {
			if out[f] || f.Parent() != nil || f.Pkg == nil || f.Pkg.Pkg.Path() != c.P.Mod {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil && out[g] && f.Signature.Recv() != nil && f.Name() != "ServeHTTP" {
							out[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return out
}
