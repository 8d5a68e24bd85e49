package main

import (
	"go/token"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

// results gives the result types of a call event.
func results(e *eng.Event) *types.Tuple {
	if x, ok := e.Instr.(ssa.CallInstruction); ok {
		return x.Common().Signature().Results()
	}
	return nil
}

// resAt gives the i-th result of a call event.
func resAt(st *eng.State, e *eng.Event, i int) *eng.Term {
	r := results(e)
	if r == nil || e.Res == nil || i >= r.Len() {
		return nil
	}
	if r.Len() == 1 {
		return e.Res
	}
	return st.Ext(e.Res, i)
}

// errOf gives the error a call returned (nil when it returns none).
func errOf(st *eng.State, e *eng.Event) *eng.Term {
	r := results(e)
	if r == nil || r.Len() == 0 || !types.Identical(r.At(r.Len()-1).Type(), errorType) {
		return nil
	}
	return resAt(st, e, r.Len()-1)
}

// errKept: the errors of the calls on this path are nil or reported by res.
// which selects the calls; res is nil where the path goes on.
func (c *Ctx) errKept(st *eng.State, res *eng.Term, rule, construct string, pos token.Pos, which func(e *eng.Event) bool, excuse func(st *eng.State, e *eng.Event, err *eng.Term) bool) {
	for _, e := range st.Trace {
		if e.Kind != "call" || !which(e) {
			continue
		}
		err := errOf(st, e)
		if err == nil {
			continue
		}
		ok := st.IsNil(err) == 1 || excuse != nil && excuse(st, e, err)
		if !ok && res != nil {
			ok = reports(st, res, err)
		}
		c.On(st, ok, rule, construct, pos, "the failure of %s is not reported", shortName(e))
	}
}

// reports: res is not nil whenever err is not.
func reports(st *eng.State, res, err *eng.Term) bool {
	return eng.Any(res, func(y *eng.Term) bool { return y == err }) && (res == err || newError(st, res)) || st.IsNil(res) == 0 || newError(st, res)
}

// newError: an error value that is never nil.
func newError(st *eng.State, t *eng.Term) bool {
	if t == nil {
		return false
	}
	if st.IsNil(t) == 0 {
		return true
	}
	s := eng.Strip(t)
	if s.Op == eng.OLoad && s.Args[0].Op == eng.OGlobal {
		return true // a package variable holding an error
	}
	return callTerm(s, "fmt.Errorf") || callTerm(s, "errors.New") || s.Op == eng.OIface || s.Op == eng.ORet && (strings.HasPrefix(s.Sym, "fmt.Errorf@") || strings.HasPrefix(s.Sym, "errors.New@"))
}

func shortName(e *eng.Event) string {
	n := e.Name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	if n == "" {
		return "a call"
	}
	return n
}

// calls: the function contains a call of a function with one of the names.
func callsNamed(f *ssa.Function, names ...string) bool {
	hit := false
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if x.Common().IsInvoke() {
					n = x.Common().Method.FullName()
				} else if h := x.Common().StaticCallee(); h != nil {
					n = eng.FuncName(h)
				}
				for _, w := range names {
					hit = hit || n == w
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return hit
}

func tid(a, b types.Type) bool { return types.Identical(a, b) }

// hasFact looks a fact up: 1 it holds, 0 its negation holds, -1 unknown.
func hasFact(st *eng.State, pred func(t *eng.Term) bool) int {
	for _, l := range st.Facts() {
		if pred(l.T) {
			return b2i(!l.Neg)
		}
	}
	return -1
}

// eqFact finds whether a comparison of something satisfying a with something
// satisfying b is known.
func eqFact(st *eng.State, a, b func(t *eng.Term) bool) int {
	return hasFact(st, func(t *eng.Term) bool {
		return t.Op == eng.OBin && t.Sym == "eq" && (a(t.Args[0]) && b(t.Args[1]) || a(t.Args[1]) && b(t.Args[0]))
	})
}

func isStrFn(s string) func(*eng.Term) bool {
	return func(t *eng.Term) bool { return isStr(t, s) }
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// contents gives the list t holds the elements of: copies of a list and parts
// that are the whole of it are looked through.
func contents(st *eng.State, u *eng.Universe, t *eng.Term) *eng.Term {
	length := func(t *eng.Term) *eng.Term {
		if t = bare(t); t.Op == eng.OAlloc && len(t.Args) > 0 {
			if _, ok := t.Obj.(*ssa.MakeSlice); ok {
				return t.Args[0]
			}
		}
		return u.Len(t)
	}
	for i := 0; i < 8; i++ {
		t = bare(t)
		switch {
		case t.Op == eng.OSlice && len(t.Args) >= 3:
			if lo := t.Args[1]; !noBound(lo) && !isZero(lo) {
				return t
			}
			in := bare(t.Args[0])
			hi := t.Args[2]
			switch {
			case noBound(hi) || same(eng.Lin(hi), eng.Lin(length(in))):
				t = in
			case in.Op == eng.OBuiltin && in.Sym == "append" && len(in.Args) > 0 && same(eng.Lin(hi), eng.Lin(length(contents(st, u, in.Args[0])))):
				t = in.Args[0]
			default:
				return t
			}
		case t.Op == eng.OBuiltin && t.Sym == "append" && len(t.Args) == 2:
			to, more := bare(t.Args[0]), bare(t.Args[1])
			switch {
			case to.IsNil() || isZero(length(to)):
				t = more
			case more.IsNil() || isZero(length(more)):
				t = to
			default:
				return t
			}
		case callTerm(t, "slices.Clone", "slices.Clip") && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == eng.OAlloc:
			// made as long as a list, and filled from it
			var from *eng.Term
			for _, e := range st.Trace {
				if e.Kind == "copy" && len(e.Args) == 2 && bare(e.Args[0]) == t && same(eng.Lin(length(t)), eng.Lin(length(e.Args[1]))) {
					from = e.Args[1]
				}
				if e.Kind == "store" && e.Addr.Op == eng.OIAddr && bare(e.Addr.Args[0]) == t {
					return t
				}
			}
			if from == nil {
				return t
			}
			t = from
		default:
			return t
		}
	}
	return t
}
