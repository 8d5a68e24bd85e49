package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// strip "value of an earlier iteration" wrappers.
func noOld(u *eng.Universe, t *eng.Term) *eng.Term {
	for i := 0; i < 8; i++ {
		var f *eng.Term
		eng.Any(t, func(x *eng.Term) bool {
			if x.Op == eng.OOld {
				f = x
				return true
			}
			return false
		})
		if f == nil {
			return t
		}
		t = u.Subst(t, f, f.Args[0])
	}
	return t
}

// cellOf gives the address a value was read from (nil when it is not a load).
func cellOf(t *eng.Term) *eng.Term {
	if t != nil && t.Op == eng.OLoad {
		return t.Args[0]
	}
	return nil
}

// fieldOf gives the struct field an address or a read value names.
func fieldOf(t *eng.Term) *types.Var {
	if t == nil {
		return nil
	}
	if t.Op == eng.OLoad {
		t = t.Args[0]
	}
	if t.Op == eng.OFAddr || t.Op == eng.OField {
		v, _ := t.Obj.(*types.Var)
		return v
	}
	return nil
}

// isFieldOf: t is the address of (or a read of) field f of base.
func isFieldOf(t, base *eng.Term, f *types.Var) bool {
	if t == nil {
		return false
	}
	if t.Op == eng.OLoad {
		t = t.Args[0]
	}
	return (t.Op == eng.OFAddr || t.Op == eng.OField) && t.Obj == f && t.Args[0] == base
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// onceFact finds whether the path took the first-time branch of a sync.Once
// below base: 1 first, -1 already done, 0 not involved.
func onceFact(st *eng.State, base *eng.Term) (int, *eng.Term) {
	for _, l := range st.Facts() {
		if l.T.Op == eng.OPure && l.T.Sym == "once" && eng.Root(l.T.Args[0]) == eng.Root(base) {
			if l.Neg {
				return 1, l.T
			}
			return -1, l.T
		}
	}
	return 0, nil
}

func hasSuffix(s string, ss ...string) bool {
	for _, x := range ss {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// allFuncs lists the functions of the module that are not analysed as part of
// a function literal's parent.
func (c *Ctx) topFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.FuncsOf(pkg) {
		if f.Parent() == nil {
			out = append(out, f)
		}
	}
	return out
}

// index describes an element address &base[idx].
func index(t *eng.Term) (base, idx *eng.Term, ok bool) {
	if t == nil {
		return
	}
	if t.Op == eng.OLoad {
		t = t.Args[0]
	}
	if (t.Op == eng.OIAddr || t.Op == eng.OIndex) && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return
}

// walk describes the order in which a loop visits the elements of a list: the
// index used in the first iteration, and per instruction the index used later.
type walk struct {
	first map[ssa.Instruction]*eng.Term
	later map[ssa.Instruction]*eng.Term
}

func newWalk() *walk {
	return &walk{first: map[ssa.Instruction]*eng.Term{}, later: map[ssa.Instruction]*eng.Term{}}
}

func phiIn(t *eng.Term) (*eng.Term, *eng.Induction) {
	var p *eng.Term
	var ind *eng.Induction
	eng.Any(t, func(x *eng.Term) bool {
		if x.Op == eng.OOpaque {
			if i, ok := x.Obj.(*eng.Induction); ok {
				p, ind = x, i
				return true
			}
		}
		return false
	})
	return p, ind
}

func (w *walk) add(u *eng.Universe, in ssa.Instruction, idx *eng.Term) {
	idx = noOld(u, idx)
	if p, _ := phiIn(idx); p != nil {
		w.later[in] = idx
	} else {
		w.first[in] = idx
	}
}

// delta gives the change of the visited index from one iteration to the next.
func delta(idx *eng.Term) (int64, bool) {
	p, ind := phiIn(idx)
	if p == nil || ind == nil || !ind.HasStep {
		return 0, false
	}
	l := eng.Lin(idx)
	return l.Coeff[p] * ind.Step, l.Coeff[p] != 0
}

// entails decides L <= 0 from single facts of the path (linear, no search).
func entails(st *eng.State, u *eng.Universe, goal eng.Linear, norm func(*eng.Term) *eng.Term) bool {
	apply := func(l eng.Linear) eng.Linear {
		if norm == nil {
			return l
		}
		n := eng.Linear{C: l.C, Coeff: map[*eng.Term]int64{}}
		for t, k := range l.Coeff {
			t2 := norm(t)
			n.Coeff[t2] += k
			if n.Coeff[t2] == 0 {
				delete(n.Coeff, t2)
			}
		}
		return n
	}
	goal = apply(goal)
	if len(goal.Coeff) == 0 {
		return goal.C <= 0
	}
	sub := func(a, b eng.Linear) eng.Linear {
		n := eng.Linear{C: a.C - b.C, Coeff: map[*eng.Term]int64{}}
		for t, k := range a.Coeff {
			n.Coeff[t] += k
		}
		for t, k := range b.Coeff {
			n.Coeff[t] -= k
			if n.Coeff[t] == 0 {
				delete(n.Coeff, t)
			}
		}
		return n
	}
	// goal follows from fact <= 0 when goal - fact is a constant <= 0, or when
	// the rest is -len(..) only
	follows := func(f eng.Linear) bool {
		d := sub(goal, apply(f))
		if d.C > 0 {
			return false
		}
		for t, k := range d.Coeff {
			if !(k < 0 && t.Op == eng.OBuiltin && t.Sym == "len") {
				return false
			}
		}
		return true
	}
	if follows(eng.Linear{Coeff: map[*eng.Term]int64{}}) {
		return true
	}
	for _, l := range st.Facts() {
		t := l.T
		if t.Op != eng.OBin || len(t.Args) != 2 {
			continue
		}
		a, b := eng.Lin(t.Args[0]), eng.Lin(t.Args[1])
		switch t.Sym {
		case "lt":
			var f eng.Linear
			if !l.Neg { // a - b + 1 <= 0
				f = sub(a, b)
				f.C++
			} else { // b - a <= 0
				f = sub(b, a)
			}
			if follows(f) {
				return true
			}
		case "eq":
			if l.Neg {
				// x != 0 for lengths: 1 - len <= 0
				for _, p := range [][2]*eng.Term{{t.Args[0], t.Args[1]}, {t.Args[1], t.Args[0]}} {
					if v, ok := p[1].IntVal(); ok && v == 0 && p[0].Op == eng.OBuiltin && p[0].Sym == "len" {
						f := eng.Linear{C: 1, Coeff: map[*eng.Term]int64{p[0]: -1}}
						if follows(f) {
							return true
						}
					}
				}
				continue
			}
			if t.Args[0].Typ != nil && !isInt(t.Args[0].Typ) {
				continue
			}
			if follows(sub(a, b)) || follows(sub(b, a)) {
				return true
			}
		}
	}
	return false
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ltProved: a < b follows from one fact of the path.
func ltProved(st *eng.State, u *eng.Universe, a, b *eng.Term, norm func(*eng.Term) *eng.Term) bool {
	if norm == nil && st.EvalTerm(u.Lt(a, b)) == 1 {
		return true
	}
	l := eng.Lin(u.Bin("-", a, b, types.Typ[types.Int]))
	l.C++
	return entails(st, u, l, norm)
}

// leProved: a <= b.
func leProved(st *eng.State, u *eng.Universe, a, b *eng.Term, norm func(*eng.Term) *eng.Term) bool {
	return entails(st, u, eng.Lin(u.Bin("-", a, b, types.Typ[types.Int])), norm)
}

// normLen identifies lengths of the same list cell read at different times.
func (c *Ctx) normLen(t *eng.Term) *eng.Term {
	if t.Op == eng.OBuiltin && t.Sym == "len" {
		if cell := cellOf(t.Args[0]); cell != nil {
			return c.U.Len(c.U.LoadInit(cell))
		}
	}
	return t
}

// past: index idx is outside base, so a traversal in either direction is over.
func (c *Ctx) past(st *eng.State, idx, base *eng.Term) bool {
	if ltProved(st, c.U, idx, c.U.Int(0), c.normLen) {
		return true
	}
	return base != nil && leProved(st, c.U, c.U.Len(base), idx, c.normLen)
}
