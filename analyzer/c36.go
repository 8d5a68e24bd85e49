package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36",
		"every loop of the module (found as a natural loop of the compiled functions) has a condition that every round passes and that leaves the loop, together with a measure every way round brings strictly closer to it: a counter that only moves towards a bound nothing in the loop moves away, a list or text that gets strictly shorter, a link that is only ever set in new objects, a reader that is read from with its end noticed, an integer divided by two or more; every function that can call itself does so with a shorter list, a part of what it was given, a level that is limited, or behind a check of what is being worked on already",
		"waiting on the network, locks, channels or code of the user's handlers; pointers and injectors tied to themselves by the program; calls made later by timers; running time",
		c36)
}

const inf = math.MaxInt32

// span2 is how much a value can change over one round.
type span2 struct {
	lo, hi int64
	ok     bool
}

func clampInf(x int64) int64 {
	if x > inf {
		return inf
	}
	if x < -inf {
		return -inf
	}
	return x
}

func exact2(k int64) span2 { return span2{k, k, true} }

func (a span2) plus(b span2) span2 {
	if !a.ok || !b.ok {
		return span2{}
	}
	lo, hi := clampInf(a.lo+b.lo), clampInf(a.hi+b.hi)
	if a.lo <= -inf || b.lo <= -inf {
		lo = -inf
	}
	if a.hi >= inf || b.hi >= inf {
		hi = inf
	}
	return span2{lo, hi, true}
}

func (a span2) neg() span2 { return span2{-a.hi, -a.lo, a.ok} }

func (a span2) join(b span2) span2 {
	if !a.ok || !b.ok {
		return span2{}
	}
	if b.lo < a.lo {
		a.lo = b.lo
	}
	if b.hi > a.hi {
		a.hi = b.hi
	}
	return a
}

type natLoop struct {
	f       *ssa.Function
	head    *ssa.BasicBlock
	in      map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func naturalLoops(f *ssa.Function) (out []*natLoop) {
	for _, h := range f.Blocks {
		l := &natLoop{f: f, head: h, in: map[*ssa.BasicBlock]bool{h: true}}
		var work []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				l.latches = append(l.latches, p)
				if !l.in[p] {
					l.in[p] = true
					work = append(work, p)
				}
			}
		}
		if len(l.latches) == 0 {
			continue
		}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			for _, p := range b.Preds {
				if !l.in[p] {
					l.in[p] = true
					work = append(work, p)
				}
			}
		}
		out = append(out, l)
	}
	return
}

// every: each round passes through b.
func (l *natLoop) every(b *ssa.BasicBlock) bool {
	for _, p := range l.latches {
		if !b.Dominates(p) {
			return false
		}
	}
	return true
}

// loopCheck decides one loop.
type loopCheck struct {
	*c36state
	*natLoop
	busy  map[ssa.Value]bool
	at    []edge                              // ways known to be taken in the round at hand
	route map[*ssa.BasicBlock]*ssa.BasicBlock // block -> the block it is come to from
	base  ssa.Value                           // the variable a round is measured by
	all   []map[*ssa.BasicBlock]*ssa.BasicBlock
	given ssa.Value // a text or list known not to be empty
}

// notThis: the round goes on only where the call returned another way.
func (l *loopCheck) notThis(x *ssa.Call, r *ssa.Return) bool {
	for _, u := range *x.Referrers() {
		e, ok := u.(*ssa.Extract)
		if !ok || e.Index >= len(r.Results) {
			continue
		}
		if k, ok := r.Results[e.Index].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && l.saysOn(e, !constant.BoolVal(k.Value)) {
			return true
		}
	}
	return false
}

type edge struct{ from, to *ssa.BasicBlock }

type c36state struct {
	c      *Ctx
	stores map[*types.Var][]*ssa.Store // field -> stores in the module
	next   func(f *ssa.Function) []*ssa.Function
	unk    map[*ssa.Function]bool // calls something unknown
	reach  map[*ssa.Function]map[*ssa.Function]bool
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldVar gives the field an address stands for.
func addrVar(v ssa.Value) *types.Var {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return s.Field(fa.Field)
}

// place resolves an address to the variable it is: a local cell, a captured
// cell (shared by the closures), or a global.
func (s *c36state) place(v ssa.Value) ssa.Value {
	for i := 0; i < 8; i++ {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		f := fv.Parent()
		idx := -1
		for i, x := range f.FreeVars {
			if x == fv {
				idx = i
			}
		}
		var got ssa.Value
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					got = mc.Bindings[idx]
				}
			}
		}
		if got == nil {
			return v
		}
		v = got
	}
	return v
}

// storesTo lists the stores to a local or captured cell, everywhere.
func (s *c36state) storesTo(cell ssa.Value) (out []*ssa.Store, known bool) {
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	known = true
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				} else {
					known = false
				}
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						visit(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				known = false // its address goes elsewhere
			}
		}
	}
	visit(al)
	return
}

// calledIn lists the module functions a loop may run, and whether it may run
// anything at all.
func (l *loopCheck) calledIn() (fs map[*ssa.Function]bool, any bool) {
	fs = map[*ssa.Function]bool{}
	for b := range l.in {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				gs, unknown := l.targets(ci)
				any = any || unknown
				for _, g := range gs {
					fs[g] = true
					for h := range l.reachable(g) {
						fs[h] = true
					}
				}
			}
		}
	}
	for g := range fs {
		any = any || l.unk[g]
	}
	return
}

func (s *c36state) reachable(f *ssa.Function) map[*ssa.Function]bool {
	if m := s.reach[f]; m != nil {
		return m
	}
	m := map[*ssa.Function]bool{}
	s.reach[f] = m
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for _, h := range s.next(g) {
			if !m[h] {
				m[h] = true
				work = append(work, h)
			}
		}
	}
	return m
}

// targets gives the functions of the module a call runs; unknown: it may run
// code of others that can call back.
func (s *c36state) targets(ci ssa.CallInstruction) (out []*ssa.Function, unknown bool) {
	com := ci.Common()
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && s.c.inModule(f) {
			out = append(out, f)
		}
	}
	if com.IsInvoke() {
		pkg := com.Method.Pkg()
		if pkg == nil || !s.c.modulePkg(pkg) {
			// methods of foreign interfaces: readers, reflect types, writers
			return nil, pkg == nil || pkg.Path() != "reflect"
		}
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		for _, f := range s.c.P.Funcs {
			if f.Name() != com.Method.Name() || f.Signature.Recv() == nil || it == nil {
				continue
			}
			if types.Implements(f.Signature.Recv().Type(), it) {
				add(f)
			}
		}
		return out, true
	}
	switch v := com.Value.(type) {
	case *ssa.Builtin:
		return nil, false
	case *ssa.Function:
		add(v)
		if out == nil {
			// functions of libraries call back what they are given
			for _, a := range com.Args {
				if f := funcOf(a); f != nil && !strings.HasPrefix(v.String(), "time.AfterFunc") {
					add(f)
				}
			}
			return out, strings.HasPrefix(v.String(), "(reflect.Value).Call") || strings.HasPrefix(v.String(), "(reflect.Value).Method")
		}
		return out, false
	}
	fs := s.funcsIn(com.Value)
	if fs == nil {
		return nil, true
	}
	for _, f := range fs {
		add(f)
	}
	return out, false
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(x.X)
	case *ssa.MakeInterface:
		return funcOf(x.X)
	}
	return nil
}

// funcsIn gives the functions a value can only be.
func (s *c36state) funcsIn(v ssa.Value) []*ssa.Function {
	if f := funcOf(v); f != nil {
		return []*ssa.Function{f}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		sts, known := s.storesTo(s.place(u.X))
		if !known {
			return nil
		}
		var out []*ssa.Function
		for _, st := range sts {
			if k, ok := st.Val.(*ssa.Const); ok && k.IsNil() {
				continue
			}
			f := funcOf(st.Val)
			if f == nil {
				return nil
			}
			out = append(out, f)
		}
		return out
	}
	return nil
}

func (c *Ctx) modulePkg(p *types.Package) bool {
	root := c.P.Pkg("").Pkg.Path()
	return p.Path() == root || strings.HasPrefix(p.Path(), root+"/")
}

func (c *Ctx) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && c.modulePkg(f.Pkg.Pkg)
}

// outside: the value is made before the loop.
func (l *loopCheck) outside(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return true
	}
	in, ok := v.(ssa.Instruction)
	return ok && !l.in[in.Block()]
}

func intConst(v ssa.Value) (int64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

func strConst(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// carried: v is what the variable is at the start of a round.
func (l *loopCheck) carried(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == l.head
}

// ways gives what a carried value becomes on each way round.
func (l *loopCheck) ways(p *ssa.Phi) (out []ssa.Value) {
	for i, b := range l.head.Preds {
		if l.in[b] {
			out = append(out, p.Edges[i])
		}
	}
	return
}

// change gives how far integer v is from the value at the start of the round
// of the same variable: v = base + span.
func (l *loopCheck) change(v ssa.Value, same func(ssa.Value) bool) span2 {
	if same(v) {
		return exact2(0)
	}
	if l.outside(v) {
		return span2{}
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			if d := l.change(x.X, same); d.ok {
				return d.plus(l.sign(x.Y))
			}
			if d := l.change(x.Y, same); d.ok {
				return d.plus(l.sign(x.X))
			}
		case token.SUB:
			if d := l.change(x.X, same); d.ok {
				return d.plus(l.sign(x.Y).neg())
			}
		case token.QUO, token.SHR:
			// a part of what is there
			if k, ok := intConst(x.Y); ok && same(x.X) && (k >= 2 || k == 1 && x.Op == token.SHR) && l.least(x.X, 1) {
				return span2{-inf, -1, true}
			}
		case token.AND:
			if y, ok := x.Y.(*ssa.BinOp); ok && same(x.X) && y.Op == token.SUB && y.X == x.X && l.least(x.X, 1) {
				if k, ok := intConst(y.Y); ok && k == 1 {
					return span2{-inf, -1, true}
				}
			}
		}
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) {
			return l.change(x.X, same)
		}
	case *ssa.ChangeType:
		return l.change(x.X, same)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") {
			var d span2
			for i, a := range x.Call.Args {
				e := l.change(a, same)
				if i == 0 {
					d = e
				} else if e.ok {
					d = d.join(e)
				} else {
					return span2{}
				}
			}
			return d
		}
		return l.viaCall(x, 0, func(m *loopCheck) func(ssa.Value, func(ssa.Value) bool) span2 { return m.change }, same)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return l.viaCall(cl, x.Index, func(m *loopCheck) func(ssa.Value, func(ssa.Value) bool) span2 { return m.change }, same)
		}
	case *ssa.Phi:
		if l.busy[x] {
			return span2{}
		}
		l.busy[x] = true
		defer delete(l.busy, x)
		inner := false
		for _, p := range x.Block().Preds {
			inner = inner || x.Block().Dominates(p)
		}
		var d span2
		first := true
		for i, p := range x.Block().Preds {
			if inner && x.Block().Dominates(p) || !l.onRoute(x.Block(), p) {
				continue
			}
			done := l.pass(p, x.Block())
			e := l.change(x.Edges[i], same)
			done()
			if !e.ok {
				return span2{}
			}
			if first {
				d, first = e, false
			} else {
				d = d.join(e)
			}
		}
		if inner {
			for i, p := range x.Block().Preds {
				if !x.Block().Dominates(p) {
					continue
				}
				done := l.apart(p, x.Block())
				e := l.change(x.Edges[i], func(v ssa.Value) bool { return v == x })
				done()
				if !e.ok {
					return span2{}
				}
				if e.hi > 0 {
					d.hi = inf
				}
				if e.lo < 0 {
					d.lo = -inf
				}
			}
		}
		return d
	}
	return span2{}
}

// viaCall measures what a function of the module makes of what it is given.
func (l *loopCheck) viaCall(x *ssa.Call, res int, by func(m *loopCheck) func(ssa.Value, func(ssa.Value) bool) span2, same func(ssa.Value) bool) (d span2) {
	g := x.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !l.c.inModule(g) || l.busy[g] {
		return
	}
	l.busy[g] = true
	defer delete(l.busy, g)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		all[b] = true
	}
	first := true
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if res >= len(r.Results) {
			return span2{}
		}
		if l.notThis(x, r) {
			continue
		}
		best := span2{}
		for i, p := range g.Params {
			if i >= len(x.Call.Args) {
				break
			}
			a := by(l)(x.Call.Args[i], same)
			if !a.ok {
				continue
			}
			m := &loopCheck{c36state: l.c36state, natLoop: &natLoop{f: g, head: g.Blocks[0], in: all}, busy: map[ssa.Value]bool{g: true}, base: p}
			m.at = []edge{{from: b}}
			if l.notEmpty(x.Call.Args[i]) {
				m.given = p
			}
			if e := by(m)(r.Results[res], func(v ssa.Value) bool { return v == p }); e.ok {
				best = e.plus(a)
				break
			}
		}
		if !best.ok {
			return span2{}
		}
		if first {
			d, first = best, false
		} else {
			d = d.join(best)
		}
	}
	return
}

// sign bounds an integer as far as its form tells.
func (l *loopCheck) sign(v ssa.Value) span2 {
	if k, ok := intConst(v); ok {
		return exact2(k)
	}
	full := span2{-inf, inf, true}
	nonneg := span2{0, inf, true}
	if l.least(v, 1) {
		return span2{1, inf, true}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if l.busy[x] || !l.in[x.Block()] || x.Block() == l.head {
			break
		}
		l.busy[x] = true
		defer delete(l.busy, x)
		d, first := full, true
		for i, p := range x.Block().Preds {
			if x.Block().Dominates(p) {
				return full
			}
			if !l.onRoute(x.Block(), p) {
				continue
			}
			done := l.pass(p, x.Block())
			e := l.sign(x.Edges[i])
			done()
			if first {
				d, first = e, false
			} else {
				d = d.join(e)
			}
		}
		if d.lo < 0 && l.found(v) {
			d.lo = 0
		}
		return d
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if s, ok := strConst(x.Call.Args[0]); ok {
				return exact2(int64(len(s)))
			}
			return nonneg
		}
		if f := x.Call.StaticCallee(); f != nil && strings.Contains(f.Name(), "Index") && l.found(x) {
			return nonneg
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "unicode/utf8.Decode") && x.Index == 1 {
				return span2{1, 4, true}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return l.sign(x.X).plus(l.sign(x.Y))
		case token.SUB:
			return l.sign(x.X).plus(l.sign(x.Y).neg())
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return nonneg
		}
		if isInt(x.X.Type()) {
			return l.sign(x.X)
		}
	}
	if l.found(v) {
		return nonneg
	}
	return full
}

// found: v is known not to be negative wherever a round goes on from it.
func (l *loopCheck) found(v ssa.Value) bool { return l.least(v, 0) }

// least: v is known to be k or more wherever a round goes on from it.
func (l *loopCheck) least(v ssa.Value, k int64) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	never := isNat(v)
	for _, r := range *refs {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := b.Op
		n, ok := intConst(b.Y)
		if b.X != v || !ok {
			if n, ok = intConst(b.X); b.Y != v || !ok {
				continue
			}
			op = turned[op]
		}
		yes, no := false, false // which outcome says v >= k
		switch op {
		case token.GEQ:
			yes = n >= k
		case token.GTR:
			yes = n >= k-1
		case token.LSS:
			no = n >= k
		case token.LEQ:
			no = n >= k-1
		case token.EQL:
			no = n == -1 && k <= 0 || never && n == 0 && k <= 1
			yes = n >= k
		case token.NEQ:
			yes = n == -1 && k <= 0 || never && n == 0 && k <= 1
			no = n >= k
		}
		for _, u := range *b.Referrers() {
			br, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			if yes && l.takes(br, 0) || no && l.takes(br, 1) {
				return true
			}
		}
	}
	return false
}

var turned = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// isNat: a value that is never negative.
func isNat(v ssa.Value) bool {
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}

// mustTake: rounds that go on leave br by the given way.
func (l *loopCheck) mustTake(br *ssa.If, way int) bool {
	b := br.Block()
	if len(l.latches) == 0 || !l.in[b] || !l.every(b) {
		return false
	}
	return !l.goesOn(b.Succs[1-way])
}

// takes: the round at hand left br by the given way, as every round does or
// because of where it got to.
func (l *loopCheck) takes(br *ssa.If, way int) bool {
	if l.mustTake(br, way) {
		return true
	}
	b := br.Block()
	if !l.in[b] || b.Succs[0] == b.Succs[1] {
		return false
	}
	ok := func(e edge) bool {
		if b == e.from {
			return e.to != nil && b.Succs[way] == e.to && b.Succs[1-way] != e.to
		}
		return b.Dominates(e.from) && !l.leadsTo(b.Succs[1-way], e.from)
	}
	for _, e := range l.at {
		if ok(e) {
			return true
		}
	}
	for to, from := range l.route {
		if ok(edge{from, to}) {
			return true
		}
	}
	return false
}

// leadsTo: within a round, control can get from b to the other block.
func (l *loopCheck) leadsTo(b, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || !l.in[b] || len(l.latches) > 0 && b == l.head {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(b)
}

// pass adds a way taken in the round, apart looks at a way alone.
func (l *loopCheck) pass(from, to *ssa.BasicBlock) func() {
	was := l.at
	l.at = append(was[:len(was):len(was)], edge{from, to})
	return func() { l.at = was }
}

func (l *loopCheck) apart(from, to *ssa.BasicBlock) func() {
	at, route, base := l.at, l.route, l.base
	l.at, l.route, l.base = []edge{{from, to}}, nil, nil
	return func() { l.at, l.route, l.base = at, route, base }
}

func (l *loopCheck) onRoute(b, p *ssa.BasicBlock) bool {
	q := l.route[b]
	return q == nil || q == p
}

// eachEdge joins what the ways round make of a carried value.
func (l *loopCheck) eachEdge(x *ssa.Phi, by func(w ssa.Value) span2) (d span2) {
	first := true
	for i, p := range l.head.Preds {
		if !l.in[p] || !l.onRoute(l.head, p) {
			continue
		}
		done := l.pass(p, l.head)
		e := by(x.Edges[i])
		done()
		if first {
			d, first = e, false
		} else {
			d = d.join(e)
		}
	}
	return
}

// routes lists the ways round the loop, told apart where they meet.
func (l *loopCheck) routes() (out []map[*ssa.BasicBlock]*ssa.BasicBlock) {
	if l.all != nil {
		return l.all
	}
	var back func(b *ssa.BasicBlock, got map[*ssa.BasicBlock]*ssa.BasicBlock)
	back = func(b *ssa.BasicBlock, got map[*ssa.BasicBlock]*ssa.BasicBlock) {
		if len(out) > 256 {
			return
		}
		for b != l.head {
			var ps []*ssa.BasicBlock
			inner := false
			for _, p := range b.Preds {
				if b.Dominates(p) {
					inner = true
				}
				ps = append(ps, p)
			}
			if inner || len(ps) == 0 {
				b = b.Idom()
				continue
			}
			if len(ps) == 1 {
				b = ps[0]
				continue
			}
			for _, p := range ps {
				next := map[*ssa.BasicBlock]*ssa.BasicBlock{b: p}
				for k, v := range got {
					next[k] = v
				}
				back(p, next)
			}
			return
		}
		out = append(out, got)
	}
	for _, p := range l.latches {
		back(p, map[*ssa.BasicBlock]*ssa.BasicBlock{l.head: p})
	}
	if len(out) > 256 {
		out = nil
		for _, p := range l.latches {
			out = append(out, map[*ssa.BasicBlock]*ssa.BasicBlock{l.head: p})
		}
	}
	l.all = out
	return
}

// goesOn: from b the loop can go round again without passing its head.
func (l *loopCheck) goesOn(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == l.head {
			return true
		}
		if seen[b] || !l.in[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(b)
}

// trend gives the change of an integer over one round.
func (l *loopCheck) trend(v ssa.Value) span2 {
	if l.outside(v) {
		return exact2(0)
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if l.carried(x) {
			return l.eachEdge(x, func(w ssa.Value) span2 {
				if l.outside(w) {
					return span2{}
				}
				return l.change(w, func(v ssa.Value) bool { return v == x })
			})
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return l.trend(x.X).plus(l.trend(x.Y))
		case token.SUB:
			return l.trend(x.X).plus(l.trend(x.Y).neg())
		case token.MUL, token.QUO, token.REM, token.AND, token.OR, token.SHL, token.SHR:
			if a, b := l.trend(x.X), l.trend(x.Y); a == exact2(0) && b == exact2(0) {
				return exact2(0)
			}
		}
	case *ssa.Convert:
		return l.trend(x.X)
	case *ssa.ChangeType:
		return l.trend(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return l.lenTrend(x.Call.Args[0])
			case "min", "max":
				d := exact2(0)
				for _, a := range x.Call.Args {
					d = d.join(l.trend(a))
				}
				return d
			}
			return span2{}
		}
		if l.fixed(x) {
			return exact2(0)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.cellTrend(x, l.change)
		}
		if x.Op == token.SUB {
			return l.trend(x.X).neg()
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && l.fixed(cl) {
			return exact2(0)
		}
	}
	return span2{}
}

// still: the value is the same in every round.
func (l *loopCheck) still(v ssa.Value) bool {
	if l.outside(v) {
		return true
	}
	if l.busy[v] {
		return false
	}
	l.busy[v] = true
	defer delete(l.busy, v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.untouched(x.X)
		}
		return l.still(x.X)
	case *ssa.FieldAddr:
		return l.still(x.X)
	case *ssa.Field:
		return l.still(x.X)
	case *ssa.Phi:
		if l.carried(x) {
			for _, w := range l.ways(x) {
				if w != x && !l.still(w) {
					return false
				}
			}
			return false
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.lenTrend(x.Call.Args[0]) == exact2(0)
		}
		return l.fixed(x)
	case *ssa.BinOp:
		return l.still(x.X) && l.still(x.Y)
	case *ssa.Convert:
		return l.still(x.X)
	case *ssa.ChangeType:
		return l.still(x.X)
	case *ssa.ChangeInterface:
		return l.still(x.X)
	case *ssa.MakeInterface:
		return l.still(x.X)
	case *ssa.Slice:
		return l.still(x.X) && (x.Low == nil || l.still(x.Low)) && (x.High == nil || l.still(x.High))
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return l.fixed(cl)
		}
	}
	return false
}

// fixed: the call gives the same in every round.
func (l *loopCheck) fixed(x *ssa.Call) bool {
	com := x.Common()
	if com.IsInvoke() {
		if com.Method.Pkg() == nil || com.Method.Pkg().Path() != "reflect" || !l.still(com.Value) {
			return false
		}
	} else {
		f := com.StaticCallee()
		if f == nil {
			return false
		}
		if l.c.inModule(f) {
			return l.getter(f) && l.allStill(com.Args)
		}
		p := ""
		if f.Pkg != nil {
			p = f.Pkg.Pkg.Path()
		} else if f.Object() != nil && f.Object().Pkg() != nil {
			p = f.Object().Pkg().Path()
		}
		if p != "reflect" && p != "strings" && p != "unicode/utf8" && p != "bytes" && p != "path" && p != "path/filepath" {
			return false
		}
		if p == "reflect" && f.Signature.Recv() != nil && (strings.HasPrefix(f.Name(), "Set") || strings.HasPrefix(f.Name(), "Call")) {
			return false
		}
	}
	return l.allStill(com.Args)
}

func (l *loopCheck) allStill(vs []ssa.Value) bool {
	for _, a := range vs {
		if !l.still(a) {
			return false
		}
	}
	return true
}

// getter: a function of the module that only reads what the loop leaves alone.
func (l *loopCheck) getter(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.Return, *ssa.BinOp, *ssa.Convert, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Phi, *ssa.ChangeType, *ssa.Slice:
			case *ssa.UnOp:
				if x.Op == token.MUL && !l.untouched(x.X) {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					if g := x.Call.StaticCallee(); g == nil || g == f || !l.c.inModule(g) || !l.getter(g) {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	return true
}

// storesHere gives the stores to a place while the loop runs, and whether
// they are all of them.
func (l *loopCheck) storesHere(addr ssa.Value) (here []*ssa.Store, known bool) {
	called, any := l.calledIn()
	in := func(st *ssa.Store) bool {
		f := st.Parent()
		if f == l.f && l.in[st.Block()] {
			return true
		}
		return called[f]
	}
	addr = l.place(addr)
	switch x := addr.(type) {
	case *ssa.Alloc:
		all, ok := l.storesTo(x)
		if !ok {
			return nil, false
		}
		for _, st := range all {
			if in(st) || any && st.Parent() != x.Parent() {
				here = append(here, st)
			}
		}
		return here, true
	case *ssa.Global:
		for _, f := range l.c.P.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok && l.place(st.Addr) == x && (in(st) || any) && f.Name() != "init" {
						here = append(here, st)
					}
				}
			}
		}
		return here, true
	case *ssa.FieldAddr:
		v := addrVar(x)
		if v == nil {
			return nil, false
		}
		if v.Exported() && any {
			// programs can set it, but only between calls
			any = false
		}
		for _, st := range l.stores[v] {
			if madeBy(st) && !sameObject(st, x) {
				continue
			}
			if in(st) || any {
				here = append(here, st)
			}
		}
		return here, true
	case *ssa.Parameter, *ssa.IndexAddr:
		return nil, false
	}
	return nil, false
}

// madeBy: the store fills a field of an object its function makes.
func madeBy(st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	x := fa.X
	for {
		if f, ok := x.(*ssa.FieldAddr); ok {
			x = f.X
			continue
		}
		break
	}
	_, ok = x.(*ssa.Alloc)
	return ok
}

func sameObject(st *ssa.Store, fa *ssa.FieldAddr) bool {
	a, ok := st.Addr.(*ssa.FieldAddr)
	return ok && a.X == fa.X
}

// untouched: nothing the loop runs stores to the place.
func (l *loopCheck) untouched(addr ssa.Value) bool {
	if fa, ok := addr.(*ssa.FieldAddr); ok && !l.still(fa.X) {
		return false
	}
	if p, ok := addr.(*ssa.Parameter); ok {
		// what a pointer given leads to: no store through pointers of its kind
		return l.noStoreOf(deref(p.Type()))
	}
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		return l.still(ia.X) && l.still(ia.Index) && l.noStoreOf(deref(ia.Type()))
	}
	here, known := l.storesHere(addr)
	return known && len(here) == 0
}

func (l *loopCheck) noStoreOf(t types.Type) bool {
	called, any := l.calledIn()
	if any {
		return false
	}
	bad := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && types.Identical(deref(st.Addr.Type()), t) {
				return true
			}
		}
		return false
	}
	for b := range l.in {
		if bad(b) {
			return false
		}
	}
	for f := range called {
		for _, b := range f.Blocks {
			if bad(b) {
				return false
			}
		}
	}
	return true
}

// samePlace: both addresses stand for the same variable.
func (l *loopCheck) samePlace(a, b ssa.Value) bool {
	a, b = l.place(a), l.place(b)
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 && addrVar(x) == addrVar(y) {
		return l.sameBase(x.X, y.X)
	}
	return false
}

func (l *loopCheck) sameBase(a, b ssa.Value) bool {
	if a == b || l.samePlace2(a, b) {
		return true
	}
	// in different functions the receiver stands for the same object or for
	// one that counts alike
	p, ok1 := a.(*ssa.Parameter)
	q, ok2 := b.(*ssa.Parameter)
	return ok1 && ok2 && p.Parent() != q.Parent() && types.Identical(p.Type(), q.Type())
}

func (l *loopCheck) samePlace2(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return l.samePlace(x.X, y.X)
	}
	f, ok1 := a.(*ssa.FieldAddr)
	g, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && l.sameBase(f.X, g.X)
}

// cellTrend gives the change of what is stored at a place over one round; by
// tells how far a stored value is from the one found there.
func (l *loopCheck) cellTrend(ld *ssa.UnOp, by func(v ssa.Value, same func(ssa.Value) bool) span2) span2 {
	if fa, ok := ld.X.(*ssa.FieldAddr); ok && !l.still(fa.X) {
		return span2{}
	}
	here, known := l.storesHere(ld.X)
	if !known {
		return span2{}
	}
	always := exact2(0)
	for _, st := range here {
		st := st
		own := st.Parent() == l.f && l.in[st.Block()]
		m := l
		if !own {
			// measured in its own function, taken as a whole
			all := map[*ssa.BasicBlock]bool{}
			for _, b := range st.Parent().Blocks {
				all[b] = true
			}
			m = &loopCheck{c36state: l.c36state, natLoop: &natLoop{f: st.Parent(), head: l.head, in: all}, busy: map[ssa.Value]bool{}}
		}
		same := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && l.samePlace(u.X, st.Addr) && noneBetween(u, st, func(in ssa.Instruction) bool {
				o, ok := in.(*ssa.Store)
				return ok && o != st && l.samePlace(o.Addr, st.Addr)
			})
		}
		d := span2{}
		if own {
			d = by(st.Val, same)
		} else {
			d = m.change(st.Val, same)
		}
		if !d.ok {
			return span2{}
		}
		if own && l.every(st.Block()) && len(naturalAround(l, st.Block())) == 0 {
			always = always.plus(d)
		} else {
			// may happen any number of times
			if d.lo < 0 {
				always.lo = -inf
			}
			if d.hi > 0 {
				always.hi = inf
			}
		}
	}
	if always.lo == 0 && always.hi > 0 && l.eachWay(here, by) {
		always.lo = 1
	}
	return always
}

// naturalAround lists the loops inside this one that contain b.
func naturalAround(l *loopCheck, b *ssa.BasicBlock) (out []*natLoop) {
	for _, m := range naturalLoops(l.f) {
		if m.head != l.head && l.in[m.head] && m.in[b] {
			out = append(out, m)
		}
	}
	return
}

// eachWay: each way round passes one of the stores that add something.
func (l *loopCheck) eachWay(here []*ssa.Store, by func(v ssa.Value, same func(ssa.Value) bool) span2) bool {
	adds := map[*ssa.BasicBlock]bool{}
	for _, st := range here {
		if st.Parent() != l.f || !l.in[st.Block()] {
			continue
		}
		d := by(st.Val, func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && l.samePlace(u.X, st.Addr)
		})
		if d.ok && d.lo > 0 {
			adds[st.Block()] = true
		}
	}
	for b := range l.in {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok && len(here) > 0 && l.callAdds(x, here, 0) {
				adds[b] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool // a way from b round that adds nothing
	free = func(b *ssa.BasicBlock) bool {
		if adds[b] || seen[b] || !l.in[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s == l.head || free(s) {
				return true
			}
		}
		return false
	}
	return !free(l.head)
}

// callAdds: the function called adds something before it returns, to the same
// place of the same object.
func (l *loopCheck) callAdds(x *ssa.Call, here []*ssa.Store, depth int) bool {
	g := x.Call.StaticCallee()
	if g == nil {
		if fs := l.funcsIn(x.Call.Value); len(fs) == 1 {
			g = fs[0]
		}
	}
	if g == nil || g.Blocks == nil || g == l.f || depth > 3 {
		return false
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		all[b] = true
	}
	m := &loopCheck{c36state: l.c36state, natLoop: &natLoop{f: g, head: l.head, in: all}, busy: map[ssa.Value]bool{}}
	adds := map[*ssa.BasicBlock]bool{}
	for _, st := range here {
		if st.Parent() != g {
			continue
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			// the object is the one the caller counts in
			p, ok := fa.X.(*ssa.Parameter)
			if !ok || len(x.Call.Args) == 0 || p != g.Params[0] || !l.outside(x.Call.Args[0]) && !l.still(x.Call.Args[0]) {
				continue
			}
		}
		d := m.change(st.Val, func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && l.samePlace(u.X, st.Addr)
		})
		if d.ok && d.lo > 0 {
			adds[st.Block()] = true
		}
	}
	for b := range all {
		for _, in := range b.Instrs {
			if y, ok := in.(*ssa.Call); ok && m.callAdds(y, here, depth+1) {
				adds[b] = true
			}
		}
	}
	// no way to a return adds nothing
	seen := map[*ssa.BasicBlock]bool{}
	var free func(b *ssa.BasicBlock) bool
	free = func(b *ssa.BasicBlock) bool {
		if adds[b] || seen[b] {
			return false
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return true
		}
		for _, s := range b.Succs {
			if free(s) {
				return true
			}
		}
		return false
	}
	return !free(g.Blocks[0])
}

// noneBetween: no instruction with the property lies between the two in the
// same block (different blocks: none in the blocks of either after/before).
func noneBetween(from, to ssa.Instruction, bad func(in ssa.Instruction) bool) bool {
	if from.Block() == to.Block() {
		on := false
		for _, in := range from.Block().Instrs {
			if in == from {
				on = true
				continue
			}
			if in == to {
				return on
			}
			if on && bad(in) {
				return false
			}
		}
		return false
	}
	if !from.Block().Dominates(to.Block()) {
		return false
	}
	on := false
	for _, in := range from.Block().Instrs {
		if in == from {
			on = true
		} else if on && bad(in) {
			return false
		}
	}
	for _, in := range to.Block().Instrs {
		if in == to {
			break
		}
		if bad(in) {
			return false
		}
	}
	return true
}

// lenTrend gives the change of the length of a list, text or map.
func (l *loopCheck) lenTrend(v ssa.Value) span2 {
	if l.still(v) {
		if _, ok := v.Type().Underlying().(*types.Map); ok {
			return l.mapTrend(v)
		}
		return exact2(0)
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if l.carried(x) {
			was := l.base
			l.base = x
			defer func() { l.base = was }()
			return l.eachEdge(x, func(w ssa.Value) span2 {
				return l.lenChange(w, func(v ssa.Value) bool { return v == x })
			})
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return l.cellTrend(x, l.lenChange)
		}
	case *ssa.ChangeType:
		return l.lenTrend(x.X)
	case *ssa.Convert:
		return l.lenTrend(x.X)
	}
	return span2{}
}

// mapTrend: a map the loop sets nothing in does not grow.
func (l *loopCheck) mapTrend(m ssa.Value) span2 {
	d := exact2(0)
	for b := range l.in {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if types.Identical(x.Map.Type(), m.Type()) {
					d.hi = inf
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && types.Identical(x.Call.Args[0].Type(), m.Type()) {
					d.lo = -inf
				}
			}
		}
	}
	return d
}

// lenChange: the length of v against that of the list or text it comes from.
func (l *loopCheck) lenChange(v ssa.Value, same func(ssa.Value) bool) span2 {
	if same(v) {
		return exact2(0)
	}
	down := span2{-inf, 0, true}
	strict := span2{-inf, -1, true}
	switch x := v.(type) {
	case *ssa.Const:
		// nothing: less than what was there
		if s, ok := strConst(x); l.base != nil && (ok && s == "" || x.IsNil()) {
			if l.notEmpty(l.base) {
				return strict
			}
			return down
		}
	case *ssa.Slice:
		d := l.lenChange(x.X, same)
		if !d.ok {
			return d
		}
		if x.Low != nil && l.sign(x.Low).lo > 0 {
			return span2{-inf, clampInf(d.hi - 1), true}
		}
		if x.High != nil {
			// everything but the end
			if b, ok := x.High.(*ssa.BinOp); ok && b.Op == token.SUB {
				if l.isLength(b.X, x.X) && l.sign(b.Y).lo > 0 {
					return span2{-inf, clampInf(d.hi - 1), true}
				}
			}
			if l.foundIn(x.High, x.X) {
				return span2{-inf, clampInf(d.hi - 1), true}
			}
			if _, ok := intConst(x.High); ok {
				return span2{}
			}
		}
		return span2{-inf, d.hi, true}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if e := l.takesOut(x, same); e.ok {
					return e
				}
				if d := l.lenChange(x.Call.Args[0], same); d.ok {
					return span2{d.lo, inf, true}
				}
			}
			return span2{}
		}
		switch f.String() {
		case "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
			d := l.lenChange(x.Call.Args[0], same)
			if !d.ok {
				return d
			}
			if l.guardedBy(x, "Has"+strings.TrimPrefix(f.Name(), "Trim")) {
				return d.plus(strict)
			}
			return d.plus(down)
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "bytes.TrimSpace", "strings.TrimLeftFunc", "strings.TrimRightFunc":
			if d := l.lenChange(x.Call.Args[0], same); d.ok {
				return d.plus(down)
			}
		}
		return l.viaCall(x, 0, func(m *loopCheck) func(ssa.Value, func(ssa.Value) bool) span2 { return m.lenChange }, same)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if f := cl.Call.StaticCallee(); f != nil {
				switch f.String() {
				case "strings.Cut", "bytes.Cut":
					d := l.lenChange(cl.Call.Args[0], same)
					if s, isC := strConst(cl.Call.Args[1]); d.ok && x.Index == 1 {
						if l.okTaken(cl, 2) && isC && s != "" || l.notEmpty(cl.Call.Args[0]) {
							return d.plus(strict)
						}
						return d.plus(down)
					}
				case "strings.CutPrefix", "strings.CutSuffix":
					d := l.lenChange(cl.Call.Args[0], same)
					if d.ok && x.Index == 0 {
						if l.okTaken(cl, 1) {
							return d.plus(strict)
						}
						return d.plus(down)
					}
				}
			}
			return l.viaCall(cl, x.Index, func(m *loopCheck) func(ssa.Value, func(ssa.Value) bool) span2 { return m.lenChange }, same)
		}
	case *ssa.ChangeType:
		return l.lenChange(x.X, same)
	case *ssa.Phi:
		if l.outside(x) || l.busy[x] {
			return span2{}
		}
		l.busy[x] = true
		defer delete(l.busy, x)
		inner := false
		for _, p := range x.Block().Preds {
			inner = inner || x.Block().Dominates(p)
		}
		var d span2
		first := true
		for i, p := range x.Block().Preds {
			back := inner && x.Block().Dominates(p)
			var e span2
			if back {
				done := l.apart(p, x.Block())
				e = l.lenChange(x.Edges[i], func(v ssa.Value) bool { return v == x })
				done()
				if !e.ok {
					return span2{}
				}
				if e.hi > 0 {
					d.hi = inf
				}
				continue
			}
			if !l.onRoute(x.Block(), p) {
				continue
			}
			done := l.pass(p, x.Block())
			e = l.lenChange(x.Edges[i], same)
			done()
			if !e.ok {
				return span2{}
			}
			if first {
				d, first = e, false
			} else {
				d = d.join(e)
			}
		}
		return d
	}
	return span2{}
}

// takesOut: append(xs[:i], xs[i+1:]...), what is left without one of them.
func (l *loopCheck) takesOut(x *ssa.Call, same func(ssa.Value) bool) span2 {
	a, ok1 := x.Call.Args[0].(*ssa.Slice)
	b, ok2 := x.Call.Args[1].(*ssa.Slice)
	if !ok1 || !ok2 || a.Low != nil || a.High == nil || b.Low == nil || b.High != nil || a.X != b.X {
		return span2{}
	}
	d := l.lenChange(a.X, same)
	lo, ok := b.Low.(*ssa.BinOp)
	if !d.ok || !ok || lo.Op != token.ADD || lo.X != a.High {
		return span2{}
	}
	if k, ok := intConst(lo.Y); ok && k >= 1 {
		return d.plus(exact2(-k))
	}
	return span2{}
}

func isLenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && (c.Call.Args[0] == of || sameLoad(c.Call.Args[0], of))
}

// isLength: v is the length of the list or text, also as kept beside it from
// round to round.
func (l *loopCheck) isLength(v, of ssa.Value) bool {
	if isLenOf(v, of) {
		return true
	}
	p, ok1 := v.(*ssa.Phi)
	q, ok2 := of.(*ssa.Phi)
	if !ok1 || !ok2 || p.Block() != q.Block() {
		return false
	}
	for i := range p.Edges {
		if !isLenOf(p.Edges[i], q.Edges[i]) {
			return false
		}
	}
	return true
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && (f.X == g.X || sameLoad(f.X, g.X))
}

// foundIn: v is where something was found in the text.
func (l *loopCheck) foundIn(v, text ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !l.found(v) {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && strings.Contains(f.Name(), "Index") && len(c.Call.Args) > 1 && c.Call.Args[0] == text
}

// guardedBy: the trimming is of what a check just found there.
func (l *loopCheck) guardedBy(x *ssa.Call, has string) bool {
	for b := range l.in {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, way := br.Cond, 0
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, way = u.X, 1
		}
		cl, ok := cond.(*ssa.Call)
		if !ok {
			continue
		}
		f := cl.Call.StaticCallee()
		if f == nil || f.Name() != has || cl.Call.Args[0] != x.Call.Args[0] || !sameValue(cl.Call.Args[1], x.Call.Args[1]) {
			continue
		}
		if s, ok := strConst(cl.Call.Args[1]); ok && s == "" {
			continue
		}
		if b.Succs[way].Dominates(x.Block()) && b.Succs[way] != b.Succs[1-way] {
			return true
		}
	}
	return false
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// okTaken: rounds that go on have result i of the call true.
func (l *loopCheck) okTaken(x ssa.Value, i int) bool {
	for _, r := range *x.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Index != i {
			continue
		}
		if l.saysOn(e, true) {
			return true
		}
	}
	return false
}

// saysOn: rounds that go on have v equal to want.
func (l *loopCheck) saysOn(v ssa.Value, want bool) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.If:
			way := 0
			if !want {
				way = 1
			}
			if l.takes(x, way) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.NOT && l.saysOn(x, !want) {
				return true
			}
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				eq := (x.Op == token.EQL) == constant.BoolVal(k.Value)
				if l.saysOn(x, eq == want) {
					return true
				}
			}
		}
	}
	return false
}

// notEmpty: rounds that go on found the text or list not empty.
func (l *loopCheck) notEmpty(v ssa.Value) bool {
	if v == l.given && v != nil {
		return true
	}
	if v.Referrers() == nil {
		return false
	}
	if s, ok := v.(*ssa.UnOp); ok && s.Op == token.MUL {
		// any reading of the same variable in the round
		for b := range l.in {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u != s && u.Op == token.MUL && l.samePlace(u.X, s.X) && l.notEmpty1(u) {
					return true
				}
			}
		}
	}
	return l.notEmpty1(v)
}

func (l *loopCheck) notEmpty1(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			if s, ok := strConst(x.Y); ok && s == "" && (x.Op == token.NEQ && l.saysOn(x, true) || x.Op == token.EQL && l.saysOn(x, false)) {
				return true
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				continue
			}
			for _, r := range *x.Referrers() {
				bo, ok := r.(*ssa.BinOp)
				if !ok {
					continue
				}
				k, ok := intConst(bo.Y)
				if !ok {
					continue
				}
				switch {
				case bo.Op == token.GTR && k >= 0, bo.Op == token.GEQ && k >= 1, bo.Op == token.NEQ && k == 0:
					if l.saysOn(bo, true) {
						return true
					}
				case bo.Op == token.EQL && k == 0, bo.Op == token.LEQ && k >= 0, bo.Op == token.LSS && k >= 1:
					if l.saysOn(bo, false) {
						return true
					}
				}
			}
		}
	}
	return false
}

// further: v lies one or more links beyond where the round started.
func (l *loopCheck) further(v ssa.Value, same func(ssa.Value) bool) (beyond, ok bool) {
	if same(v) {
		return false, true
	}
	if l.outside(v) || l.busy[v] {
		return false, false
	}
	l.busy[v] = true
	defer delete(l.busy, v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false, false
		}
		fa, isF := x.X.(*ssa.FieldAddr)
		if !isF {
			return false, false
		}
		if _, ok := l.further(fa.X, same); ok && l.aged(addrVar(fa)) {
			return true, true
		}
	case *ssa.Field:
		return l.further(x.X, same)
	case *ssa.ChangeType:
		return l.further(x.X, same)
	case *ssa.ChangeInterface:
		return l.further(x.X, same)
	case *ssa.MakeInterface:
		return l.further(x.X, same)
	case *ssa.TypeAssert:
		return l.further(x.X, same)
	case *ssa.Extract:
		if x.Index == 0 {
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				return l.further(ta.X, same)
			}
		}
	case *ssa.Call:
		com := x.Common()
		name, recv := "", ssa.Value(nil)
		if com.IsInvoke() {
			name, recv = com.Method.FullName(), com.Value
			if com.Method.Name() == "Unwrap" {
				name = "errors.Unwrap"
			}
		} else if f := com.StaticCallee(); f != nil && len(com.Args) > 0 {
			name, recv = f.String(), com.Args[0]
			if f.Blocks != nil && l.c.inModule(f) {
				return l.stepFunc(f, com.Args, same)
			}
		}
		switch name {
		case "(reflect.Value).Elem", "(reflect.Type).Elem", "(*container/list.Element).Next", "(*container/list.Element).Prev", "errors.Unwrap", "(*container/ring.Ring).Next":
			if _, ok := l.further(recv, same); ok {
				return true, true
			}
		case "reflect.Indirect":
			if b, ok := l.further(recv, same); ok {
				return b || l.kindChecked(), true
			}
		case "(reflect.Value).Addr", "(reflect.Value).Type", "reflect.ValueOf", "(reflect.Value).Interface":
			return l.further(recv, same)
		}
	case *ssa.Phi:
		any := false
		all := true
		for i, e := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) {
				if _, ok := l.further(e, func(v ssa.Value) bool { return v == x || same(v) }); !ok {
					return false, false
				}
				continue
			}
			b, ok := l.further(e, same)
			if !ok {
				return false, false
			}
			any = true
			all = all && b
		}
		return any && all, any
	}
	return false, false
}

// stepFunc: a function of the module that hands back a link of what it is given.
func (l *loopCheck) stepFunc(f *ssa.Function, args []ssa.Value, same func(ssa.Value) bool) (bool, bool) {
	if l.busy[f] {
		return false, false
	}
	l.busy[f] = true
	defer delete(l.busy, f)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	m := &loopCheck{c36state: l.c36state, natLoop: &natLoop{f: f, head: f.Blocks[0], in: all}, busy: l.busy}
	some, beyond := false, true
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		b, ok := m.further(r.Results[0], func(v ssa.Value) bool {
			p, ok := v.(*ssa.Parameter)
			if !ok {
				return false
			}
			for i, q := range f.Params {
				if q == p && i < len(args) {
					_, ok := l.further(args[i], same)
					return ok
				}
			}
			return false
		})
		if !ok {
			return false, false
		}
		some = true
		beyond = beyond && b
	}
	return some && beyond, some
}

// typeDepth: how many pointers more the type of v has than that of the value
// the round started with.
func (l *loopCheck) typeDepth(v ssa.Value, same func(ssa.Value) bool) (int, bool) {
	if same(v) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.Call:
		name, arg := "", ssa.Value(nil)
		if x.Call.IsInvoke() {
			name, arg = x.Call.Method.FullName(), x.Call.Value
		} else if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) > 0 {
			name, arg = f.String(), x.Call.Args[0]
		}
		d := 0
		switch name {
		case "(reflect.Value).Elem", "(reflect.Type).Elem":
			d = -1
		case "reflect.New", "reflect.PtrTo", "reflect.PointerTo", "(reflect.Value).Addr":
			d = 1
		case "(reflect.Value).Type", "reflect.Zero":
		default:
			return 0, false
		}
		n, ok := l.typeDepth(arg, same)
		return n + d, ok
	case *ssa.Phi:
		if l.outside(x) || l.busy[x] {
			return 0, false
		}
		l.busy[x] = true
		defer delete(l.busy, x)
		most, first := 0, true
		for _, e := range x.Edges {
			n, ok := l.typeDepth(e, same)
			if !ok {
				return 0, false
			}
			if first || n > most {
				most, first = n, false
			}
		}
		return most, !first
	}
	return 0, false
}

// kindChecked: rounds that go on found the kind of what they look at.
func (l *loopCheck) kindChecked() bool {
	for b := range l.in {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			cl, ok := bo.X.(*ssa.Call)
			if !ok {
				continue
			}
			name := ""
			if cl.Call.IsInvoke() {
				name = cl.Call.Method.Name()
			} else if f := cl.Call.StaticCallee(); f != nil {
				name = f.Name()
			}
			if name == "Kind" && (bo.Op == token.EQL && l.saysOn(bo, true) || bo.Op == token.NEQ && l.saysOn(bo, false)) {
				return true
			}
		}
	}
	return false
}

// aged: the link is only ever set in objects just made, to what was there
// before them, so that following it goes back in time.
func (s *c36state) aged(v *types.Var) bool {
	if v == nil {
		return false
	}
	if v.Pkg() == nil || !s.c.modulePkg(v.Pkg()) || v.Exported() {
		return false
	}
	for _, st := range s.stores[v] {
		if !madeBy(st) {
			return false
		}
		switch x := st.Val.(type) {
		case *ssa.Alloc:
			return false
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && al.Heap {
				return false
			}
		}
	}
	return true
}

var consuming = map[string]bool{
	"(*bufio.Reader).ReadString": true, "(*bufio.Reader).ReadBytes": true, "(*bufio.Reader).ReadLine": true, "(*bufio.Reader).ReadSlice": true,
	"(*bufio.Reader).ReadRune": true, "(*bufio.Reader).ReadByte": true, "(*bufio.Reader).Read": true, "(*encoding/json.Decoder).Token": true,
	"(*encoding/json.Decoder).Decode": true, "(*mime/multipart.Reader).NextPart": true, "(*encoding/csv.Reader).Read": true,
	"(*os.File).Read": true, "(*bytes.Buffer).ReadString": true, "(*bytes.Buffer).ReadBytes": true, "(*bytes.Buffer).ReadByte": true, "(*bytes.Buffer).ReadRune": true,
	"(*strings.Reader).ReadByte": true, "(*strings.Reader).ReadRune": true, "(*bufio.Scanner).Scan": true, "(*database/sql.Rows).Next": true, "(*os.File).ReadDir": true,
}

func (s *c36state) consumes(x *ssa.Call, depth int) bool {
	if x.Call.IsInvoke() {
		n := x.Call.Method.FullName()
		return n == "(io.Reader).Read" || n == "(io.ByteReader).ReadByte" || n == "(io.RuneReader).ReadRune"
	}
	f := x.Call.StaticCallee()
	if f == nil {
		if fs := s.funcsIn(x.Call.Value); len(fs) == 1 {
			f = fs[0]
		}
	}
	if f == nil {
		return false
	}
	if consuming[f.String()] {
		return true
	}
	if depth > 3 || f.Blocks == nil || !s.c.inModule(f) {
		return false
	}
	// reads on every way through
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			y, ok := in.(*ssa.Call)
			if !ok || !s.consumes(y, depth+1) {
				continue
			}
			all := true
			for _, r := range f.Blocks {
				if _, isR := r.Instrs[len(r.Instrs)-1].(*ssa.Return); isR && !b.Dominates(r) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// from: v is worked out from what in gave.
func (l *loopCheck) from(v ssa.Value, src ssa.Value, depth int) bool {
	if v == src {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || depth > 8 {
		return false
	}
	if l.carried(v) {
		return false // of an earlier round
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && l.from(*o, src, depth+1) {
			return true
		}
	}
	return false
}

// reads: each round reads on, and notices the end.
func (l *loopCheck) reads() bool {
	for b := range l.in {
		if !l.every(b) {
			continue
		}
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok || !l.consumes(x, 0) {
				continue
			}
			if basic, ok := x.Type().Underlying().(*types.Basic); ok && basic.Kind() == types.Bool {
				if l.saysOn(x, true) {
					return true
				}
				continue
			}
			if l.endNoticed(x) {
				return true
			}
		}
	}
	return false
}

func isErrType(t types.Type) bool { return t != nil && t.String() == "error" }

func (l *loopCheck) endNoticed(x *ssa.Call) bool {
	errs := []ssa.Value{}
	if isErrType(x.Type()) {
		errs = append(errs, x)
	}
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && isErrType(e.Type()) {
			errs = append(errs, e)
		}
	}
	isErr := func(v ssa.Value) bool {
		for _, e := range errs {
			if v == e {
				return true
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				// the variable it was put into
				for _, r := range *e.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Val == e && l.samePlace(st.Addr, u.X) {
						return true
					}
				}
			}
		}
		return false
	}
	isEOF := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.Name() == "EOF" && g.Pkg != nil && g.Pkg.Pkg.Path() == "io"
	}
	if len(errs) == 0 {
		return false
	}
	// at the end, and when reading fails, there is nothing left: a round that
	// finds so must not read again
	for _, eof := range []bool{true, false} {
		var eval func(v ssa.Value, env map[ssa.Value]int) int
		eval = func(v ssa.Value, env map[ssa.Value]int) int {
			isErr := func(v ssa.Value) bool { return isErr(v) || env[v] == 2 }
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) {
					return 1
				}
				return 0
			}
			if r, ok := env[v]; ok {
				return r
			}
			if way, ok := l.emptyTest(v, x); ok {
				return 1 - way
			}
			switch y := v.(type) {
			case *ssa.UnOp:
				if y.Op == token.NOT {
					if r := eval(y.X, env); r >= 0 {
						return 1 - r
					}
				}
			case *ssa.BinOp:
				if y.Op != token.EQL && y.Op != token.NEQ {
					return -1
				}
				a, b := y.X, y.Y
				if isErr(b) {
					a, b = b, a
				}
				if !isErr(a) {
					if k, ok := b.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						if r := eval(a, env); r >= 0 {
							return b2i((r == 1) == (constant.BoolVal(k.Value) == (y.Op == token.EQL)))
						}
					}
					return -1
				}
				k, isK := b.(*ssa.Const)
				switch {
				case isK && k.IsNil():
					return b2i(y.Op == token.NEQ)
				case isEOF(b):
					return b2i(eof == (y.Op == token.EQL))
				}
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && f.String() == "errors.Is" && isErr(y.Call.Args[0]) && isEOF(y.Call.Args[1]) {
					return b2i(eof)
				}
			}
			return -1
		}
		type node struct {
			prev, b *ssa.BasicBlock
			env     string
		}
		seen := map[node]bool{}
		var again func(prev, b *ssa.BasicBlock, env map[ssa.Value]int) bool
		again = func(prev, b *ssa.BasicBlock, env map[ssa.Value]int) bool {
			if !l.in[b] {
				return false
			}
			if prev != nil {
				next := map[ssa.Value]int{}
				for k, v := range env {
					next[k] = v
				}
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if isErrType(p.Type()) {
						for i, q := range b.Preds {
							if q == prev && (isErr(p.Edges[i]) || env[p.Edges[i]] == 2) {
								next[p] = 2
							} else if q == prev {
								delete(next, p)
							}
						}
						continue
					}
					bt, ok := p.Type().Underlying().(*types.Basic)
					if !ok || bt.Kind() != types.Bool {
						continue
					}
					for i, q := range b.Preds {
						if q == prev {
							next[p] = eval(p.Edges[i], env)
						}
					}
				}
				env = next
				if b == x.Block() {
					return true
				}
			}
			key := ""
			for _, in := range l.f.Blocks {
				for _, y := range in.Instrs {
					if p, ok := y.(*ssa.Phi); ok {
						if r, ok := env[p]; ok {
							key += fmt.Sprint(p.Name(), "=", r, " ")
						}
					}
				}
			}
			n := node{prev, b, key}
			if seen[n] {
				return false
			}
			seen[n] = true
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			r := -1
			if ok {
				r = eval(br.Cond, env)
			}
			for i, t := range b.Succs {
				if r >= 0 && i == r {
					continue // 0 is the way of true
				}
				if again(b, t, env) {
					return true
				}
			}
			return false
		}
		if again(nil, x.Block(), map[ssa.Value]int{}) {
			return false
		}
	}
	return true
}

// emptyTest: cond asks whether what was read is empty; the way taken then.
func (l *loopCheck) emptyTest(cond ssa.Value, x ssa.Value) (int, bool) {
	way := 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, way = u.X, 1-way
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok || !l.from(bo.X, x, 0) {
		return 0, false
	}
	if s, ok := strConst(bo.Y); ok && s == "" {
		switch bo.Op {
		case token.EQL:
			return way, true
		case token.NEQ:
			return 1 - way, true
		}
		return 0, false
	}
	k, ok := intConst(bo.Y)
	if !ok || !isInt(bo.X.Type()) {
		return 0, false
	}
	switch {
	case bo.Op == token.EQL && k == 0, bo.Op == token.LEQ && k == 0, bo.Op == token.LSS && k == 1:
		return way, true
	case bo.Op == token.NEQ && k == 0, bo.Op == token.GTR && k == 0, bo.Op == token.GEQ && k == 1:
		return 1 - way, true
	}
	return 0, false
}

// roots gives the objects a number of any size can be.
func roots(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			roots(e, seen)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*math/big.Int).") {
				switch {
				case x.Index == 0:
					roots(c.Call.Args[0], seen)
				case f.Name() == "DivMod" || f.Name() == "QuoRem":
					roots(c.Call.Args[3], seen)
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*math/big.Int).") && len(x.Call.Args) > 0 {
			roots(x.Call.Args[0], seen)
		}
	}
}

func sameRoot(a, b ssa.Value) bool {
	x, y := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	roots(a, x)
	roots(b, y)
	for v := range x {
		if y[v] {
			return true
		}
	}
	return false
}

// divides: each round divides the number the condition is about.
func (l *loopCheck) divides(cond ssa.Value, want bool) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	cl, ok := bo.X.(*ssa.Call)
	if !ok {
		return false
	}
	f := cl.Call.StaticCallee()
	if f == nil || !strings.HasPrefix(f.String(), "(*math/big.Int).") || f.Name() != "Sign" && f.Name() != "Cmp" && f.Name() != "BitLen" {
		return false
	}
	k, ok := intConst(bo.Y)
	if !ok {
		return false
	}
	pos, nz := false, false
	switch {
	case want && (bo.Op == token.GTR && k == 0 || bo.Op == token.GEQ && k == 1 || bo.Op == token.EQL && k == 1):
		pos = true
	case !want && (bo.Op == token.LEQ && k == 0 || bo.Op == token.LSS && k == 1 || bo.Op == token.NEQ && k == 1):
		pos = true
	case want && bo.Op == token.NEQ && k == 0, !want && bo.Op == token.EQL && k == 0:
		nz = true
	}
	if f.Name() == "BitLen" && pos {
		nz, pos = true, false
	}
	if !pos && !nz {
		return false
	}
	for b := range l.in {
		if !l.every(b) {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil || !strings.HasPrefix(g.String(), "(*math/big.Int).") {
				continue
			}
			switch g.Name() {
			case "DivMod", "Div":
				if nz {
					continue
				}
			case "Quo", "QuoRem":
			case "Rsh":
				if k, ok := intConst(d.Call.Args[2]); ok && k > 0 && pos && sameRoot(d.Call.Args[0], cl.Call.Args[0]) {
					return true
				}
				continue
			default:
				continue
			}
			if sameRoot(d.Call.Args[0], cl.Call.Args[0]) && sameRoot(d.Call.Args[1], cl.Call.Args[0]) && l.twoOrMore(d.Call.Args[2]) {
				return true
			}
		}
	}
	return false
}

func (l *loopCheck) twoOrMore(v ssa.Value) bool {
	rs := map[ssa.Value]bool{}
	roots(v, rs)
	got := false
	for r := range rs {
		c, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Call.StaticCallee()
		if f == nil {
			continue
		}
		var arg ssa.Value
		switch f.String() {
		case "math/big.NewInt":
			arg = c.Call.Args[0]
		case "(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64":
			arg = c.Call.Args[1]
		case "(*math/big.Int).Set":
			if !l.twoOrMore(c.Call.Args[1]) {
				return false
			}
			got = true
			continue
		default:
			if f.Blocks == nil || !l.c.inModule(f) {
				continue
			}
			if !l.resultTwoOrMore(f, c.Call.Args) {
				return false
			}
			got = true
			continue
		}
		if !l.atLeast(arg, 2) {
			return false
		}
		got = true
	}
	return got
}

// resultTwoOrMore: the function of the module makes a number of two or more
// from what it is given: the length of a list that was checked.
func (l *loopCheck) resultTwoOrMore(f *ssa.Function, args []ssa.Value) bool {
	some := false
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		c, ok := r.Results[0].(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "math/big.NewInt" {
			return false
		}
		v := c.Call.Args[0]
		for {
			cv, ok := v.(*ssa.Convert)
			if !ok {
				break
			}
			v = cv.X
		}
		n, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := n.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return false
		}
		good := false
		for i, p := range f.Params {
			if n.Call.Args[0] == p && i < len(args) {
				// any length taken of it before the loop
				for _, b := range l.f.Blocks {
					for _, in := range b.Instrs {
						if y, ok := in.(*ssa.Call); ok && isLenOf(y, args[i]) && l.atLeast(y, 2) {
							good = true
						}
					}
				}
			}
		}
		if !good {
			return false
		}
		some = true
	}
	return some
}

// atLeast: a check on the way to the loop leaves v at k or more.
func (l *loopCheck) atLeast(v ssa.Value, k int64) bool {
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	if n, ok := intConst(v); ok {
		return n >= k
	}
	same := func(x ssa.Value) bool {
		if cv, ok := x.(*ssa.Convert); ok {
			x = cv.X
		}
		if x == v {
			return true
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && isLenOf(x, c.Call.Args[0])
	}
	for _, b := range l.f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, flip := br.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, flip = u.X, !flip
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, n := bo.Op, int64(0)
		if same(bo.X) {
			if n, ok = intConst(bo.Y); !ok {
				continue
			}
		} else if same(bo.Y) {
			if n, ok = intConst(bo.X); !ok {
				continue
			}
			op = turned[op]
		} else {
			continue
		}
		for way := 0; way < 2; way++ {
			if b.Succs[0] == b.Succs[1] || !b.Succs[way].Dominates(l.head) || len(b.Succs[way].Preds) > 1 {
				continue
			}
			holds := way == 0 != flip
			switch {
			case holds && op == token.GEQ && n >= k, holds && op == token.GTR && n >= k-1, !holds && op == token.LSS && n >= k, !holds && op == token.LEQ && n >= k-1, holds && op == token.EQL && n >= k:
				return true
			}
		}
	}
	return false
}

// stops: cond cannot be want in every round for ever.
func (l *loopCheck) stops(cond ssa.Value, want bool, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return l.stops(x.X, !want, depth+1)
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && (x.Op == token.EQL || x.Op == token.NEQ) {
			return l.stops(x.X, (constant.BoolVal(k.Value) == (x.Op == token.EQL)) == want, depth+1)
		}
		if l.divides(x, want) {
			return true
		}
		if !isInt(x.X.Type()) {
			return false
		}
		op := x.Op
		if !want {
			op = against[op]
		}
		if l.halves(x.X, x.Y, op) || l.halves(x.Y, x.X, turned[op]) {
			return true
		}
		if op == token.NEQ {
			if k, ok := intConst(x.Y); ok && k == 0 && l.wears(x.X) {
				return true
			}
		}
		d := l.change2(x.X, x.Y) // change of y - x
		if cl, ok := x.X.(*ssa.Call); ok && l.lookedFurther(cl, x, want) {
			return true
		}
		if !d.ok {
			return false
		}
		switch op {
		case token.LSS, token.LEQ:
			return d.hi <= -1
		case token.GTR, token.GEQ:
			return d.lo >= 1
		case token.NEQ:
			if k, ok := intConst(x.Y); ok && k <= 0 {
				return d == exact2(1)
			}
			return d == exact2(-1)
		}
		return false
	case *ssa.Call:
		return l.asks(x, want)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if !want || x.Index != 0 {
				return false
			}
			if t.IsString {
				return true
			}
			r, ok := t.Iter.(*ssa.Range)
			return ok && l.notGrown(r.X)
		case *ssa.Call:
			if f := t.Call.StaticCallee(); f != nil {
				if f.String() == "runtime.Caller" && x.Index == 3 && want {
					return l.trend(t.Call.Args[0]).ok && l.trend(t.Call.Args[0]).lo >= 1
				}
				if f.String() == "(*runtime.Frames).Next" && x.Index == 1 && want {
					return true
				}
			}
		}
	case *ssa.Phi:
		if l.carried(x) {
			for _, w := range l.ways(x) {
				if k, ok := w.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) == want {
						return false
					}
					continue
				}
				if !l.stops(w, want, depth+1) {
					return false
				}
			}
			return true
		}
		// a condition put together from others: one of them is always asked
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			for _, e := range x.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
					if constant.BoolVal(k.Value) == want {
						return false
					}
					continue
				}
				if !l.stops(e, want, depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// asks: a small function that compares what it is given.
func (l *loopCheck) asks(x *ssa.Call, want bool) bool {
	g := x.Call.StaticCallee()
	if g == nil || len(g.Blocks) != 1 || !l.c.inModule(g) {
		return false
	}
	r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	v := r.Results[0]
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		v, want = u.X, !want
	}
	bo, ok := v.(*ssa.BinOp)
	if !ok || !isInt(bo.X.Type()) {
		return false
	}
	arg := func(v ssa.Value) ssa.Value {
		for i, p := range g.Params {
			if p == v && i < len(x.Call.Args) {
				return x.Call.Args[i]
			}
		}
		return nil
	}
	var tr func(v ssa.Value) span2
	tr = func(v ssa.Value) span2 {
		if a := arg(v); a != nil {
			return l.trend(a)
		}
		switch t := v.(type) {
		case *ssa.Const:
			return exact2(0)
		case *ssa.Convert:
			return tr(t.X)
		case *ssa.Call:
			if b, ok := t.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if a := arg(t.Call.Args[0]); a != nil {
					return l.lenTrend(a)
				}
			}
		case *ssa.BinOp:
			switch t.Op {
			case token.ADD:
				return tr(t.X).plus(tr(t.Y))
			case token.SUB:
				return tr(t.X).plus(tr(t.Y).neg())
			}
		}
		return span2{}
	}
	op := bo.Op
	if !want {
		op = against[op]
	}
	var d span2
	was := l.route
	defer func() { l.route = was }()
	for i, r := range l.routes() {
		l.route = r
		e := tr(bo.Y).plus(tr(bo.X).neg())
		if i == 0 {
			d = e
		} else {
			d = d.join(e)
		}
	}
	switch op {
	case token.LSS, token.LEQ:
		return d.ok && d.hi <= -1
	case token.GTR, token.GEQ:
		return d.ok && d.lo >= 1
	}
	return false
}

var against = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.LEQ: token.GTR, token.GTR: token.LEQ, token.EQL: token.NEQ, token.NEQ: token.EQL}

// change2 gives the change of y - x over a round, way by way.
func (l *loopCheck) change2(x, y ssa.Value) (d span2) {
	was := l.route
	defer func() { l.route = was }()
	for i, r := range l.routes() {
		l.route = r
		e := l.trend(y).plus(l.trend(x).neg())
		if i == 0 {
			d = e
		} else {
			d = d.join(e)
		}
	}
	return
}

// became gives what a carried value is on the way at hand.
func (l *loopCheck) became(p *ssa.Phi) ssa.Value {
	var v ssa.Value
	for i, b := range l.head.Preds {
		if l.route[l.head] == b {
			v = p.Edges[i]
		}
	}
	for n := 0; n < 32; n++ {
		q, ok := v.(*ssa.Phi)
		if !ok || q.Block() == l.head || l.route[q.Block()] == nil {
			break
		}
		for i, b := range q.Block().Preds {
			if l.route[q.Block()] == b {
				v = q.Edges[i]
				break
			}
		}
	}
	return v
}

// halves: a search between two bounds that takes one of them to the middle.
func (l *loopCheck) halves(x, y ssa.Value, op token.Token) bool {
	lo, ok1 := x.(*ssa.Phi)
	hi, ok2 := y.(*ssa.Phi)
	if !ok1 || !ok2 || !l.carried(lo) || !l.carried(hi) || op != token.LSS && op != token.LEQ {
		return false
	}
	bare := func(v ssa.Value) ssa.Value {
		for {
			c, ok := v.(*ssa.Convert)
			if !ok || !isInt(c.X.Type()) {
				return v
			}
			v = c.X
		}
	}
	half := func(v ssa.Value, of func(ssa.Value) bool) bool {
		b, ok := bare(v).(*ssa.BinOp)
		if !ok {
			return false
		}
		k, ok := intConst(b.Y)
		return ok && (b.Op == token.QUO && k == 2 || b.Op == token.SHR && k == 1) && of(bare(b.X))
	}
	mid := func(v ssa.Value) bool {
		if half(v, func(s ssa.Value) bool {
			b, ok := s.(*ssa.BinOp)
			return ok && b.Op == token.ADD && (bare(b.X) == lo && bare(b.Y) == hi || bare(b.X) == hi && bare(b.Y) == lo)
		}) {
			return true
		}
		b, ok := bare(v).(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == lo && half(b.Y, func(s ssa.Value) bool {
			d, ok := s.(*ssa.BinOp)
			return ok && d.Op == token.SUB && d.X == hi && d.Y == lo
		})
	}
	was := l.route
	defer func() { l.route = was }()
	for _, r := range l.routes() {
		l.route = r
		a, b := l.became(lo), l.became(hi)
		up, down := false, false
		if s, ok := a.(*ssa.BinOp); ok && s.Op == token.ADD && mid(s.X) {
			k, ok := intConst(s.Y)
			up = ok && k >= 1
		}
		if op == token.LSS && mid(b) {
			down = true
		}
		if s, ok := b.(*ssa.BinOp); ok && s.Op == token.SUB && mid(s.X) {
			k, ok := intConst(s.Y)
			down = ok && k >= 1
		}
		if !(up && b == hi || down && a == lo) {
			return false
		}
	}
	return true
}

// wears: each round leaves a part of the number, down to nothing.
func (l *loopCheck) wears(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok || !l.carried(p) {
		return false
	}
	was := l.route
	defer func() { l.route = was }()
	for _, r := range l.routes() {
		l.route = r
		b, ok := l.became(p).(*ssa.BinOp)
		if !ok || b.X != p {
			return false
		}
		k, isK := intConst(b.Y)
		switch b.Op {
		case token.QUO:
			if !isK || k < 2 {
				return false
			}
		case token.SHR:
			if !isK || k < 1 || !isNat(p) {
				return false
			}
		case token.AND:
			s, ok := b.Y.(*ssa.BinOp)
			if !ok || s.Op != token.SUB || s.X != p {
				return false
			}
			if k, ok := intConst(s.Y); !ok || k != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// lookedFurther: a search in the rest of a text, which starts further on in
// every round.
func (l *loopCheck) lookedFurther(x *ssa.Call, cond *ssa.BinOp, want bool) bool {
	f := x.Call.StaticCallee()
	k, ok := intConst(cond.Y)
	if f == nil || f.Pkg == nil || !ok || len(x.Call.Args) != 2 || !strings.HasPrefix(f.Name(), "Index") {
		return false
	}
	if p := f.Pkg.Pkg.Path(); p != "strings" && p != "bytes" {
		return false
	}
	found := false
	switch cond.Op {
	case token.GEQ:
		found = want && k == 0
	case token.GTR:
		found = want && k == -1
	case token.LSS:
		found = !want && k == 0
	case token.EQL:
		found = !want && k == -1
	case token.NEQ:
		found = want && k == -1
	}
	s, ok := x.Call.Args[0].(*ssa.Slice)
	if !found || !ok || s.Low == nil || !l.still(s.X) || s.High != nil && !l.still(s.High) {
		return false
	}
	d := l.trend(s.Low)
	return d.ok && d.lo >= 1
}

// notGrown: nothing is put into the map being gone through under a new key.
func (l *loopCheck) notGrown(m ssa.Value) bool {
	for b := range l.in {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || mu.Map != m && !sameLoad(mu.Map, m) {
				continue
			}
			e, ok := mu.Key.(*ssa.Extract)
			if !ok {
				return false
			}
			nx, ok := e.Tuple.(*ssa.Next)
			if !ok {
				return false
			}
			if r, ok := nx.Iter.(*ssa.Range); !ok || r.X != m || e.Index != 1 {
				return false
			}
		}
	}
	return true
}

// ends decides the loop: the reason it ends for, or "".
func (l *loopCheck) ends() string {
	for b := range l.in {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for way := 0; way < 2; way++ {
			if l.mustTake(br, way) && l.stops(br.Cond, way == 0, 0) {
				return "bounded"
			}
		}
	}
	if l.reads() {
		return "reads on"
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		same := func(v ssa.Value) bool { return v == p }
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			if d := l.lenTrend(p); d.ok && d.hi <= -1 {
				return "shrinks"
			}
			continue
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				if d := l.lenTrend(p); d.ok && d.hi <= -1 {
					return "shrinks"
				}
			}
			continue
		}
		all := true
		for _, w := range l.ways(p) {
			beyond, ok := l.further(w, same)
			if !ok || !beyond {
				n, ok := l.typeDepth(w, same)
				beyond = ok && n < 0
			}
			all = all && beyond
		}
		if all {
			return "follows links"
		}
	}
	// variables kept in cells
	for b := range l.in {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || l.outside(u) {
				continue
			}
			switch t := u.Type().Underlying().(type) {
			case *types.Slice:
			case *types.Basic:
				if t.Info()&types.IsString == 0 {
					continue
				}
			default:
				continue
			}
			if d := l.lenTrend(u); d.ok && d.hi <= -1 {
				return "shrinks"
			}
		}
	}
	return ""
}

func c36(c *Ctx) {
	s := &c36state{c: c, stores: map[*types.Var][]*ssa.Store{}, unk: map[*ssa.Function]bool{}, reach: map[*ssa.Function]map[*ssa.Function]bool{}}
	nexts := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if v := addrVar(x.Addr); v != nil {
						s.stores[v] = append(s.stores[v], x)
					}
				case *ssa.Call, *ssa.Defer:
					gs, unknown := s.targets(x.(ssa.CallInstruction))
					if unknown {
						s.unk[f] = true
					}
					for _, g := range gs {
						if !seen[g] {
							seen[g] = true
							nexts[f] = append(nexts[f], g)
						}
					}
				}
			}
		}
	}
	s.next = func(f *ssa.Function) []*ssa.Function { return nexts[f] }
	for _, f := range c.P.Funcs {
		c.funcs[shortFn(f)] = true
		for _, n := range naturalLoops(f) {
			l := &loopCheck{c36state: s, natLoop: n, busy: map[ssa.Value]bool{}}
			why := l.ends()
			c.Check(why != "", "loop-ends", shortFn(f)+" loop", loopPos(n), "nothing brings this loop closer to its end in every round")
		}
	}
	c.Min("loop-ends", 40)
	s.recursion(nexts)
}

// sccs gives the groups of functions that call each other.
func sccs(fs []*ssa.Function, next func(f *ssa.Function) []*ssa.Function) (out [][]*ssa.Function) {
	num, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		num[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range next(f) {
			if g == f {
				self = true
			}
			if num[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && num[g] < low[f] {
				low[f] = num[g]
			}
		}
		if low[f] == num[f] {
			var group []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				group = append(group, g)
				if g == f {
					break
				}
			}
			if len(group) > 1 || self {
				out = append(out, group)
			}
		}
	}
	for _, f := range fs {
		if num[f] == 0 {
			visit(f)
		}
	}
	return
}

func (s *c36state) recursion(nexts map[*ssa.Function][]*ssa.Function) {
	c := s.c
	// the calls that bring nothing closer to an end must not form a cycle
	type site struct {
		ci ssa.CallInstruction
		to *ssa.Function
	}
	for _, group := range sccs(c.P.Funcs, s.next) {
		in := map[*ssa.Function]bool{}
		for _, f := range group {
			in[f] = true
		}
		plain, noAsk, noPut := map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function][]*ssa.Function{}
		at := map[*ssa.Function][]site{}
		for _, f := range group {
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					ci, ok := x.(ssa.CallInstruction)
					if _, isGo := x.(*ssa.Go); !ok || isGo {
						continue
					}
					gs, _ := s.targets(ci)
					for _, g := range gs {
						if !in[g] {
							continue
						}
						if s.closer(f, ci, g) {
							c.Check(true, "recursion-ends", shortFn(f)+" calling "+shortFn(g), x.Pos(), "")
							continue
						}
						args := ci.Common().Args
						if ci.Common().IsInvoke() {
							args = append([]ssa.Value{ci.Common().Value}, args...)
						}
						_, asks, puts := s.marks(f, ci, args)
						plain[f] = append(plain[f], g)
						if !asks {
							noAsk[f] = append(noAsk[f], g)
						}
						if !puts {
							noPut[f] = append(noPut[f], g)
						}
						at[f] = append(at[f], site{ci, g})
					}
				}
			}
		}
		of := func(m map[*ssa.Function][]*ssa.Function) int {
			return len(sccs(group, func(f *ssa.Function) []*ssa.Function { return m[f] }))
		}
		if of(plain) > 0 && len(group) > 1 && of(noAsk) == 0 && of(noPut) == 0 {
			// one function asks, the other records
			c.Check(true, "recursion-ends", shortFn(group[0])+" and others", group[0].Pos(), "")
			continue
		}
		for _, cyc := range sccs(group, func(f *ssa.Function) []*ssa.Function { return plain[f] }) {
			is := map[*ssa.Function]bool{}
			for _, f := range cyc {
				is[f] = true
			}
			for _, f := range cyc {
				for _, x := range at[f] {
					if is[x.to] {
						c.Check(false, "recursion-ends", shortFn(f)+" calling "+shortFn(x.to), x.ci.Pos(), "nothing brings these calls closer to their end: neither a smaller part, nor a limited level, nor a check of what is in progress")
					}
				}
			}
		}
	}
	c.Min("recursion-ends", 3)
}

func shortFn(f *ssa.Function) string { return f.String() }

func loopPos(n *natLoop) token.Pos {
	for _, in := range n.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range n.in {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return n.f.Pos()
}

// closer: the call is about less than its function was called with.
func (s *c36state) closer(f *ssa.Function, ci ssa.CallInstruction, g *ssa.Function) bool {
	args := ci.Common().Args
	if ci.Common().IsInvoke() {
		args = append([]ssa.Value{ci.Common().Value}, args...)
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		all[b] = true
	}
	l := &loopCheck{c36state: s, natLoop: &natLoop{f: f, head: ci.Block(), in: all}, busy: map[ssa.Value]bool{}}
	l.at = []edge{{from: ci.Block()}}
	own := func(v ssa.Value) bool {
		if fv, ok := v.(*ssa.FreeVar); ok {
			v = s.place(fv)
		}
		p, ok := v.(*ssa.Parameter)
		if !ok {
			return false
		}
		for g := f; g != nil; g = g.Parent() {
			if p.Parent() == g {
				return true
			}
		}
		return false
	}
	for i, a := range args {
		// a shorter list or text
		for _, p := range f.Params {
			if !types.Identical(p.Type(), a.Type()) && !isWrap(a) {
				continue
			}
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Basic:
				d := l.lenChange(a, func(v ssa.Value) bool { return v == p })
				if d.ok && d.hi <= -1 {
					return true
				}
			}
			if isInt(p.Type()) && isInt(a.Type()) {
				d := s.paramChange(l, a, p)
				if d.ok && (d.lo >= 1 && s.limited(l, ci, a, p, true) || d.hi <= -1 && s.limited(l, ci, a, p, false)) {
					return true
				}
			}
		}
		if _, isBasic := a.Type().Underlying().(*types.Basic); isBasic {
			continue
		}
		if _, isMap := a.Type().Underlying().(*types.Map); isMap {
			continue
		}
		_ = i
		if deeper, ok := s.part(ci, a, own, map[ssa.Value]bool{}); ok && deeper {
			return true
		}
	}
	return s.guarded(f, ci, args)
}

func isWrap(v ssa.Value) bool { _, ok := v.(*ssa.ChangeType); return ok }

// paramChange: how far a is from parameter p, which may be kept in a cell.
func (s *c36state) paramChange(l *loopCheck, a ssa.Value, p *ssa.Parameter) span2 {
	return l.plainChange(a, func(v ssa.Value) bool { return v == p })
}

// plainChange is change without taking values made before the loop aside.
func (l *loopCheck) plainChange(v ssa.Value, same func(ssa.Value) bool) span2 {
	if same(v) {
		return exact2(0)
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		sts, known := l.storesTo(l.place(u.X))
		if !known {
			return span2{}
		}
		d, first := span2{}, true
		for _, st := range sts {
			e := l.change(st.Val, same)
			if !e.ok {
				return span2{}
			}
			if first {
				d, first = e, false
			} else {
				d = d.join(e)
			}
		}
		return d
	}
	return l.change(v, same)
}

// limited: the call is only reached below (above) a fixed level.
func (s *c36state) limited(l *loopCheck, ci ssa.CallInstruction, a ssa.Value, p *ssa.Parameter, up bool) bool {
	for _, b := range l.f.Blocks {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			continue
		}
		cond, flip := br.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, flip = u.X, !flip
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if d := s.paramChange(l, x, p); !d.ok {
			x, y = y, x
			op = turned[op]
		}
		if d := s.paramChange(l, x, p); !d.ok {
			continue
		}
		switch k := y.(type) {
		case *ssa.Const:
		case *ssa.FreeVar:
		case *ssa.Parameter:
			if !handedOn(ci, k) {
				continue
			}
		case *ssa.UnOp:
			if fv, ok := k.X.(*ssa.FreeVar); ok {
				if sts, known := l.storesTo(l.place(fv)); !known || len(sts) > 1 {
					continue
				}
				break
			}
			if _, ok := k.X.(*ssa.Global); !ok {
				continue
			}
		default:
			continue
		}
		for way := 0; way < 2; way++ {
			t := b.Succs[way]
			if !onlyVia(l.f, b, t, ci.Block()) {
				continue
			}
			holds := (way == 0) != flip
			if up && (holds && (op == token.LSS || op == token.LEQ) || !holds && (op == token.GEQ || op == token.GTR)) {
				return true
			}
			if !up && (holds && (op == token.GTR || op == token.GEQ) || !holds && (op == token.LEQ || op == token.LSS)) {
				return true
			}
		}
	}
	return false
}

// handedOn: the call gives the parameter on as it is.
func handedOn(ci ssa.CallInstruction, p *ssa.Parameter) bool {
	g := ci.Common().StaticCallee()
	for i, q := range p.Parent().Params {
		if q == p && g == p.Parent() {
			return i < len(ci.Common().Args) && ci.Common().Args[i] == p
		}
	}
	return false
}

// onlyVia: every way to target goes from b to t last or before.
func onlyVia(f *ssa.Function, b, t, target *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		if x == target {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.Succs {
			if x == b && y == t {
				continue
			}
			if visit(y) {
				return true
			}
		}
		return false
	}
	return !visit(f.Blocks[0])
}

// part: v is (a part of) what the function was given; deeper: really a part.
func (s *c36state) part(ci ssa.CallInstruction, v ssa.Value, own func(ssa.Value) bool, busy map[ssa.Value]bool) (deeper, ok bool) {
	if own(v) {
		return false, true
	}
	if busy[v] {
		return false, false
	}
	busy[v] = true
	defer delete(busy, v)
	rec := func(v ssa.Value) (bool, bool) { return s.part(ci, v, own, busy) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false, false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if _, ok := s.addrPart(ci, a.X, own, busy); ok {
				return true, true
			}
		case *ssa.IndexAddr:
			if _, ok := rec(a.X); ok {
				return true, true
			}
			if _, ok := s.addrPart(ci, a.X, own, busy); ok {
				return true, true
			}
		default:
			return s.addrPart(ci, x.X, own, busy)
		}
	case *ssa.Field:
		if _, ok := rec(x.X); ok {
			return true, true
		}
	case *ssa.FieldAddr:
		if _, ok := s.addrPart(ci, x.X, own, busy); ok {
			return true, true
		}
	case *ssa.IndexAddr:
		if _, ok := rec(x.X); ok {
			return true, true
		}
	case *ssa.Index:
		if _, ok := rec(x.X); ok {
			return true, true
		}
	case *ssa.Lookup:
		if _, ok := rec(x.X); ok {
			return true, true
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if _, ok := rec(t.X); ok && x.Index == 0 {
				return true, true
			}
		case *ssa.Next:
			if r, isR := t.Iter.(*ssa.Range); isR && x.Index > 0 {
				if _, ok := rec(r.X); ok {
					return true, true
				}
			}
		case *ssa.TypeAssert:
			return rec(t.X)
		case *ssa.Call:
			return s.callPart(ci, t, own, busy)
		}
	case *ssa.TypeAssert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.Slice:
		return rec(x.X)
	case *ssa.Phi:
		any, all := false, true
		for i, e := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) {
				continue
			}
			if k, ok := e.(*ssa.Const); ok && k.Value == nil {
				continue
			}
			d, ok := rec(e)
			if !ok {
				return false, false
			}
			any = true
			all = all && d
		}
		return any && all, any
	case *ssa.Call:
		return s.callPart(ci, x, own, busy)
	}
	return false, false
}

// addrPart: the address of something that is (a part of) what was given.
func (s *c36state) addrPart(ci ssa.CallInstruction, v ssa.Value, own func(ssa.Value) bool, busy map[ssa.Value]bool) (bool, bool) {
	al, isAl := s.place(v).(*ssa.Alloc)
	if !isAl {
		return s.part(ci, v, own, busy)
	}
	any, all := false, true
	for _, r := range *al.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != al {
			continue
		}
		if busy[st.Val] {
			continue
		}
		d, ok := s.part(ci, st.Val, own, busy)
		if !ok {
			return false, false
		}
		any = true
		all = all && d
	}
	return any && all, any
}

func (s *c36state) callPart(ci ssa.CallInstruction, x *ssa.Call, own func(ssa.Value) bool, busy map[ssa.Value]bool) (bool, bool) {
	com := x.Common()
	rec := func(v ssa.Value) (bool, bool) { return s.part(ci, v, own, busy) }
	if com.IsInvoke() {
		if com.Method.FullName() == "(reflect.Type).Elem" && elemsOf(com.Value, own) {
			return true, true
		}
		return false, false
	}
	f := com.StaticCallee()
	if f == nil {
		return false, false
	}
	switch f.String() {
	case "(reflect.Value).Field", "(reflect.Value).Index", "(reflect.Value).MapIndex", "(reflect.Value).FieldByName":
		if _, ok := rec(com.Args[0]); ok {
			return s.structOnly(ci, x), true
		}
		return false, false
	case "(reflect.Value).Elem", "reflect.Indirect", "(reflect.Value).Addr", "(reflect.Value).Interface", "reflect.ValueOf":
		if strings.HasSuffix(f.String(), ".Elem") && elemsOf(com.Args[0], own) {
			return true, true
		}
		return rec(com.Args[0])
	}
	if !s.c.inModule(f) || f.Blocks == nil {
		return false, false
	}
	any, all := false, true
	for _, a := range com.Args {
		if d, ok := rec(a); ok {
			any = true
			all = all && d
		}
	}
	return any && all, any
}

// structOnly: the call is reached only for a field that is a struct itself,
// of which a value holds finitely many.
func (s *c36state) structOnly(ci ssa.CallInstruction, fld *ssa.Call) bool {
	f := ci.Parent()
	for _, r := range *fld.Referrers() {
		k, ok := r.(*ssa.Call)
		if !ok || k.Call.StaticCallee() == nil || k.Call.StaticCallee().Name() != "Kind" {
			continue
		}
		for _, r := range *k.Referrers() {
			bo, ok := r.(*ssa.BinOp)
			if !ok {
				continue
			}
			n, isK := intConst(bo.Y)
			if !isK || n != 25 {
				if n, isK = intConst(bo.X); !isK || n != 25 {
					continue
				}
			}
			for _, r := range *bo.Referrers() {
				br, ok := r.(*ssa.If)
				if !ok {
					continue
				}
				way := 0
				if bo.Op == token.NEQ {
					way = 1
				} else if bo.Op != token.EQL {
					continue
				}
				if onlyVia(f, br.Block(), br.Block().Succs[way], ci.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// byPresence: maps of the type are asked for the presence of a key.
func (s *c36state) byPresence(t types.Type) bool {
	yes := false
	for _, f := range s.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if lk, ok := in.(*ssa.Lookup); ok && types.Identical(lk.X.Type(), t) {
					if !lk.CommaOk {
						return false
					}
					yes = true
				}
			}
		}
	}
	return yes
}

// guarded: on every way to the call something was asked whether it is in
// progress, and this call put into the same record.
func (s *c36state) guarded(f *ssa.Function, ci ssa.CallInstruction, args []ssa.Value) bool {
	both, _, _ := s.marks(f, ci, args)
	return both
}

func (s *c36state) marks(f *ssa.Function, ci ssa.CallInstruction, args []ssa.Value) (both, asks, puts bool) {
	var maps []*ssa.Parameter
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Map); !ok {
			continue
		}
		for _, a := range args {
			if a == p {
				maps = append(maps, p)
			}
		}
	}
	if len(maps) == 0 {
		return false, false, false
	}
	bit := func(v ssa.Value) int {
		for i, p := range maps {
			if v == p {
				return 1 << i
			}
		}
		return 0
	}
	does := func(g *ssa.Function, what func(in ssa.Instruction, m ssa.Value) bool) bool {
		if g == nil || g.Blocks == nil || !s.c.inModule(g) || g == f {
			return false
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if len(g.Params) > 0 && what(in, g.Params[0]) {
					return true
				}
			}
		}
		return false
	}
	sets := func(in ssa.Instruction, m ssa.Value) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || mu.Map != m {
			return false
		}
		if k, ok := mu.Value.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return constant.BoolVal(k.Value) || s.byPresence(m.Type())
		}
		return true
	}
	looks := func(in ssa.Instruction, m ssa.Value) bool {
		lk, ok := in.(*ssa.Lookup)
		return ok && lk.X == m
	}
	drops := func(in ssa.Instruction, m ssa.Value) bool {
		cl, ok := in.(*ssa.Call)
		if ok {
			if b, isB := cl.Call.Value.(*ssa.Builtin); isB && b.Name() == "delete" {
				return cl.Call.Args[0] == m
			}
		}
		mu, ok := in.(*ssa.MapUpdate)
		if ok && mu.Map == m {
			return !sets(in, m)
		}
		return false
	}
	// asked: the way of a condition on which the thing is not in progress
	var asked func(cond ssa.Value) (int, int)
	asked = func(cond ssa.Value) (int, int) {
		switch x := cond.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT {
				m, w := asked(x.X)
				return m, 1 - w
			}
		case *ssa.Lookup:
			if m := bit(x.X); m != 0 {
				return m, 1
			}
		case *ssa.Extract:
			if lk, ok := x.Tuple.(*ssa.Lookup); ok {
				if m := bit(lk.X); m != 0 {
					return m, 1
				}
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 && does(g, looks) {
				return bit(x.Call.Args[0]), 1
			}
		}
		return 0, 0
	}
	type node struct {
		b           *ssa.BasicBlock
		tested, put int
	}
	seen := map[node]bool{}
	both, asks, puts = true, true, true
	var visit func(n node)
	visit = func(n node) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, in := range n.b.Instrs {
			for _, p := range maps {
				m := bit(p)
				if sets(in, p) {
					n.put |= m
				}
				if drops(in, p) {
					n.put &^= m
				}
				if cl, isC := in.(*ssa.Call); isC && len(cl.Call.Args) > 0 && cl.Call.Args[0] == p {
					if does(cl.Call.StaticCallee(), sets) {
						n.put |= m
					} else if does(cl.Call.StaticCallee(), drops) {
						n.put &^= m
					}
				}
			}
			if in == ci.(ssa.Instruction) {
				both = both && n.tested&n.put != 0
				asks = asks && n.tested != 0
				puts = puts && n.put != 0
			}
		}
		if br, isIf := n.b.Instrs[len(n.b.Instrs)-1].(*ssa.If); isIf {
			m, way := asked(br.Cond)
			for i, t := range n.b.Succs {
				k := node{t, n.tested, n.put}
				if m != 0 && i == way {
					k.tested |= m
				}
				visit(k)
			}
			return
		}
		for _, t := range n.b.Succs {
			visit(node{t, n.tested, n.put})
		}
	}
	visit(node{f.Blocks[0], 0, 0})
	return
}

// elemsOf: what pointers given lead to, and nothing else on the way.
func elemsOf(v ssa.Value, own func(ssa.Value) bool) bool {
	for i := 0; i < 4; i++ {
		if own(v) {
			return true
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if c.Call.IsInvoke() {
			if c.Call.Method.FullName() != "(reflect.Type).Elem" {
				return false
			}
			v = c.Call.Value
			continue
		}
		if f := c.Call.StaticCallee(); f == nil || f.String() != "(reflect.Value).Elem" {
			return false
		}
		v = c.Call.Args[0]
	}
	return false
}
