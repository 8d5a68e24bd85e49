package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options configures one analysis run.
type Options struct {
	Prog *Program
	// Event is called for every candidate action; true records it in the trace.
	Event func(st *State, e *Event) bool
	// Inline decides whether a module-local callee is entered (default: yes).
	Inline func(callee *ssa.Function) bool
	// MayPanic forks an extra panicking successor after the event.
	MayPanic func(st *State, e *Event) bool
	// Devirt resolves an interface method on a receiver of unknown concrete type.
	Devirt func(st *State, recv *Term, m *types.Func) *ssa.Function
	// Model supplies the result of an opaque call.
	Model func(st *State, e *Event) *Term
	// NonNilResult names functions whose first result is never nil.
	NonNilResult func(f *types.Func) bool
	// Pure marks additional callees as value functions of their arguments.
	Pure func(name string) bool
	// Init prepares the entry state; reports false to abandon.
	Init func(st *State, params []*Term)
	// Branch observes a decided branch literal.
	Branch func(st *State, l Lit, in *ssa.If)
	// Back observes a path going back to a loop header, before the values the
	// loop carries are renamed.
	Back func(st *State, header *ssa.BasicBlock)
	// CutAt makes a loop header a cut point: the loop is analysed for one
	// arbitrary iteration (0: no; 1: dropping the facts; 2: keeping them).
	CutAt func(header *ssa.BasicBlock) int
	// Entry observes the values a loop starts with (or goes on with) at a cut
	// point.
	Entry func(st *State, header *ssa.BasicBlock, vals map[*ssa.Phi]*Term, back bool)
	// Callback names the argument a call of an unknown function value calls
	// once, handing back its error, unless it fails before (-1: none).
	Callback func(st *State, e *Event) int
	// ReturnFrom observes returns of inlined functions.
	ReturnFrom func(st *State, fn *ssa.Function, res []*Term)
	// Closure and From analyse a closure as it was left behind at the end of
	// another run: with what it captured then.
	Closure    *Term
	From       *State
	Exact      bool // keep facts apart at joins
	MaxSteps   int
	MaxDepth   int
	KeepAssert bool
	// KeyFacts selects facts kept apart at joins without being Exact.
	KeyFacts   func(st *State, t *Term) bool
	StableCell func(k *Term) bool      // cells nobody else writes
	Stable     func(f *types.Var) bool // additional fields assumed unchanged by dynamic calls
	// Bounds reports every index, slice, make and division as an event of
	// kind "bounds" before it takes place.
	Bounds bool
}

func (a *analysis) bounds(s *State, name string, in ssa.Instruction, args ...*Term) {
	if a.opt.Bounds {
		a.emit(s, &Event{Kind: "bounds", Name: name, Args: args, Instr: in})
	}
}

// Exit is one abstract end of a path.
type Exit struct {
	Kind    string // return, panic
	Results []*Term
	St      *State
	Pos     token.Pos
	Instr   ssa.Instruction
}

// Result of a run.
type Result struct {
	Exits     []*Exit
	Params    []*Term
	Free      []*Term
	Truncated bool
	Steps     int
	States    int
	Fn        *ssa.Function
	Funcs     map[*ssa.Function]bool
	U         *Universe
}

var debugSteps, _ = strconv.Atoi(os.Getenv("ENG_DEBUG"))

type analysis struct {
	opt   *Options
	u     *Universe
	res   *Result
	memo  map[string]map[*Term]bool // facts joined so far (nil when exact)
	work  []*State
	ctxID map[string]int
	start time.Time
	root  *ssa.Function

	constCells map[*Term]bool
}

// Run analyses fn as an entry point.
func Run(fn *ssa.Function, opt *Options) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 60000
	}
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 8
	}
	u := opt.Prog.U
	a := &analysis{root: fn, opt: opt, u: u, memo: map[string]map[*Term]bool{}, ctxID: map[string]int{}, start: time.Now()}
	a.res = &Result{Fn: fn, U: u, Funcs: map[*ssa.Function]bool{}}
	st := &State{a: a, U: u, heap: map[*Term]*Term{}, epoch: map[interface{}]*Term{}, facts: map[*Term]bool{}, local: map[*Term]bool{}}
	fr := a.newFrame(fn, "", nil, nil)
	for i, p := range fn.Params {
		name := p.Name()
		if fn.Signature.Recv() != nil && i == 0 {
			name = "recv"
		}
		t := u.mk(OParam, name+"#"+strconv.Itoa(i), fn, p.Type())
		fr.env[p] = t
		a.res.Params = append(a.res.Params, t)
	}
	if opt.Closure != nil && opt.From != nil {
		for k, v := range opt.From.heap {
			st.heap[k] = v
		}
		for k, v := range opt.From.epoch {
			st.epoch[k] = v
		}
		for k, v := range opt.From.facts {
			st.facts[k] = v
		}
		a.constCells = map[*Term]bool{}
		a.constCaptures(fn, opt.Closure, st, 0)
		fr.free = append(fr.free, opt.Closure.Args...)
		a.res.Free = fr.free
	}
	for i, v := range fn.FreeVars {
		if i < len(fr.free) {
			continue
		}
		t := u.mk(OParam, "free:"+v.Name(), fn, v.Type())
		fr.free = append(fr.free, t)
		a.res.Free = append(a.res.Free, t)
	}
	st.frames = []*Frame{fr}
	if opt.Init != nil {
		opt.Init(st, a.res.Params)
	}
	a.push(st)
	a.loop()
	return a.res
}

// constCaptures finds the captured variables nobody writes any more.
func (a *analysis) constCaptures(fn *ssa.Function, cl *Term, st *State, depth int) {
	var mcs []*ssa.MakeClosure
	if p := fn.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					mcs = append(mcs, mc)
				}
			}
		}
	}
	for i, cell := range cl.Args {
		ok := len(mcs) > 0 && cell.Op == OAlloc
		for _, mc := range mcs {
			al, isA := mc.Bindings[i].(*ssa.Alloc)
			ok = ok && isA && readOnlyCapture(al, true)
		}
		if ok {
			a.constCells[cell] = true
		}
		if v := Strip(st.load(cell, elemOf(cell.Typ))); ok && v.Op == OClosure && depth < 3 {
			if g, isF := v.Obj.(*ssa.Function); isF {
				a.constCaptures(g, v, st, depth+1)
			}
		}
	}
}

// readOnlyCapture: the variable is written by the function declaring it only
// and its address goes to closures that read it.
func readOnlyCapture(v ssa.Value, own bool) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if !own || x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnlyCapture(x, own) {
				return false
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !readOnlyCapture(g.FreeVars[i], false) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (a *analysis) push(st *State) { a.work = append(a.work, st) }

func (a *analysis) newFrame(fn *ssa.Function, ctx string, call ssa.Value, free []*Term) *Frame {
	a.res.Funcs[fn] = true
	return &Frame{fn: fn, info: a.opt.Prog.Info(fn), ctx: ctx, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], call: call, free: free, kind: 'c'}
}

func (a *analysis) loop() {
	for len(a.work) > 0 {
		st := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.res.States++
		if st.cut {
			continue
		}
		for st != nil {
			a.res.Steps++
			if debugSteps > 0 && a.res.Steps < debugSteps {
				f := st.top()
				println(a.res.Steps, f.fn.Name(), f.block.Index, f.idx, len(st.facts), len(st.heap), len(a.u.all))
				for v, t := range f.env {
					println("     ", v.Name(), t.String())
				}
			}
			if a.res.Steps&1023 == 0 && a.exhausted() {
				a.res.Truncated = true
				return
			}
			if a.res.Steps > a.opt.MaxSteps*20 || a.res.States > a.opt.MaxSteps {
				a.res.Truncated = true
				return
			}
			cur := st
			st = a.step(st)
			if cur.cut {
				a.res.Exits = append(a.res.Exits, &Exit{Kind: "cut", St: cur})
				st = nil
			}
		}
	}
}

// exhausted bounds one run in time and memory (the run then counts as undecided).
func (a *analysis) exhausted() bool {
	if time.Since(a.start) > 120*time.Second {
		return true
	}
	if a.res.Steps&0xffff == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc > 6<<30
	}
	return false
}

// admit merges the state at a join point; returns false when covered.
func (a *analysis) admit(st *State) bool {
	st.gc()
	if a.opt.Exact {
		k := st.key(true)
		if _, ok := a.memo[k]; ok {
			return false
		}
		a.memo[k] = nil
		return true
	}
	k := st.key(false)
	old, ok := a.memo[k]
	if !ok {
		cp := make(map[*Term]bool, len(st.facts))
		for t, v := range st.facts {
			cp[t] = v
		}
		a.memo[k] = cp
		return true
	}
	changed := false
	n := map[*Term]bool{}
	for t, v := range old {
		if w, ok := st.facts[t]; ok && w == v {
			n[t] = v
		} else if s := st.evalPos(t); s >= 0 && (s == 1) == v {
			n[t] = v
		} else {
			changed = true
		}
	}
	if !changed {
		return false
	}
	a.memo[k] = n
	st.facts = make(map[*Term]bool, len(n))
	for t, v := range n {
		st.facts[t] = v
	}
	return true
}

// gc drops cells and facts about local allocations nobody can reach.
func (s *State) gc() {
	if len(s.local) == 0 {
		return
	}
	reach := map[*Term]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	// index heap by root
	byRoot := map[*Term][]*Term{}
	for k := range s.heap {
		r := rootOf(k)
		if s.local[r] {
			byRoot[r] = append(byRoot[r], k)
		}
	}
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OAlloc && s.local[t] && !reach[t] {
			reach[t] = true
			for _, c := range byRoot[t] {
				visit(s.heap[c])
				for _, x := range c.Args {
					visit(x)
				}
			}
		}
		for _, x := range t.Args {
			visit(x)
		}
	}
	for fi, f := range s.frames {
		for v, t := range f.env {
			if fi < len(s.frames)-1 {
				if !f.info.liveAfter(f.block, f.idx, v) {
					continue
				}
			} else if f.idx == 0 {
				if !f.info.liveIn[f.block][v] {
					if p, ok := v.(*ssa.Phi); !ok || p.Block() != f.block {
						continue
					}
				}
			} else if !f.info.liveAfter(f.block, f.idx, v) {
				continue
			}
			visit(t)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, x := range d.args {
				visit(x)
			}
		}
		for _, t := range f.free {
			visit(t)
		}
	}
	for _, t := range s.Vars {
		visit(t)
	}
	for k, v := range s.heap {
		if r := rootOf(k); r.Op != OAlloc || !s.local[r] {
			visit(v)
			visit(k)
		}
	}
	for _, e := range s.Trace {
		visit(e.Fn)
		visit(e.Recv)
		for _, x := range e.Args {
			visit(x)
		}
		visit(e.Addr)
		visit(e.Val)
	}
	if s.Panic != nil {
		visit(s.Panic)
	}
	for t := range s.local {
		if !reach[t] {
			for _, c := range byRoot[t] {
				delete(s.heap, c)
			}
			delete(s.local, t)
			for f := range s.facts {
				if s.U.Mentions(f, t) {
					delete(s.facts, f)
				}
			}
		}
	}
}

func rootOf(addr *Term) *Term {
	for {
		switch addr.Op {
		case OFAddr, OIAddr, OMAddr, OMOk, OSlice:
			addr = addr.Args[0]
		case OPure:
			if addr.Sym == "once" {
				addr = addr.Args[0]
				continue
			}
			return addr
		default:
			return addr
		}
	}
}

// Root is the base object an address belongs to.
func Root(t *Term) *Term { return rootOf(t) }

func (a *analysis) site(f *Frame, in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return f.ctx + ":" + strconv.Itoa(f.info.num[v])
	}
	return f.ctx + ":b" + strconv.Itoa(f.block.Index) + "." + strconv.Itoa(f.idx)
}

// fresh makes t denote a new value: earlier uses become old(t).
func (s *State) fresh(t *Term) {
	u := s.U
	old := u.Old(t)
	for f := range s.facts {
		if u.Mentions(f, t) {
			delete(s.facts, f)
		}
	}
	for _, fr := range s.frames {
		for v, x := range fr.env {
			if u.Mentions(x, t) {
				fr.env[v] = u.Subst(x, t, old)
			}
		}
		for i, x := range fr.free {
			fr.free[i] = u.Subst(x, t, old)
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			if d.fn != nil {
				d.fn = u.Subst(d.fn, t, old)
			}
			args := make([]*Term, len(d.args))
			for j, x := range d.args {
				args[j] = u.Subst(x, t, old)
			}
			d.args = args
		}
		// snapshots hold earlier contents on purpose
	}
	for k, v := range s.heap {
		if u.Mentions(k, t) {
			delete(s.heap, k)
			nk := u.Subst(k, t, old)
			if nk != k {
				if _, ok := s.heap[nk]; ok {
					s.heap[nk] = u.Opaque("merged", v.Typ, nk)
				} else {
					s.heap[nk] = u.Subst(v, t, old)
				}
			}
			continue
		}
		if u.Mentions(v, t) {
			s.heap[k] = u.Subst(v, t, old)
		}
	}
	for k, v := range s.epoch {
		if u.Mentions(v, t) {
			s.epoch[k] = u.Subst(v, t, old)
		}
	}
	if s.local[t] {
		s.local[old] = true
		delete(s.local, t)
	}
	for k, v := range s.Vars {
		s.Vars[k] = u.Subst(v, t, old)
	}
	if s.Panic != nil {
		s.Panic = u.Subst(s.Panic, t, old)
	}
	var out []*Event
	seen := map[string]int{}
	for _, e := range s.Trace {
		n := *e
		ch := false
		sub := func(x *Term) *Term {
			if x == nil {
				return nil
			}
			y := u.Subst(x, t, old)
			if y != x {
				ch = true
			}
			return y
		}
		n.Fn = sub(e.Fn)
		n.Recv = sub(e.Recv)
		n.Addr = sub(e.Addr)
		n.Val = sub(e.Val)
		n.Res = sub(e.Res)
		n.Args = make([]*Term, len(e.Args))
		for i, x := range e.Args {
			n.Args[i] = sub(x)
		}
		ev := e
		if ch {
			ev = &n
		}
		k := ev.key()
		if i, ok := seen[k]; ok {
			m := *out[i]
			m.Many = true
			out[i] = &m
			continue
		}
		seen[k] = len(out)
		out = append(out, ev)
	}
	s.Trace = out
}

func (f *Frame) loopy() bool { return f.inLoop || f.info.inLoop[f.block] }

// record appends an event, collapsing repeats.
func (s *State) record(e *Event) {
	k := e.key()
	for i, o := range s.Trace {
		if o.key() == k {
			if !o.Many {
				n := *o
				n.Many = true
				s.Trace[i] = &n
			}
			return
		}
	}
	s.Trace = append(s.Trace, e)
}

// Record lets a rule add a synthetic event.
// Snapshot is a copy of the state as it is now.
func (s *State) Snapshot() *State { return s.clone() }

func (s *State) Record(e *Event) { s.record(e) }

func (a *analysis) emit(s *State, e *Event) {
	f := s.top()
	e.In = f.fn
	e.Ctx = a.site(f, e.Instr)
	if e.Pos == token.NoPos {
		e.Pos = e.Instr.Pos()
	}
	e.InLoop = f.loopy()
	for _, x := range s.frames {
		if x.kind != 'c' {
			e.Defer = true
		}
	}
	if a.opt.Event != nil && a.opt.Event(s, e) {
		s.record(e)
	}
}

// ---- memory ----

func (s *State) epochOf(addr *Term) *Term {
	var key interface{}
	if s.a.opt.StableCell != nil && s.a.opt.StableCell(addr) {
		return s.U.Nil()
	}
	if len(s.a.constCells) > 0 && s.a.cellStable(addr) {
		return s.U.Nil()
	}
	switch addr.Op {
	case OFAddr:
		key = addr.Obj
		if e := s.epoch[key]; e != nil {
			return e
		}
		if s.a.opt.Prog.Immutable(addr.Obj.(*types.Var)) || s.a.opt.Stable != nil && s.a.opt.Stable(addr.Obj.(*types.Var)) {
			return s.U.Nil()
		}
	default:
		key = cellClass(addr)
		if e := s.epoch[key]; e != nil {
			return e
		}
	}
	if e := s.epoch["all"]; e != nil {
		if addr.Op == OGlobal && s.a.opt.Prog.ImmutableGlobal(addr.Obj.(*ssa.Global)) {
			return s.U.Nil()
		}
		return e
	}
	return s.U.Nil()
}

func cellClass(addr *Term) interface{} {
	switch addr.Op {
	case OFAddr:
		return addr.Obj
	case OIAddr:
		return "elem:" + typStr(addr.Typ)
	case OMAddr, OMOk:
		return "map:" + typStr(addr.Args[0].Typ)
	case OGlobal:
		return addr.Obj
	}
	return "cell:" + typStr(addr.Typ)
}

func typStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return x.Elem()
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	case *types.Chan:
		return x.Elem()
	}
	return nil
}

// Load reads a cell.
func (s *State) Load(addr *Term) *Term { return s.load(addr, elemOf(addr.Typ)) }

func (s *State) lookupWhole(addr *Term) (*Term, bool) {
	if v, ok := s.heap[addr]; ok {
		return v, true
	}
	switch addr.Op {
	case OFAddr:
		if b, ok := s.lookupWhole(addr.Args[0]); ok {
			return s.U.Field(b, addr.Obj.(*types.Var)), true
		}
	case OIAddr:
		if addr.Args[0].Op == OAlloc || addr.Args[0].Op == OFAddr {
			if b, ok := s.lookupWhole(addr.Args[0]); ok {
				if b.Op == OZero {
					if et := elemOf(b.Typ); et != nil {
						return s.U.Zero(et), true
					}
				}
				return s.U.mk(OIndex, "", nil, elemOf(addr.Typ), b, addr.Args[1]), true
			}
		}
	}
	return nil, false
}

func (s *State) load(addr *Term, typ types.Type) *Term {
	var base *Term
	if v, ok := s.lookupWhole(addr); ok {
		base = v
	} else {
		r := rootOf(addr)
		if r.Op == OAlloc && (s.local[r] || r.Op == OAlloc && s.epochOf(addr).IsNil()) && addr.Op != OOpaque && typ != nil {
			base = s.U.Zero(typ)
			if addr.Op == OIAddr {
				// some element: may it be one that was written?
				for k := range s.heap {
					if k.Op == OIAddr && k.Args[0] == addr.Args[0] && (addr.Args[1].Op != OConst || k.Args[1].Op != OConst) {
						base = s.U.mk(OLoad, "", nil, typ, addr, s.epochOf(addr))
						break
					}
				}
			}
		} else {
			base = s.U.mk(OLoad, "", nil, typ, addr, s.epochOf(addr))
		}
	}
	// overlay field cells
	if typ != nil {
		if stt, ok := typ.Underlying().(*types.Struct); ok {
			var over map[*types.Var]*Term
			for k := range s.heap {
				for x := k; x != nil && (x.Op == OFAddr || x.Op == OIAddr); x = x.Args[0] {
					if x.Op == OFAddr && x.Args[0] == addr {
						f := x.Obj.(*types.Var)
						if over == nil {
							over = map[*types.Var]*Term{}
						}
						if _, ok := over[f]; !ok {
							over[f] = s.load(s.U.FAddr(addr, f), f.Type())
						}
					}
				}
			}
			_ = stt
			if over != nil {
				return s.U.StructWith(base, over)
			}
		}
	}
	return base
}

func (s *State) noAlias(p, q *Term) bool {
	if p == q {
		return false
	}
	// different fields of structs never coincide
	if p.Op == OFAddr && q.Op == OFAddr {
		if p.Obj != q.Obj {
			return true
		}
		return s.noAlias(p.Args[0], q.Args[0])
	}
	if p.Op == OIAddr && q.Op == OIAddr && p.Args[0] == q.Args[0] {
		l := Lin(s.U.Bin("-", p.Args[1], q.Args[1], types.Typ[types.Int]))
		return len(l.Coeff) == 0 && l.C != 0
	}
	rp, rq := rootOf(p), rootOf(q)
	if rp == rq {
		return false
	}
	if rp.Op == OAlloc && rq.Op == OAlloc {
		return true
	}
	if s.local[rp] || s.local[rq] {
		return true
	}
	early := func(t *Term) bool {
		return t.Op == OParam || t.Op == OGlobal || t.Op == OLoad && t.Args[1].IsNil()
	}
	if rp.Op == OAlloc && early(rq) || rq.Op == OAlloc && early(rp) {
		return true
	}
	if rp.Op == OGlobal && rq.Op == OGlobal {
		return true
	}
	if p.Typ != nil && q.Typ != nil && p.Op != OIAddr && q.Op != OIAddr && !types.Identical(p.Typ.Underlying(), q.Typ.Underlying()) {
		return true
	}
	return false
}

func ancestor(x, a *Term) bool { // a is a strict ancestor address of x
	for x.Op == OFAddr || x.Op == OIAddr {
		x = x.Args[0]
		if x == a {
			return true
		}
	}
	return false
}

func (s *State) dropFactsOn(cell *Term) {} // facts speak about values, not cells

func (a *analysis) store(s *State, addr, val *Term, tok string) {
	for k := range s.heap {
		if k != addr && ancestor(k, addr) {
			delete(s.heap, k)
		}
	}
	for k := range s.heap {
		if k == addr {
			continue
		}
		if sameClass(k, addr) && !s.noAlias(k, addr) {
			delete(s.heap, k)
			r := rootOf(k)
			if r.Op == OAlloc {
				s.heap[k] = s.U.Opaque("clob@"+tok, elemOf(k.Typ), k)
			}
		}
	}
	if !s.local[rootOf(addr)] {
		e := s.U.Opaque("st@"+tok, nil)
		s.epoch[cellClass(addr)] = e
		s.escape(val)
	}
	s.heap[addr] = val
}

func sameClass(a, b *Term) bool {
	if a.Op != b.Op {
		return false
	}
	switch a.Op {
	case OFAddr:
		return a.Obj == b.Obj
	case OIAddr:
		return true
	case OMAddr, OMOk:
		return true
	}
	return cellClass(a) == cellClass(b)
}

// escape marks every allocation reachable from v as shared.
func (s *State) escape(v *Term) {
	if v == nil || len(s.local) == 0 {
		return
	}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OAlloc && s.local[t] {
			delete(s.local, t)
			for k, x := range s.heap {
				if rootOf(k) == t {
					visit(x)
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(v)
}

// havocAll forgets every shared mutable cell.
func (a *analysis) havocAll(s *State, tok string) {
	e := s.U.Opaque("dyn@"+tok, nil)
	s.freshIfSeen(e)
	for k := range s.heap {
		r := rootOf(k)
		if s.local[r] {
			continue
		}
		if a.cellStable(k) {
			continue
		}
		a.dropCell(s, k)
	}
	for k := range s.epoch {
		delete(s.epoch, k)
	}
	s.epoch["all"] = e
}

// dropCell forgets the value of a cell but for fields nobody writes.
func (a *analysis) dropCell(s *State, k *Term) {
	v := s.heap[k]
	delete(s.heap, k)
	t := elemOf(k.Typ)
	if v == nil || t == nil {
		return
	}
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		fa := s.U.FAddr(k, f)
		if _, ok := s.heap[fa]; !ok && a.cellStable(fa) {
			s.heap[fa] = s.U.Field(v, f)
		}
	}
}

func (a *analysis) cellStable(k *Term) bool {
	if len(a.constCells) > 0 {
		r := k
		for r.Op == OFAddr {
			r = r.Args[0]
		}
		if a.constCells[r] {
			return true
		}
	}
	if a.opt.StableCell != nil && a.opt.StableCell(k) {
		return true
	}
	x := k
	for {
		switch x.Op {
		case OFAddr:
			f := x.Obj.(*types.Var)
			if a.opt.Prog.Immutable(f) || a.opt.Stable != nil && a.opt.Stable(f) {
				return true
			}
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				return false
			}
			return false
		case OGlobal:
			return a.opt.Prog.ImmutableGlobal(x.Obj.(*ssa.Global))
		}
		return false
	}
}

func (s *State) freshIfSeen(t *Term) {
	if s.top().loopy() {
		s.fresh(t)
	}
}

// havocFields forgets cells of the given classes.
func (a *analysis) havocClasses(s *State, cl map[interface{}]bool, tok string) {
	if len(cl) == 0 {
		return
	}
	e := s.U.Opaque("call@"+tok, nil)
	s.freshIfSeen(e)
	for k := range s.heap {
		r := rootOf(k)
		if s.local[r] {
			continue
		}
		if cl[cellClass(k)] {
			a.dropCell(s, k)
		}
	}
	for c := range cl {
		s.epoch[c] = e
	}
}

// havocArg forgets what an external callee may write through a pointer.
func (a *analysis) havocArg(s *State, t *Term, tok string) {
	r := rootOf(t)
	e := s.U.Opaque("ext@"+tok, nil)
	for k := range s.heap {
		if k == t || ancestor(k, t) || r.Op == OAlloc && rootOf(k) == r && (t == r || t.Op == OSlice) {
			if (k.Op == OFAddr || k.Op == OAlloc) && a.cellStable(k) {
				continue
			}
			delete(s.heap, k)
			s.heap[k] = s.U.Opaque("ext@"+tok, elemOf(k.Typ), k)
		}
	}
	if r.Op == OAlloc && r.Typ != nil && e != nil {
		if _, ok := r.Typ.Underlying().(*types.Slice); ok {
			// the elements may be anything now
			if et := elemOf(r.Typ); et != nil {
				k := s.U.mk(OIAddr, "", nil, types.NewPointer(et), r, e)
				s.heap[k] = s.U.Opaque("ext@"+tok, et, k)
			}
		}
	}
	if r.Op == OAlloc && t.Op != OClosure && !(t.Op == OAlloc && a.cellStable(t)) {
		if _, ok := s.heap[t]; !ok && t.Typ != nil {
			if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
				if _, isStruct := p.Elem().Underlying().(*types.Struct); !isStruct {
					s.heap[t] = s.U.Opaque("ext@"+tok, elemOf(t.Typ), t)
				} else {
					s.heap[t] = s.U.Opaque("ext@"+tok, p.Elem(), t)
				}
			}
		}
	}
}

// Elems expands a slice built from a literal (or variadic call) into its elements.
func (s *State) Elems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case ONil:
		return nil, true
	case OBuiltin:
		if t.Sym == "slicelit" {
			return t.Args, true
		}
		if t.Sym == "append" && len(t.Args) == 2 {
			if a, ok := s.Elems(t.Args[0]); ok {
				if b, ok := s.Elems(t.Args[1]); ok {
					return append(append([]*Term(nil), a...), b...), true
				}
			}
		}
	case OSlice:
		al := t.Args[0]
		if al.Op != OAlloc || !t.Args[1].IsNil() {
			return nil, false
		}
		p, ok := al.Typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		arr, ok := p.Elem().Underlying().(*types.Array)
		if !ok || arr.Len() > 64 {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < arr.Len(); i++ {
			out = append(out, s.load(s.U.mk(OIAddr, "", nil, types.NewPointer(arr.Elem()), al, s.U.Int(i)), arr.Elem()))
		}
		return out, true
	}
	return nil, false
}

func (s *State) expand(t *Term) *Term {
	if t.Op == OSlice {
		if el, ok := s.Elems(t); ok {
			return s.U.mk(OBuiltin, "slicelit", nil, t.Typ, el...)
		}
	}
	return t
}

// ---- values ----

func (a *analysis) val(s *State, v ssa.Value) *Term {
	f := s.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	u := s.U
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return u.Zero(x.Type())
		}
		return u.ConstV(x.Value, x.Type())
	case *ssa.Global:
		return u.mk(OGlobal, x.RelString(nil), x, x.Type())
	case *ssa.Function:
		return u.mk(OFunc, x.RelString(nil), x, x.Type())
	case *ssa.Builtin:
		return u.mk(OFunc, "builtin "+x.Name(), x, x.Type())
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x && i < len(f.free) {
				return f.free[i]
			}
		}
	}
	t := u.Opaque("undef@"+f.ctx+":"+v.Name(), v.Type())
	f.env[v] = t
	return t
}

// step executes until the state forks, joins or ends; returns the state to
// continue with, or nil.
func (a *analysis) step(s *State) *State {
	f := s.top()
	if f.idx >= len(f.block.Instrs) {
		return nil
	}
	in := f.block.Instrs[f.idx]
	switch x := in.(type) {
	case *ssa.If:
		return a.doIf(s, x)
	case *ssa.Jump:
		return a.enter(s, f.block.Succs[0])
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, a.val(s, r))
		}
		return a.doReturn(s, res, x)
	case *ssa.Panic:
		v := a.val(s, x.X)
		a.emit(s, &Event{Kind: "panic", Args: []*Term{v}, Instr: x})
		s.Panic = v
		return a.unwind(s, x)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return a.invokeDeferred(s, d, 'd')
		}
		f.idx++
		return s
	}
	return a.exec(s, in)
}

// advance moves past the current instruction.
func (s *State) advance() *State { s.top().idx++; return s }

func (a *analysis) enter(s *State, b *ssa.BasicBlock) *State {
	f := s.top()
	prev := f.block
	u := s.U
	isBack := f.info.back[[2]*ssa.BasicBlock{prev, b}]
	if isBack && a.opt.Back != nil {
		a.opt.Back(s, b)
		if s.cut {
			return nil
		}
	}
	// parallel phi assignment
	type asg struct {
		p *ssa.Phi
		t *Term
	}
	var as []asg
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	// an If with both successors equal has two edges; values agree by fork order
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		as = append(as, asg{p, a.val(s, p.Edges[pi])})
	}
	cut := 0
	few := f.info.header[b] && a.fewRounds(s, f, b, func(p *ssa.Phi) *Term {
		for _, x := range as {
			if x.p == p {
				return x.t
			}
		}
		return nil
	})
	if f.info.header[b] && a.opt.CutAt != nil && !few {
		cut = a.opt.CutAt(b)
	}
	if few {
		// a short list is gone through element by element
	} else if cut > 0 {
		if a.opt.Entry != nil {
			vals := map[*ssa.Phi]*Term{}
			for _, x := range as {
				vals[x.p] = x.t
			}
			a.opt.Entry(s, b, vals, isBack)
		}
		if isBack {
			return nil
		}
		var ws []*Term
		for i := range as {
			p := as[i].p
			var obj interface{} = p
			if ind := f.info.induction(p); ind != nil {
				obj = a.opt.Prog.ind(p, ind)
			}
			w := u.mk(OOpaque, "phi@"+f.ctx+":"+strconv.Itoa(f.info.num[p]), obj, p.Type())
			ws = append(ws, w)
		}
		for _, w := range ws {
			s.fresh(w)
		}
		for i := range as {
			as[i].t = ws[i]
		}
		a.cutHeap(s, f, b)
		if cut == 1 {
			for t := range s.facts {
				delete(s.facts, t)
			}
		}
	} else if f.info.header[b] {
		if f.snaps == nil {
			f.snaps = map[*ssa.BasicBlock]map[*Term]*Term{}
			f.visits = map[*ssa.BasicBlock]int{}
		}
		if isBack {
			f.visits[b]++
			var widened []*Term
			for i := range as {
				cur := f.env[as[i].p]
				nt := as[i].t
				w := a.widenPhi(s, f, as[i].p, cur, nt)
				if w != nt {
					widened = append(widened, w)
				}
				as[i].t = w
			}
			// heap widening
			snap := f.snaps[b]
			var hs []*Term
			for k, v := range s.heap {
				old, ok := snap[k]
				if ok && old != v {
					if widenable(u, old, v) || f.visits[b] > 4 {
						hs = append(hs, k)
					}
				} else if !ok && v.Op != OLoad && Any(v, func(t *Term) bool { return t.Op == OLoad && t.Args[0] == k }) {
					// the cell moves away from what it held before the loop
					hs = append(hs, k)
				}
			}
			sort.Slice(hs, func(i, j int) bool { return hs[i].ID < hs[j].ID })
			for _, k := range hs {
				w := u.mk(OOpaque, "hphi@"+f.ctx+":b"+strconv.Itoa(b.Index), nil, elemOf(k.Typ), k)
				s.heap[k] = w
				widened = append(widened, w)
			}
			// a widened term now denotes this iteration's value
			phiVals := map[*Term]bool{}
			for _, w := range widened {
				phiVals[w] = true
			}
			for w := range phiVals {
				// keep the new bindings out of the renaming
				hold := map[*Term]bool{}
				for _, k := range hs {
					if s.heap[k] == w {
						hold[k] = true
						delete(s.heap, k)
					}
				}
				s.fresh(w)
				for k := range hold {
					s.heap[k] = w
				}
				for i := range as {
					if as[i].t != w {
						as[i].t = u.Subst(as[i].t, w, u.Old(w))
					}
				}
			}
		} else {
			f.visits[b] = 0
		}
		snap := make(map[*Term]*Term, len(s.heap))
		for k, v := range s.heap {
			snap[k] = v
		}
		f.snaps[b] = snap
	}
	for _, x := range as {
		f.env[x.p] = x.t
	}
	f.prev = prev
	f.block = b
	f.idx = len(as)
	// drop dead values
	live := f.info.liveIn[b]
	for v := range f.env {
		if !live[v] {
			if p, ok := v.(*ssa.Phi); !ok || p.Block() != b {
				delete(f.env, v)
			}
		}
	}
	if len(b.Preds) > 1 {
		// key() treats idx==0 specially for liveness
		i := f.idx
		f.idx = 0
		ok := a.admit(s)
		f.idx = i
		if !ok {
			return nil
		}
	}
	return s
}

// fewRounds: the loop counts from a known number to a known end nearby.
func (a *analysis) fewRounds(s *State, f *Frame, b *ssa.BasicBlock, incoming func(*ssa.Phi) *Term) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := br.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || cond.Block() != b {
		return false
	}
	x := cond.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && add.Block() == b {
		if _, ok := add.Y.(*ssa.Const); !ok {
			return false
		}
		x = add.X
	}
	p, ok := x.(*ssa.Phi)
	if !ok || p.Block() != b {
		return false
	}
	ind := f.info.induction(p)
	if ind == nil || !ind.HasStep || ind.Step <= 0 {
		return false
	}
	from := incoming(p)
	if from == nil {
		return false
	}
	lo, ok := from.IntVal()
	if !ok {
		return false
	}
	var hi int64
	if c, isC := cond.Y.(*ssa.Call); isC && c.Block() == b {
		bi, isB := c.Call.Value.(*ssa.Builtin)
		if !isB || bi.Name() != "len" {
			return false
		}
		if _, isPhi := c.Call.Args[0].(*ssa.Phi); isPhi {
			return false
		}
		if in, isIn := c.Call.Args[0].(ssa.Instruction); isIn && in.Block() == b {
			return false
		}
		hi, ok = s.knownLen(a.val(s, c.Call.Args[0]))
	} else {
		if in, isIn := cond.Y.(ssa.Instruction); isIn && in.Block() == b {
			return false
		}
		t := a.val(s, cond.Y)
		hi, ok = t.IntVal()
		if !ok && t.Op == OBuiltin && t.Sym == "len" {
			hi, ok = s.knownLen(t.Args[0])
		}
	}
	return ok && hi-lo <= 6
}

// cutHeap forgets the cells an arbitrary number of iterations may change.
func (a *analysis) cutHeap(s *State, f *Frame, b *ssa.BasicBlock) {
	u := s.U
	tok := f.ctx + ":cut" + strconv.Itoa(b.Index)
	body := f.info.body(b)
	changed := map[*ssa.Alloc]bool{}
	own := map[*ssa.Alloc]bool{}
	for _, bb := range f.fn.Blocks {
		for _, in := range bb.Instrs {
			if al, ok := in.(*ssa.Alloc); ok {
				own[al] = true
				changed[al] = changedIn(al, body) || captured(al)
			}
		}
	}
	quiet := a.quiet(body)
	var ks []*Term
	for k := range s.heap {
		r := rootOf(k)
		if !s.local[r] || quiet {
			continue
		}
		if al, ok := r.Obj.(*ssa.Alloc); ok && (own[al] && !changed[al] || !own[al] && setOnce(al)) {
			continue
		}
		ks = append(ks, k)
	}
	for t := range s.local {
		if _, ok := t.Obj.(*ssa.Alloc); !ok && !quiet {
			delete(s.local, t)
		}
	}
	for al, ch := range changed {
		if t, ok := f.env[al]; ok && ch {
			for k := range s.heap {
				if k != t && rootOf(k) == t {
					delete(s.heap, k)
				}
			}
			s.heap[t] = u.Nil()
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	if !quiet {
		cl, known := map[interface{}]bool(nil), false
		if a.opt.Bounds {
			cl, known = a.opt.Prog.blockMods(body)
		}
		if known {
			a.havocClasses(s, cl, tok)
		} else {
			a.havocAll(s, tok)
		}
	}
	for _, k := range ks {
		if _, ok := s.heap[k]; !ok {
			continue
		}
		w := u.mk(OOpaque, "hphi@"+tok, nil, elemOf(k.Typ), k)
		s.fresh(w)
		s.heap[k] = w
	}
}

// quiet: the blocks change nothing but variables of their own function.
func (a *analysis) quiet(body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				v := x.Addr
				for done := false; !done; {
					switch y := v.(type) {
					case *ssa.FieldAddr:
						v = y.X
					case *ssa.IndexAddr:
						v = y.X
					default:
						done = true
					}
				}
				if _, ok := v.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers, *ssa.MakeClosure:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n == "len" || n == "cap" || n == "min" || n == "max" {
						continue
					}
					return false
				}
				fn := x.Call.StaticCallee()
				if !isPure(calleeName(&x.Call)) && (fn == nil || !a.opt.Prog.HasBody(fn) || !a.opt.Prog.PureFunc(fn)) {
					return false
				}
			}
		}
	}
	return true
}

// setOnce: the variable keeps the value it is given first.
func setOnce(al *ssa.Alloc) bool {
	n := 0
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			all := map[*ssa.BasicBlock]bool{}
			for _, b := range fn.Blocks {
				all[b] = true
			}
			for i, v := range x.Bindings {
				if v == ssa.Value(al) && (changedIn(fn.FreeVars[i], all) || captured(fn.FreeVars[i])) {
					return false
				}
			}
		default:
			return false
		}
	}
	return n <= 1
}

// captured: a function that may be called anywhere writes the variable.
func captured(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		m, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		later := true
		for _, u := range *m.Referrers() {
			_, isD := u.(*ssa.Defer)
			later = later && isD
		}
		if later {
			continue // it runs when the loop is long over
		}
		fn := m.Fn.(*ssa.Function)
		all := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			all[b] = true
		}
		for i, x := range m.Bindings {
			if x == v && (changedIn(fn.FreeVars[i], all) || captured(fn.FreeVars[i])) {
				return true
			}
		}
	}
	return false
}

// changedIn: the variable is written or handed on by one of the blocks.
func changedIn(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if changedIn(x.(ssa.Value), body) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			if body[r.Block()] {
				return true
			}
		}
	}
	return false
}

func widenable(u *Universe, old, nw *Term) bool {
	if nw.Op == OConst && (nw.Const.Kind() == constant.Bool) || nw.Op == ONil {
		return false
	}
	if nw.Op == OConst && old.Op == OConst {
		return true
	}
	if nw.Op == OOpaque && strings.HasPrefix(nw.Sym, "hphi@") {
		return false
	}
	if isInteger(nw.Typ) && nw.Op == OBin {
		d := Lin(u.Bin("-", nw, old, nw.Typ))
		if len(d.Coeff) == 0 && d.C != 0 {
			return true
		}
	}
	return u.Mentions(nw, old) || nw.size > 60
}

func (a *analysis) widenPhi(s *State, f *Frame, p *ssa.Phi, cur, nt *Term) *Term {
	u := s.U
	if nt == cur {
		return nt
	}
	if nt.Op == OConst && nt.Const.Kind() == constant.Bool || nt.Op == ONil {
		return nt
	}
	ind := f.info.induction(p)
	var obj interface{} = p
	if ind != nil {
		obj = a.opt.Prog.ind(p, ind)
	}
	w := u.mk(OOpaque, "phi@"+f.ctx+":"+strconv.Itoa(f.info.num[p]), obj, p.Type())
	if nt == w {
		return nt
	}
	if cur == w && ind == nil && !u.Mentions(nt, w) && nt.Op != OConst {
		return w
	}
	if ind != nil || cur == nil && nt.Op == OConst || cur != nil && (nt.Op == OConst && cur.Op == OConst || u.Mentions(nt, cur)) || u.Mentions(nt, w) || f.visits[p.Block()] > 3 || nt.size > 60 {
		return w
	}
	return nt
}

func (a *analysis) doIf(s *State, x *ssa.If) *State {
	f := s.top()
	c := a.val(s, x.Cond)
	l := s.U.Canon(c)
	t, e := f.block.Succs[0], f.block.Succs[1]
	switch s.Eval(l) {
	case 1:
		if a.opt.Branch != nil {
			a.opt.Branch(s, l, x)
		}
		return a.enter(s, t)
	case 0:
		if a.opt.Branch != nil {
			a.opt.Branch(s, l.Not(), x)
		}
		return a.enter(s, e)
	}
	s2 := s.clone()
	s.facts[l.T] = !l.Neg
	s2.facts[l.T] = l.Neg
	a.learn(s, l)
	a.learn(s2, l.Not())
	if a.opt.Branch != nil {
		a.opt.Branch(s, l, x)
		a.opt.Branch(s2, l.Not(), x)
	}
	if n := a.enter(s2, e); n != nil {
		a.push(n)
	}
	return a.enter(s, t)
}

// learn derives consequences of a new fact.
func (a *analysis) learn(s *State, l Lit) {
	if !l.Neg && l.T.Op == OIs {
		s.facts[s.U.Canon(s.U.EqNil(l.T.Args[0])).T] = false
	}
}

func (a *analysis) doReturn(s *State, res []*Term, in ssa.Instruction) *State {
	f := s.top()
	if a.opt.ReturnFrom != nil {
		a.opt.ReturnFrom(s, f.fn, res)
	}
	if len(s.frames) == 1 {
		a.res.Exits = append(a.res.Exits, &Exit{Kind: "return", Results: res, St: s, Pos: in.Pos(), Instr: in})
		return nil
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	switch f.kind {
	case 'c':
		if f.call != nil {
			switch len(res) {
			case 0:
			case 1:
				c.env[f.call] = res[0]
			default:
				c.env[f.call] = s.U.mk(OTuple, "", nil, nil, res...)
			}
		}
		c.idx++
	case 'd':
		// stay on RunDefers
	case 'p':
		if s.Panic != nil {
			if !a.admit(s) {
				return nil
			}
			return a.unwind(s, in)
		}
		return a.recovered(s, in)
	}
	if !a.admit(s) {
		return nil
	}
	return s
}

// recovered resumes a frame whose deferred call recovered.
func (a *analysis) recovered(s *State, in ssa.Instruction) *State {
	f := s.top()
	// remaining defers run normally, then the function returns its named results
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		st := a.invokeDeferred(s, d, 'p')
		return st
	}
	if f.fn.Recover != nil {
		f.prev = f.block
		f.block = f.fn.Recover
		f.idx = 0
		return s
	}
	var res []*Term
	for i := 0; i < f.fn.Signature.Results().Len(); i++ {
		res = append(res, s.U.Zero(f.fn.Signature.Results().At(i).Type()))
	}
	return a.doReturn(s, res, in)
}

func (a *analysis) unwind(s *State, in ssa.Instruction) *State {
	for {
		f := s.top()
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return a.invokeDeferred(s, d, 'p')
		}
		if len(s.frames) == 1 {
			a.res.Exits = append(a.res.Exits, &Exit{Kind: "panic", Results: []*Term{s.Panic}, St: s, Pos: in.Pos(), Instr: in})
			return nil
		}
		s.frames = s.frames[:len(s.frames)-1]
		if f.kind == 'd' {
			// panic inside a deferred call run normally: outer frame unwinds too
			continue
		}
	}
}

// invokeDeferred runs a deferred call in the current frame.
func (a *analysis) invokeDeferred(s *State, d deferred, kind byte) *State {
	com := &d.instr.Call
	st := a.call(s, d.instr, com, nil, d.fn, d.args, kind)
	return st
}

func (a *analysis) exec(s *State, in ssa.Instruction) *State {
	f := s.top()
	u := s.U
	set := func(v ssa.Value, t *Term) *State {
		f.env[v] = t
		f.idx++
		return s
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.idx++
		return s
	case *ssa.Phi:
		f.idx++
		return s
	case *ssa.Alloc:
		t := u.mk(OAlloc, x.Comment+"@"+a.site(f, x), x, x.Type())
		if f.loopy() {
			s.fresh(t)
		}
		s.local[t] = true
		return set(x, t)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		var args []*Term
		if ms, ok := in.(*ssa.MakeSlice); ok {
			args = []*Term{a.val(s, ms.Len), a.val(s, ms.Cap)}
			a.bounds(s, "make", in, args...)
		}
		if mc, ok := in.(*ssa.MakeChan); ok {
			args = []*Term{a.val(s, mc.Size)}
		}
		t := u.mk(OAlloc, "make@"+a.site(f, in), in, v.Type(), args...)
		if f.loopy() {
			s.fresh(t)
		}
		s.local[t] = true
		e := &Event{Kind: "make", Name: typStr(v.Type()), Args: args, Res: t, Instr: in}
		a.emit(s, e)
		return set(v, t)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && a.opt.Bounds {
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				a.bounds(s, "div", in, a.val(s, x.X), a.val(s, x.Y))
			}
		}
		return set(x, a.binop(s, x))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			addr := a.val(s, x.X)
			if addr.IsNil() {
				return nil // nil dereference: path ends in a runtime panic
			}
			t := s.load(addr, x.Type())
			if a.opt.Event != nil {
				a.emitLoad(s, x, addr, t)
			}
			return set(x, t)
		case token.ARROW:
			ch := a.val(s, x.X)
			t := u.Opaque("recv@"+a.site(f, x), x.Type(), ch)
			if f.loopy() {
				s.fresh(t)
			}
			a.emit(s, &Event{Kind: "recv", Recv: ch, Res: t, Instr: x})
			if x.CommaOk {
				t = u.mk(OTuple, "", nil, nil, t, u.Opaque("recvok@"+a.site(f, x), types.Typ[types.Bool], ch))
			}
			return set(x, t)
		case token.NOT:
			return set(x, u.mk(OUn, "!", nil, x.Type(), a.val(s, x.X)))
		case token.SUB:
			return set(x, u.Bin("-", u.Int(0), a.val(s, x.X), x.Type()))
		default:
			return set(x, u.mk(OUn, x.Op.String(), nil, x.Type(), a.val(s, x.X)))
		}
	case *ssa.ChangeType:
		t := a.val(s, x.X)
		return set(x, t)
	case *ssa.ChangeInterface:
		return set(x, a.val(s, x.X))
	case *ssa.MakeInterface:
		t := a.val(s, x.X)
		return set(x, a.mkIface(u, t, x.X.Type()))
	case *ssa.Convert, *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		var op ssa.Value
		switch y := in.(type) {
		case *ssa.Convert:
			op = y.X
		case *ssa.MultiConvert:
			op = y.X
		case *ssa.SliceToArrayPointer:
			op = y.X
		}
		t := a.val(s, op)
		return set(v, a.convert(s, t, op.Type(), v.Type()))
	case *ssa.FieldAddr:
		b := a.val(s, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if b.IsNil() {
			return nil
		}
		return set(x, u.FAddr(b, st.Field(x.Field)))
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return set(x, u.Field(a.val(s, x.X), st.Field(x.Field)))
	case *ssa.IndexAddr:
		b := a.val(s, x.X)
		i := a.val(s, x.Index)
		a.bounds(s, "index", in, b, i)
		// indexing a full slice of an allocation indexes the allocation
		if b.Op == OSlice && b.Args[1].IsNil() {
			b = b.Args[0]
		} else if b.Op == OSlice {
			i = u.Bin("+", i, b.Args[1], types.Typ[types.Int])
			b = b.Args[0]
		}
		if n, ok := i.IntVal(); ok {
			s.inBounds(b, n+1)
		}
		return set(x, u.mk(OIAddr, "", nil, x.Type(), b, i))
	case *ssa.Index:
		b, i := a.val(s, x.X), a.val(s, x.Index)
		a.bounds(s, "index", in, b, i)
		if b.Op == OZero {
			return set(x, u.Zero(x.Type()))
		}
		return set(x, u.mk(OIndex, "", nil, x.Type(), b, i))
	case *ssa.Lookup:
		m, k := a.val(s, x.X), a.val(s, x.Index)
		if isString(x.X.Type()) {
			a.bounds(s, "index", in, m, k)
			return set(x, u.mk(OIndex, "", nil, x.Type(), m, k))
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		v, ok := s.mapLoad(m, k, et)
		if x.CommaOk {
			return set(x, u.mk(OTuple, "", nil, nil, v, ok))
		}
		return set(x, v)
	case *ssa.MapUpdate:
		m, k, v := a.val(s, x.Map), a.val(s, x.Key), a.val(s, x.Value)
		addr := u.mk(OMAddr, "", nil, types.NewPointer(x.Value.Type()), m, k)
		a.emit(s, &Event{Kind: "mapset", Recv: m, Addr: addr, Args: []*Term{k, v}, Val: v, Instr: x})
		a.mapStore(s, m, k, v, u.Bool(true), a.site(f, x))
		f.idx++
		return s
	case *ssa.Store:
		addr, v := a.val(s, x.Addr), a.val(s, x.Val)
		if addr.IsNil() {
			return nil
		}
		nm := ""
		switch addr.Op {
		case OFAddr:
			nm = addr.Sym
		case OGlobal:
			nm = addr.Sym
		}
		a.emit(s, &Event{Kind: "store", Name: nm, Addr: addr, Val: v, Instr: x})
		a.store(s, addr, v, a.site(f, x))
		f.idx++
		return s
	case *ssa.Slice:
		b := a.val(s, x.X)
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return u.Nil()
			}
			return a.val(s, v)
		}
		lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
		a.bounds(s, "slice", in, b, lo, hi, mx)
		if v, ok := lo.IntVal(); ok && v == 0 {
			lo = u.Nil()
		}
		if isLen(hi) && hi.Args[0] == b {
			hi = u.Nil()
		}
		if lo.IsNil() && hi.IsNil() && mx.IsNil() {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
				return set(x, b)
			}
		}
		if sv, ok := b.StrVal(); ok {
			l, h := int64(0), int64(len(sv))
			ok1, ok2 := true, true
			if !lo.IsNil() {
				l, ok1 = lo.IntVal()
			}
			if !hi.IsNil() {
				h, ok2 = hi.IntVal()
			}
			if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(sv)) {
				return set(x, u.Str(sv[l:h]))
			}
		}
		if n, ok := lo.IntVal(); ok && hi.IsNil() {
			s.inBounds(b, n)
		}
		if bt, isB := x.X.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsString != 0 && b.Op == OSlice && b.Args[2].IsNil() {
			// a piece of a piece
			in := b.Args[1]
			shift := func(t *Term) *Term {
				if in.IsNil() || t.IsNil() {
					return t
				}
				return u.Bin("+", in, t, types.Typ[types.Int])
			}
			if lo.IsNil() {
				lo = in
			} else {
				lo = shift(lo)
			}
			hi, b = shift(hi), b.Args[0]
		}
		return set(x, u.mk(OSlice, "", nil, x.Type(), b, lo, hi, mx))
	case *ssa.TypeAssert:
		v := a.val(s, x.X)
		is := u.Is(v, x.AssertedType)
		val := a.taVal(s, v, x.AssertedType)
		if x.CommaOk {
			switch s.evalPos(is) {
			case 1:
				return set(x, u.mk(OTuple, "", nil, nil, val, u.Bool(true)))
			case 0:
				return set(x, u.mk(OTuple, "", nil, nil, u.Zero(x.AssertedType), u.Bool(false)))
			}
			// fork so that the value and the outcome stay correlated
			s2 := s.clone()
			s2.facts[is] = false
			f2 := s2.top()
			f2.env[x] = u.mk(OTuple, "", nil, nil, u.Zero(x.AssertedType), u.Bool(false))
			f2.idx++
			a.push(s2)
			s.facts[is] = true
			a.learn(s, Lit{is, false})
			return set(x, u.mk(OTuple, "", nil, nil, val, u.Bool(true)))
		}
		r := s.evalPos(is)
		a.emit(s, &Event{Kind: "assert", Name: typStr(x.AssertedType), Args: []*Term{v}, Val: u.Bool(r == 1), Instr: x})
		if r == 0 {
			return nil
		}
		s.facts[is] = true
		a.learn(s, Lit{is, false})
		return set(x, val)
	case *ssa.Extract:
		t := a.val(s, x.Tuple)
		return set(x, s.extract(t, x.Index, x.Type()))
	case *ssa.Range:
		m := a.val(s, x.X)
		t := u.mk(ORange, "range@"+a.site(f, x), nil, nil, m)
		return set(x, t)
	case *ssa.Next:
		it := a.val(s, x.Iter)
		t := u.mk(OOpaque, "next@"+a.site(f, x), nil, nil, it)
		if f.loopy() {
			s.fresh(t)
		}
		tup := x.Type().(*types.Tuple)
		okT := u.mk(OExtract, "0", nil, types.Typ[types.Bool], t)
		kT := u.mk(OExtract, "1", nil, tup.At(1).Type(), t)
		var vT *Term
		if x.IsString {
			vT = u.mk(OExtract, "2", nil, tup.At(2).Type(), t)
		} else {
			vt := tup.At(2).Type()
			m := it.Args[0]
			if mt, ok := rangeMapElem(m, x); ok {
				vt = mt
			}
			if b, ok := vt.(*types.Basic); ok && b.Kind() == types.Invalid {
				vT = u.mk(OExtract, "2", nil, nil, t)
			} else {
				vT, _ = s.mapLoad(m, kT, vt)
			}
		}
		if x.IsString {
			if sv, ok := it.Args[0].StrVal(); ok && sv == "" {
				okT = u.Bool(false)
			}
		}
		return set(x, u.mk(OTuple, "", nil, nil, okT, kT, vT))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, a.val(s, y))
		}
		return set(x, u.mk(OClosure, fn.RelString(nil), fn, x.Type(), b...))
	case *ssa.Send:
		ch, v := a.val(s, x.Chan), a.val(s, x.X)
		a.emit(s, &Event{Kind: "send", Recv: ch, Args: []*Term{v}, Instr: x})
		s.escape(v)
		f.idx++
		return s
	case *ssa.Select:
		n := len(x.States)
		total := n
		if !x.Blocking {
			total++
		}
		for i := 1; i < total; i++ {
			s2 := s.clone()
			a.selectCase(s2, x, i)
			a.push(s2)
		}
		if total == 0 {
			return nil
		}
		a.selectCase(s, x, 0)
		return s
	case *ssa.Go:
		com := &x.Call
		e := a.callEvent(s, x, com, nil, nil, false)
		e.Kind = "go"
		for _, t := range e.Args {
			s.escape(t)
		}
		s.escape(e.Fn)
		s.escape(e.Recv)
		a.emit(s, e)
		f.idx++
		return s
	case *ssa.Defer:
		com := &x.Call
		d := deferred{instr: x}
		d.fn = a.val(s, com.Value)
		for _, y := range com.Args {
			d.args = append(d.args, a.val(s, y))
		}
		dup := 0
		for _, o := range f.defers {
			if o.instr == x {
				dup++
			}
		}
		a.emit(s, &Event{Kind: "defer", Name: calleeName(com), Fn: d.fn, Args: d.args, Instr: x})
		if dup < 2 {
			f.defers = append(f.defers, d)
		}
		f.idx++
		return s
	case *ssa.Call:
		return a.call(s, x, &x.Call, x, nil, nil, 'c')
	}
	// anything else: unknown value
	if v, ok := in.(ssa.Value); ok {
		t := u.Opaque("instr@"+a.site(f, in), v.Type())
		if f.loopy() {
			s.fresh(t)
		}
		return set(v, t)
	}
	f.idx++
	return s
}

func rangeMapElem(m *Term, x *ssa.Next) (types.Type, bool) {
	if r, ok := x.Iter.(*ssa.Range); ok {
		if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
			return mt.Elem(), true
		}
	}
	return nil, false
}

func (a *analysis) emitLoad(s *State, x *ssa.UnOp, addr, v *Term) {
	nm := ""
	switch addr.Op {
	case OFAddr, OGlobal:
		nm = addr.Sym
	}
	a.emit(s, &Event{Kind: "load", Name: nm, Addr: addr, Val: v, Instr: x})
}

func (a *analysis) selectCase(s *State, x *ssa.Select, i int) {
	f := s.top()
	u := s.U
	idx := int64(i)
	var recvd []*Term
	if i < len(x.States) {
		st := x.States[i]
		ch := a.val(s, st.Chan)
		if st.Dir == types.SendOnly {
			v := a.val(s, st.Send)
			a.emit(s, &Event{Kind: "send", Recv: ch, Args: []*Term{v}, Instr: x, Name: "select"})
		} else {
			t := u.Opaque("selrecv@"+a.site(f, x)+"."+strconv.Itoa(i), nil, ch)
			if f.loopy() {
				s.fresh(t)
			}
			a.emit(s, &Event{Kind: "recv", Recv: ch, Res: t, Instr: x, Name: "select"})
		}
	} else {
		idx = -1
		a.emit(s, &Event{Kind: "default", Instr: x, Name: "select"})
	}
	tup := x.Type().(*types.Tuple)
	recvd = append(recvd, u.Int(idx), u.Opaque("selok@"+a.site(f, x), types.Typ[types.Bool]))
	j := 0
	for k, st := range x.States {
		if st.Dir == types.RecvOnly {
			ch := a.val(s, st.Chan)
			var t *Term
			if k == i {
				t = u.Opaque("selrecv@"+a.site(f, x)+"."+strconv.Itoa(i), nil, ch)
			} else {
				t = u.Zero(tup.At(2 + j).Type())
			}
			recvd = append(recvd, t)
			j++
		}
	}
	f.env[x] = u.mk(OTuple, "", nil, nil, recvd...)
	f.idx++
}

func (u *Universe) Is(v *Term, T types.Type) *Term {
	return u.mk(OIs, typStr(T), u.typeKey(T), types.Typ[types.Bool], v)
}

var typeKeys = map[string]*typeKey{}

func (u *Universe) typeKey(t types.Type) *typeKey {
	k := typStr(t)
	if x := typeKeys[k]; x != nil {
		return x
	}
	x := &typeKey{t}
	typeKeys[k] = x
	return x
}

// IsType gives the asserted type of an OIs term.
func IsType(t *Term) types.Type {
	if k, ok := t.Obj.(*typeKey); ok {
		return k.t
	}
	return nil
}

func (a *analysis) taVal(s *State, v *Term, T types.Type) *Term {
	if types.IsInterface(T) {
		return v
	}
	if v.Op == OIface {
		return v.Args[0]
	}
	if dt := v.Typ; dt != nil && !types.IsInterface(dt) && types.Identical(dt, T) {
		return v
	}
	return s.U.mk(OTA, typStr(T), s.U.typeKey(T), T, v)
}

func (a *analysis) mkIface(u *Universe, t *Term, typ types.Type) *Term {
	if types.IsInterface(typ) {
		return t
	}
	if t.Op == OConst || t.Op == ONil || t.Typ == nil || !types.Identical(t.Typ, typ) || types.IsInterface(t.Typ) {
		return u.mk(OIface, typStr(typ), u.typeKey(typ), typ, t)
	}
	return t
}

// Strip removes interface wrapping.
func Strip(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func (a *analysis) convert(s *State, t *Term, from, to types.Type) *Term {
	u := s.U
	if t.Op == OConst {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				if v, ok := t.IntVal(); ok {
					return u.ConstV(constant.MakeString(string(rune(v))), to)
				}
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return u.ConstV(t.Const, to)
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return u.ConstV(t.Const, to)
			}
		}
	}
	if isString(from) && isString(to) {
		return t
	}
	// []byte <-> string round trips and identical representations
	if t.Op == OConv && t.Args[0].Typ != nil {
		if isString(to) && isString(t.Args[0].Typ) {
			return t.Args[0]
		}
		if types.Identical(t.Args[0].Typ, to) && widerInt(t.Typ, to) {
			return t.Args[0]
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return t
	}
	return u.mk(OConv, typStr(to), u.typeKey(to), to, t)
}

func widerInt(mid, orig types.Type) bool {
	a, ok1 := mid.Underlying().(*types.Basic)
	b, ok2 := orig.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return true
	}
	if a.Info()&types.IsInteger == 0 || b.Info()&types.IsInteger == 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(a) > sz.Sizeof(b)
}

func (s *State) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple && i < len(t.Args) {
		return t.Args[i]
	}
	return s.U.mk(OExtract, strconv.Itoa(i), nil, typ, t)
}

// Ext is the i-th component of a call result.
func (s *State) Ext(t *Term, i int) *Term {
	if t.Op == OTuple && i < len(t.Args) {
		return t.Args[i]
	}
	return s.U.mk(OExtract, strconv.Itoa(i), nil, nil, t)
}

func (s *State) mapLoad(m, k *Term, et types.Type) (v, ok *Term) {
	u := s.U
	ad := u.mk(OMAddr, "", nil, types.NewPointer(et), m, k)
	ak := u.mk(OMOk, "", nil, types.Typ[types.Bool], m, k)
	v0, has := s.heap[ad]
	k0, has2 := s.heap[ak]
	if has && has2 {
		return v0, k0
	}
	if m.IsNil() {
		return u.Zero(et), u.Bool(false)
	}
	if m.Op == OAlloc && s.local[m] {
		any := false
		for kk := range s.heap {
			if kk.Op == OMAddr && kk.Args[0] == m {
				any = true
			}
		}
		if !any && s.epoch["map:"+typStr(m.Typ)] == nil {
			return u.Zero(et), u.Bool(false)
		}
	}
	e := s.epochOf(ad)
	if !has {
		v0 = u.mk(OLoad, "", nil, et, ad, e)
	}
	if !has2 {
		k0 = u.mk(OMOk, "", nil, types.Typ[types.Bool], m, k, e)
	}
	return v0, k0
}

func (a *analysis) mapStore(s *State, m, k, v, ok *Term, tok string) {
	u := s.U
	for c := range s.heap {
		if (c.Op == OMAddr || c.Op == OMOk) && (c.Args[0] == m || !s.noAlias(c.Args[0], m) && typStr(c.Args[0].Typ) == typStr(m.Typ)) {
			if c.Args[0] == m && c.Args[1] != k && c.Args[1].IsConst() && k.IsConst() {
				continue
			}
			delete(s.heap, c)
		}
	}
	s.epoch["map:"+typStr(m.Typ)] = u.Opaque("mst@"+tok, nil)
	if !s.local[m] {
		s.escape(v)
		s.escape(k)
	}
	var et types.Type
	if v != nil {
		et = v.Typ
	}
	if mt, isM := m.Typ.Underlying().(*types.Map); isM {
		et = mt.Elem()
	}
	ad := u.mk(OMAddr, "", nil, types.NewPointer(et), m, k)
	ak := u.mk(OMOk, "", nil, types.Typ[types.Bool], m, k)
	s.heap[ad] = v
	s.heap[ak] = ok
}

var cmpOps = map[token.Token]bool{token.EQL: true, token.NEQ: true, token.LSS: true, token.LEQ: true, token.GTR: true, token.GEQ: true}

func (a *analysis) binop(s *State, x *ssa.BinOp) *Term {
	u := s.U
	l, r := a.val(s, x.X), a.val(s, x.Y)
	bt := types.Typ[types.Bool]
	not := func(t *Term) *Term {
		if t.IsTrue() {
			return u.Bool(false)
		}
		if t.IsFalse() {
			return u.Bool(true)
		}
		return u.mk(OUn, "!", nil, bt, t)
	}
	switch x.Op {
	case token.EQL:
		return u.Bin("eq", l, r, bt)
	case token.NEQ:
		return not(u.Bin("eq", l, r, bt))
	case token.LSS:
		return u.Lt(l, r)
	case token.GTR:
		return u.Lt(r, l)
	case token.LEQ:
		return not(u.Lt(r, l))
	case token.GEQ:
		return not(u.Lt(l, r))
	}
	return u.Bin(x.Op.String(), l, r, x.Type())
}

func calleeName(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return com.Method.FullName()
	}
	if f := com.StaticCallee(); f != nil {
		return FuncName(f)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return ""
}

// FuncName is the full name of a function, e.g. (*sync.Once).Do.
func FuncName(f *ssa.Function) string {
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.RelString(nil)
}

func (a *analysis) callEvent(s *State, in ssa.Instruction, com *ssa.CallCommon, fnT *Term, args []*Term, given bool) *Event {
	e := &Event{Kind: "call", Instr: in, Pos: com.Pos()}
	if !given {
		fnT = a.val(s, com.Value)
		args = nil
		for _, y := range com.Args {
			args = append(args, a.val(s, y))
		}
	}
	if com.IsInvoke() {
		e.Recv = fnT
		e.Args = args
		e.Callee = com.Method
		e.Name = com.Method.FullName()
	} else {
		e.Fn = fnT
		e.Args = args
		if f, ok := fnT.Obj.(*ssa.Function); ok && (fnT.Op == OFunc || fnT.Op == OClosure) {
			e.Name = FuncName(f)
			if o, ok := f.Object().(*types.Func); ok {
				e.Callee = o
			}
			if f.Signature.Recv() != nil && len(args) > 0 && fnT.Op == OFunc {
				e.Recv = args[0]
				e.Args = args[1:]
			}
		}
	}
	// expand variadic literals
	if n := len(e.Args); n > 0 && com.Signature().Variadic() {
		na := append([]*Term(nil), e.Args...)
		na[n-1] = s.expand(na[n-1])
		e.Args = na
	}
	return e
}

// call executes a call instruction (or a deferred one).
func (a *analysis) call(s *State, in ssa.Instruction, com *ssa.CallCommon, res ssa.Value, fnT *Term, args []*Term, kind byte) *State {
	f := s.top()
	u := s.U
	if fnT == nil {
		fnT = a.val(s, com.Value)
		for _, y := range com.Args {
			args = append(args, a.val(s, y))
		}
	}
	done := func(t *Term) *State {
		switch kind {
		case 'c':
			if res != nil && t != nil {
				f.env[res] = t
			}
			f.idx++
			return s
		case 'd':
			return s
		}
		if s.Panic != nil {
			return a.unwind(s, in)
		}
		return a.recovered(s, in)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		t, cont := a.builtin(s, in, b, com, args)
		if !cont {
			return nil
		}
		return done(t)
	}
	var target *ssa.Function
	var bind []*Term
	cargs := args
	if com.IsInvoke() {
		if fnT.IsNil() {
			return nil
		}
		if dt := s.DynType(fnT); dt != nil {
			target = a.opt.Prog.Method(dt, com.Method)
		} else if a.opt.Devirt != nil {
			target = a.opt.Devirt(s, fnT, com.Method)
		}
		if target != nil {
			r := fnT
			if r.Op == OIface {
				r = r.Args[0]
			}
			cargs = append([]*Term{r}, args...)
		}
	} else {
		switch fnT.Op {
		case OFunc:
			target, _ = fnT.Obj.(*ssa.Function)
		case OClosure:
			target = fnT.Obj.(*ssa.Function)
			bind = fnT.Args
		case ONil:
			return nil
		}
	}
	e := a.callEvent(s, in, com, fnT, args, true)
	if com.IsInvoke() && target != nil {
		e.Fn = u.mk(OFunc, target.RelString(nil), target, target.Type())
	}

	// sync.Once.Do
	if e.Name == "(*sync.Once).Do" && len(e.Args) == 1 {
		return a.onceDo(s, in, e, kind, done)
	}

	if a.opt.Callback != nil && kind == 'c' && target == nil {
		if i := a.opt.Callback(s, e); i >= 0 && i < len(args) && len(s.frames) < a.opt.MaxDepth {
			cb := args[i]
			cf, _ := cb.Obj.(*ssa.Function)
			if (cb.Op == OClosure || cb.Op == OFunc) && cf != nil && a.opt.Prog.HasBody(cf) {
				var bind, cargs []*Term
				if cb.Op == OClosure {
					bind = cb.Args
				}
				s2 := s.clone()
				e2 := *e
				e2.Tag = "refused"
				et := types.Universe.Lookup("error").Type()
				e2.Res = u.mk(ORet, "callback@"+a.site(f, in), nil, et)
				a.emit(s2, &e2)
				if s2.Assume(u.Canon(u.EqNil(e2.Res)).Not()) {
					f2 := s2.top()
					if res != nil {
						f2.env[res] = e2.Res
					}
					f2.idx++
					a.push(s2)
				}
				for _, p := range cf.Params {
					cargs = append(cargs, u.Opaque("given:"+p.Name(), p.Type()))
				}
				return a.pushCall(s, in, cf, bind, cargs, res, kind)
			}
		}
	}
	if target != nil && a.opt.Prog.HasBody(target) && a.inlineOK(s, target, e) {
		e2 := *e
		e2.Kind = "enter"
		a.emit(s, &e2)
		return a.pushCall(s, in, target, bind, cargs, res, kind)
	}
	return a.opaqueCall(s, in, com, e, target, cargs, kind, done)
}

func (a *analysis) inlineOK(s *State, target *ssa.Function, e *Event) bool {
	if len(s.frames) >= a.opt.MaxDepth {
		return false
	}
	for _, f := range s.frames {
		if f.fn == target {
			return false
		}
	}
	if a.opt.Inline != nil && target.Synthetic == "" && target.Parent() == nil {
		return a.opt.Inline(target)
	}
	return true
}

func (a *analysis) pushCall(s *State, in ssa.Instruction, target *ssa.Function, bind, args []*Term, res ssa.Value, kind byte) *State {
	f := s.top()
	ctx := a.site(f, in)
	if kind != 'c' {
		ctx += string(kind)
	}
	if id, ok := a.ctxID[ctx]; ok {
		ctx = "c" + strconv.Itoa(id)
	} else {
		id := len(a.ctxID) + 1
		a.ctxID[ctx] = id
		ctx = "c" + strconv.Itoa(id)
	}
	nf := a.newFrame(target, ctx, res, bind)
	nf.kind = kind
	nf.inLoop = f.loopy()
	for i, p := range target.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	s.frames = append(s.frames, nf)
	return s
}

func (a *analysis) onceDo(s *State, in ssa.Instruction, e *Event, kind byte, done func(*Term) *State) *State {
	u := s.U
	flag := u.mk(OPure, "once", nil, types.Typ[types.Bool], e.Recv)
	cur, ok := s.heap[flag]
	if !ok {
		if s.local[rootOf(e.Recv)] {
			cur = u.Bool(false)
		} else {
			cur = flag
		}
	}
	r := s.EvalTerm(cur)
	fn := e.Args[0]
	target, _ := fn.Obj.(*ssa.Function)
	known := target != nil && (fn.Op == OFunc || fn.Op == OClosure) && a.opt.Prog.HasBody(target)
	if r < 0 {
		s2 := s.clone()
		s2.facts[cur] = true
		// continue the already-done branch
		f2 := s2.top()
		if kind == 'c' {
			f2.idx++
			a.push(s2)
		} else {
			// rare: deferred Do; treat as executed
		}
		s.facts[cur] = false
		r = 0
	}
	if r == 1 {
		return done(nil)
	}
	s.heap[flag] = u.Bool(true)
	ev := *e
	ev.Name = "(*sync.Once).Do"
	ev.Tag = "first"
	a.emit(s, &ev)
	if known && len(s.frames) < a.opt.MaxDepth {
		var bind []*Term
		if fn.Op == OClosure {
			bind = fn.Args
		}
		return a.pushCall(s, in, target, bind, nil, nil, kind)
	}
	return done(nil)
}

func (a *analysis) opaqueCall(s *State, in ssa.Instruction, com *ssa.CallCommon, e *Event, target *ssa.Function, cargs []*Term, kind byte, done func(*Term) *State) *State {
	f := s.top()
	u := s.U
	name := e.Name
	resT := com.Signature().Results()
	var typ types.Type
	if resT.Len() == 1 {
		typ = resT.At(0).Type()
	}
	allArgs := e.Args
	if e.Recv != nil {
		allArgs = append([]*Term{e.Recv}, e.Args...)
	} else if e.Fn != nil && e.Callee == nil {
		allArgs = append([]*Term{e.Fn}, e.Args...)
	}
	pure := isPure(name) || a.opt.Pure != nil && a.opt.Pure(name)
	if target != nil && a.opt.Prog.HasBody(target) && a.opt.Prog.PureFunc(target) {
		pure = true
	}
	var t *Term
	var obj interface{}
	if e.Callee != nil {
		obj = e.Callee
	}
	if a.opt.Model != nil {
		t = a.opt.Model(s, e)
	}
	fold := false
	if t == nil && pure {
		if c := foldPure(u, name, allArgs); c != nil {
			t = c
			fold = true
		}
	}
	if t == nil {
		if pure {
			t = u.mk(OPure, name, obj, typ, allArgs...)
		} else {
			t = u.mk(ORet, name+"@"+a.site(f, in), obj, typ, allArgs...)
			if f.loopy() {
				// same site executed again: a new value
				if kind == 'c' {
					s.fresh(t)
				}
			}
		}
	}
	_ = fold
	e.Res = t
	if name == "builtin recover" {
		return done(t)
	}
	a.emit(s, e)
	tok := a.site(f, in)
	if a.opt.MayPanic != nil && a.opt.MayPanic(s, e) {
		s2 := s.clone()
		s2.Panic = u.Opaque("panicval@"+tok, types.NewInterfaceType(nil, nil))
		s2.facts[u.Canon(u.EqNil(s2.Panic)).T] = false
		if n := a.unwind(s2, in); n != nil {
			a.push(n)
		}
	}
	if !pure {
		// effects
		switch {
		case target != nil && a.opt.Prog.HasBody(target):
			for _, x := range cargs {
				s.escape(x)
			}
			mod := a.opt.Prog.ModSet(target)
			if mod.all {
				a.havocAll(s, tok)
			} else {
				a.havocClasses(s, mod.classes, tok)
			}
		case a.opt.Prog.DynamicHavoc(com, e):
			for _, x := range allArgs {
				s.escape(x)
			}
			a.havocAll(s, tok)
		default:
			for i, x := range allArgs {
				a.extArg(s, x, tok+"."+strconv.Itoa(i))
			}
		}
	}
	if noReturn(name) {
		return nil
	}
	return done(t)
}

func (a *analysis) extArg(s *State, x *Term, tok string) {
	if x == nil {
		return
	}
	if x.Op == OBuiltin && x.Sym == "slicelit" {
		for i, y := range x.Args {
			a.extArg(s, y, tok+"."+strconv.Itoa(i))
		}
		return
	}
	if x.Op == OIface {
		x = x.Args[0]
	}
	isPtr := false
	if x.Typ != nil {
		switch x.Typ.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			isPtr = true
		}
	}
	if x.Op == OAlloc || x.Op == OFAddr || x.Op == OIAddr || x.Op == OSlice || isPtr {
		a.havocArg(s, x, tok)
	}
	if x.Op == OClosure {
		// an external callee may run the closure: its captured cells change
		for _, b := range x.Args {
			a.havocArg(s, b, tok)
			s.escape(b)
		}
	}
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "(*log.Logger).Fatal", "(*log.Logger).Fatalf":
		return true
	}
	return false
}

func (a *analysis) builtin(s *State, in ssa.Instruction, b *ssa.Builtin, com *ssa.CallCommon, args []*Term) (*Term, bool) {
	u := s.U
	f := s.top()
	var typ types.Type
	if v, ok := in.(ssa.Value); ok {
		typ = v.Type()
	}
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		if n, ok := s.knownLen(x); ok {
			return u.Int(n), true
		}
		if x.Op == OSlice {
			lo, hi := x.Args[1], x.Args[2]
			if b.Name() == "len" {
				base := u.mk(OBuiltin, "len", nil, types.Typ[types.Int], x.Args[0])
				if n, ok := s.knownLen(x.Args[0]); ok {
					base = u.Int(n)
				}
				if hi.IsNil() {
					hi = base
				}
				if !lo.IsNil() {
					return u.Bin("-", hi, lo, types.Typ[types.Int]), true
				}
				if !x.Args[2].IsNil() {
					return hi, true
				}
			}
		}
		if x.Op == OAlloc && b.Name() == "len" {
			if _, ok := x.Obj.(*ssa.MakeSlice); ok {
				return x.Args[0], true
			}
		}
		if x.Op == OConv && isString(x.Args[0].Typ) && !isString(x.Typ) {
			x = x.Args[0]
		}
		if x.Op == OBuiltin && x.Sym == "append" {
			// length of an append is not tracked
		}
		if mt, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
			_ = mt
			e := u.mk(OBuiltin, b.Name(), nil, types.Typ[types.Int], x, s.epochOf(u.mk(OMAddr, "", nil, nil, x, u.Nil())))
			return e, true
		}
		if ct, ok := com.Args[0].Type().Underlying().(*types.Chan); ok {
			_ = ct
			if b.Name() == "len" {
				t := u.Opaque("chanlen@"+a.site(f, in), types.Typ[types.Int], x)
				if f.loopy() {
					s.fresh(t)
				}
				return t, true
			}
		}
		return u.mk(OBuiltin, b.Name(), nil, types.Typ[types.Int], x), true
	case "append":
		x := args[0]
		var rest *Term
		if len(args) > 1 {
			rest = s.expand(args[1])
		} else {
			return x, true
		}
		a.emit(s, &Event{Kind: "append", Args: []*Term{x, rest}, Instr: in})
		// append to an empty literal of known elements
		if el, ok := s.Elems(rest); ok {
			if base, ok2 := s.Elems(x); ok2 && x.Op != OSlice {
				all := append(append([]*Term(nil), base...), el...)
				if len(all) < 12 {
					return u.mk(OBuiltin, "slicelit", nil, typ, all...), true
				}
			}
			rest = u.mk(OBuiltin, "slicelit", nil, args[1].Typ, el...)
		}
		return u.mk(OBuiltin, "append", nil, typ, x, rest), true
	case "copy":
		a.emit(s, &Event{Kind: "copy", Args: args, Instr: in})
		a.havocArg(s, args[0], a.site(f, in))
		return u.Opaque("copy@"+a.site(f, in), types.Typ[types.Int], args...), true
	case "delete":
		a.emit(s, &Event{Kind: "delete", Recv: args[0], Args: args[1:], Instr: in})
		mt := com.Args[0].Type().Underlying().(*types.Map)
		a.mapStore(s, args[0], args[1], u.Zero(mt.Elem()), u.Bool(false), a.site(f, in))
		return nil, true
	case "close":
		a.emit(s, &Event{Kind: "close", Recv: args[0], Instr: in})
		return nil, true
	case "recover":
		if s.Panic != nil && f.kind == 'p' {
			t := s.Panic
			s.Panic = nil
			s.facts[u.Canon(u.EqNil(t)).T] = false
			if s.Eval(u.Canon(u.EqNil(t))) == 1 {
				return nil, false
			}
			a.emit(s, &Event{Kind: "recover", Res: t, Instr: in})
			return t, true
		}
		return u.Nil(), true
	case "panic":
		return nil, true
	case "ssa:wrapnilchk":
		return args[0], true
	case "print", "println":
		return nil, true
	case "min", "max":
		return u.mk(OPure, b.Name(), nil, typ, args...), true
	}
	t := u.Opaque("builtin"+b.Name()+"@"+a.site(f, in), typ, args...)
	return t, true
}

func foldPure(u *Universe, name string, args []*Term) *Term {
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].StrVal()
	}
	switch name {
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return u.Str(strings.ToLower(s))
		}
	case "strings.ToUpper":
		if s, ok := str(0); ok {
			return u.Str(strings.ToUpper(s))
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return u.Str(strings.TrimSpace(s))
		}
		if args[0].Op == OPure && args[0].Sym == name {
			return args[0]
		}
	case "strconv.Itoa":
		if v, ok := args[0].IntVal(); ok {
			return u.Str(strconv.FormatInt(v, 10))
		}
		return u.mk(OPure, "strconv.FormatInt", nil, types.Typ[types.String], args[0], u.Int(10))
	case "strconv.FormatInt":
		if len(args) == 2 {
			x := args[0]
			if x.Op == OConv && isInteger(x.Args[0].Typ) && widerEq(x.Typ, x.Args[0].Typ) {
				return u.mk(OPure, "strconv.FormatInt", nil, types.Typ[types.String], x.Args[0], args[1])
			}
		}
	case "(reflect.Value).IsValid":
		if len(args) == 1 && args[0].Op == OZero {
			return u.Bool(false)
		}
		if len(args) == 1 && args[0].Op == ORet && strings.HasPrefix(args[0].Sym, "reflect.New@") {
			return u.Bool(true)
		}
	case "strings.EqualFold":
		if args[0].ID > args[1].ID {
			return u.mk(OPure, name, nil, types.Typ[types.Bool], args[1], args[0])
		}
	case "crypto/hmac.Equal", "bytes.Equal":
		if args[0].ID > args[1].ID {
			return u.mk(OPure, name, nil, types.Typ[types.Bool], args[1], args[0])
		}
	}
	return nil
}

func widerEq(to, from types.Type) bool {
	a, ok1 := to.Underlying().(*types.Basic)
	b, ok2 := from.Underlying().(*types.Basic)
	if !ok1 || !ok2 || a.Info()&types.IsUnsigned != 0 || b.Info()&types.IsUnsigned != 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(a) >= sz.Sizeof(b)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "path/filepath": true, "html": true, "unicode": true, "unicode/utf8": true, "math": true, "reflect": true, "net/url": true, "errors": true}

func isPure(name string) bool {
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "net/http.StatusText", "os.IsNotExist", "bytes.Equal",
		"(error).Error", "(os.FileInfo).IsDir", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).ModTime", "(io/fs.FileInfo).Name", "(io/fs.FileInfo).Size",
		"(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).Sub", "(time.Time).Add", "(time.Time).Before", "(time.Time).After", "(time.Duration).Seconds", "(time.Time).UTC", "(time.Time).IsZero", "time.Unix",
		"crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "encoding/hex.EncodeToString", "(net/http.Header).Get",
		"(net/url.Values).Get", "(*net/http.Request).Context", "path.Clean",
		"bytes.HasPrefix", "bytes.IndexByte", "bytes.Contains", "bytes.Index", "bytes.TrimSpace", "bytes.LastIndex", "bytes.Trim", "bytes.Split",
		"(time.Duration).Nanoseconds", "(context.Context).Value", "net.SplitHostPort", "net.ParseIP":
		return true
	}
	// method or function of a pure package?
	n := strings.TrimPrefix(name, "(")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return false
	}
	pkg := n[:i+1+j]
	if !purePkgs[pkg] {
		return false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch pkg {
	case "reflect":
		if strings.HasPrefix(m, "Set") || m == "Call" || m == "CallSlice" || m == "Send" || m == "Recv" || m == "Close" || m == "New" || m == "MakeSlice" || m == "MakeMap" || m == "Copy" || m == "Append" || m == "AppendSlice" || strings.HasPrefix(m, "Make") {
			return m == "SetXXX"
		}
		return true
	case "strings":
		return !strings.Contains(name, "Builder") && !strings.Contains(name, "Reader") && !strings.Contains(name, "Replacer")
	case "net/url":
		return m != "Set" && m != "Add" && m != "Del"
	case "path/filepath":
		return m != "Walk" && m != "Glob" && m != "EvalSymlinks" && m != "Abs"
	case "strconv":
		return !strings.HasPrefix(m, "Append")
	}
	return true
}

// Callers renders the inlined call chain for reports.
func (s *State) Stack() string {
	var ss []string
	for _, f := range s.frames {
		ss = append(ss, f.fn.Name())
	}
	return strings.Join(ss, " > ")
}

// Frames gives the functions on the abstract stack, outermost first.
func (s *State) Frames() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range s.frames {
		out = append(out, f.fn)
	}
	return out
}

// IsLocal: allocation not shared with anyone yet.
func (s *State) IsLocal(t *Term) bool { return s.local[rootOf(t)] }

// FAddrByName finds a field address through a named field of base's struct type.
func (s *State) FieldCell(base *Term, name string) *Term {
	t := base.Typ
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.U.FAddr(base, st.Field(i))
		}
	}
	return nil
}

func (e *Event) String() string {
	var ss []string
	for _, a := range e.Args {
		ss = append(ss, a.String())
	}
	r := ""
	if e.Recv != nil {
		r = e.Recv.String() + " "
	}
	m := ""
	if e.Many {
		m = "*"
	}
	x := ""
	if e.Addr != nil {
		x = " " + e.Addr.String() + " := "
		if e.Val != nil {
			x += e.Val.String()
		}
	}
	nm := e.Name
	if nm == "" && e.Fn != nil {
		nm = "<" + e.Fn.String() + ">"
	}
	return fmt.Sprintf("%s%s %s %s(%s)%s", e.Kind, m, e.Tag, r+nm, strings.Join(ss, ", "), x)
}
