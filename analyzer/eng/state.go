package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tokOf(op string) token.Token {
	switch op {
	case "+":
		return token.ADD
	case "-":
		return token.SUB
	case "*":
		return token.MUL
	case "&":
		return token.AND
	case "|":
		return token.OR
	case "^":
		return token.XOR
	case "&^":
		return token.AND_NOT
	}
	return token.ILLEGAL
}

// Event is one abstract action on a path.
type Event struct {
	Kind   string // call, store, mapset, delete, send, recv, go, panic, select, assert, close
	Name   string // full name of the callee, or field/global written
	Callee *types.Func
	Fn     *Term // dynamic callee value
	Recv   *Term
	Args   []*Term // without receiver
	Addr   *Term   // store / mapset address
	Val    *Term   // stored value
	Res    *Term
	Instr  ssa.Instruction
	Pos    token.Pos
	In     *ssa.Function
	Ctx    string
	Dup    bool
	Many   bool   // happened in more than one loop iteration
	Tag    string // set by the rule
	Defer  bool   // executed from a deferred call
	InLoop bool
}

func (e *Event) key() string {
	var b strings.Builder
	b.WriteString(e.Tag)
	b.WriteString(e.Ctx)
	b.WriteByte('/')
	b.WriteString(e.Kind)
	b.WriteString(e.Name)
	w := func(t *Term) {
		b.WriteByte(',')
		if t != nil {
			b.WriteString(strconv.Itoa(t.ID))
		}
	}
	w(e.Fn)
	w(e.Recv)
	for _, a := range e.Args {
		w(a)
	}
	w(e.Addr)
	w(e.Val)
	w(e.Res)
	return b.String()
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term   // callee value (closure/func) or receiver for invoke
	args  []*Term // arguments
}

// Frame is one activation on the inlined call stack.
type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	ctx     string
	env     map[ssa.Value]*Term
	free    []*Term
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	defers  []deferred
	call    ssa.Value // value in the caller to bind, may be nil
	kind    byte      // 'c' call, 'd' deferred, 'p' deferred while panicking
	inLoop  bool
	snaps   map[*ssa.BasicBlock]map[*Term]*Term
	visits  map[*ssa.BasicBlock]int
	results *Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	if f.snaps != nil {
		n.snaps = make(map[*ssa.BasicBlock]map[*Term]*Term, len(f.snaps))
		for k, v := range f.snaps {
			n.snaps[k] = v // snapshots are never mutated
		}
		n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			n.visits[k] = v
		}
	}
	return &n
}

// State is one abstract machine state.
type State struct {
	a       *analysis
	U       *Universe
	frames  []*Frame
	heap    map[*Term]*Term
	epoch   map[interface{}]*Term // *types.Var, string class, or "all"
	facts   map[*Term]bool
	local   map[*Term]bool // unescaped allocations
	Trace   []*Event
	Panic   *Term
	Vars    map[string]*Term // rule variables
	unwound bool
	cut     bool
}

func (s *State) clone() *State {
	n := &State{a: s.a, U: s.U, Panic: s.Panic, unwound: s.unwound, cut: s.cut}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.epoch = make(map[interface{}]*Term, len(s.epoch))
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.local = make(map[*Term]bool, len(s.local))
	for k, v := range s.local {
		n.local[k] = v
	}
	if s.Vars != nil {
		n.Vars = make(map[string]*Term, len(s.Vars))
		for k, v := range s.Vars {
			n.Vars[k] = v
		}
	}
	n.Trace = append([]*Event(nil), s.Trace...)
	return n
}

// SetVar sets a rule variable (part of the state identity).
func (s *State) SetVar(k string, t *Term) {
	if s.Vars == nil {
		s.Vars = map[string]*Term{}
	}
	if t == nil {
		delete(s.Vars, k)
	} else {
		s.Vars[k] = t
	}
}

// Cut ends the current path after the running event (exit kind "cut").
func (s *State) Cut() { s.cut = true }

func (s *State) Var(k string) *Term { return s.Vars[k] }

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// key identifies the state; facts are added separately when exact.
func (s *State) key(withFacts bool) string {
	var b strings.Builder
	num := func(i int) { b.WriteString(strconv.Itoa(i)); b.WriteByte(' ') }
	for fi, f := range s.frames {
		b.WriteString(f.ctx)
		b.WriteByte(f.kind)
		num(f.block.Index)
		num(f.idx)
		var live map[ssa.Value]bool
		if fi == len(s.frames)-1 && f.idx == 0 {
			live = f.info.liveIn[f.block]
		}
		type kv struct{ k, v int }
		var l []kv
		for v, t := range f.env {
			if live != nil && !live[v] {
				if _, isPhi := v.(*ssa.Phi); !isPhi || v.(*ssa.Phi).Block() != f.block {
					continue
				}
			}
			if fi < len(s.frames)-1 && !f.info.liveAfter(f.block, f.idx, v) {
				continue
			}
			l = append(l, kv{f.info.num[v], t.ID})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		for _, e := range l {
			num(e.k)
			num(e.v)
		}
		b.WriteByte(';')
		for _, d := range f.defers {
			num(int(d.instr.Pos()))
			if d.fn != nil {
				num(d.fn.ID)
			}
			for _, a := range d.args {
				num(a.ID)
			}
		}
		b.WriteByte(';')
		for _, t := range f.free {
			num(t.ID)
		}
	}
	b.WriteByte('H')
	type kv struct{ k, v int }
	var hs []kv
	for k, v := range s.heap {
		hs = append(hs, kv{k.ID, v.ID})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].k < hs[j].k })
	for _, e := range hs {
		num(e.k)
		num(e.v)
	}
	b.WriteByte('E')
	var es []kv
	for k, v := range s.epoch {
		es = append(es, kv{s.U.objID(k), v.ID})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	for _, e := range es {
		num(e.k)
		num(e.v)
	}
	b.WriteByte('T')
	for _, e := range s.Trace {
		b.WriteString(e.key())
		if e.Many {
			b.WriteByte('+')
		}
	}
	if s.Panic != nil {
		b.WriteByte('P')
		num(s.Panic.ID)
	}
	var vs []string
	for k := range s.Vars {
		vs = append(vs, k)
	}
	sort.Strings(vs)
	for _, k := range vs {
		b.WriteString(k)
		num(s.Vars[k].ID)
	}
	if withFacts {
		b.WriteString(s.factKey(nil))
	} else if s.a.opt.KeyFacts != nil {
		b.WriteString(s.factKey(s.a.opt.KeyFacts))
	}
	return b.String()
}

func (s *State) factKey(only func(*State, *Term) bool) string {
	var l []int
	for t, v := range s.facts {
		if only != nil && !only(s, t) {
			continue
		}
		id := t.ID * 2
		if v {
			id++
		}
		l = append(l, id)
	}
	sort.Ints(l)
	var b strings.Builder
	b.WriteByte('F')
	for _, i := range l {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte(' ')
	}
	return b.String()
}

// ---- conditions ----

// Lit is a condition term with a sign.
type Lit struct {
	T   *Term
	Neg bool
}

func (l Lit) Not() Lit { l.Neg = !l.Neg; return l }
func (l Lit) String() string {
	if l.Neg {
		return "!" + l.T.String()
	}
	return l.T.String()
}

func isLen(t *Term) bool { return t.Op == OBuiltin && t.Sym == "len" }

// lenShift moves the constants of a comparison with a length to one side.
func (u *Universe) lenShift(t *Term) *Term {
	for i := 0; i < 2; i++ {
		v, ok := t.Args[i].IntVal()
		o := t.Args[1-i]
		if !ok || o.Op != OBin || o.Sym != "+" && o.Sym != "-" {
			continue
		}
		l := Lin(o)
		if len(l.Coeff) != 1 || l.C == 0 {
			continue
		}
		for x, k := range l.Coeff {
			if k != 1 || !isLen(x) {
				continue
			}
			if i == 0 {
				return u.Bin(t.Sym, u.Int(v-l.C), x, types.Typ[types.Bool])
			}
			return u.Bin(t.Sym, x, u.Int(v-l.C), types.Typ[types.Bool])
		}
	}
	return nil
}

// inBounds records that the list had more than n elements when it was
// indexed or at least n when it was sliced.
func (s *State) inBounds(b *Term, n int64) {
	if b.Typ == nil || n <= 0 {
		return
	}
	switch b.Typ.Underlying().(type) {
	case *types.Slice, *types.Basic:
	default:
		return
	}
	if b.Op == OConst || b.Op == OZero {
		return
	}
	l := s.U.Canon(s.U.Lt(s.U.Int(n-1), s.U.Len(b)))
	if s.Eval(l) == -1 {
		s.facts[l.T] = !l.Neg
	}
}

// Canon normalises a condition to a literal over eq/lt/contains/... terms.
func (u *Universe) Canon(t *Term) Lit {
	neg := false
	for {
		if t.Op == OBin && (t.Sym == "eq" || t.Sym == "lt") {
			if n := u.lenShift(t); n != nil {
				t = n
				continue
			}
		}
		if t.Op == OUn && t.Sym == "!" {
			neg = !neg
			t = t.Args[0]
			continue
		}
		if t.Op == OBin && t.Sym == "eq" {
			x, y := t.Args[0], t.Args[1]
			if y.Op == OConst && x.Op != OConst {
				x, y = y, x
			}
			if x.IsTrue() {
				t = y
				continue
			}
			if x.IsFalse() {
				t = y
				neg = !neg
				continue
			}
			if v, ok := x.IntVal(); ok {
				if v == 0 && isLen(y) && y.Args[0].Typ != nil && isString(y.Args[0].Typ) {
					t = u.Bin("eq", y.Args[0], u.Str(""), types.Typ[types.Bool])
					continue
				}
				if c := u.indexAsContains(y); c != nil && v == -1 {
					neg = !neg
					t = c
					continue
				}
				if c := u.compareAsEq(y); c != nil && v == 0 {
					t = c
					continue
				}
				if c, ok := u.constTimeEq(y); ok && (v == 1 || v == 0) {
					if v == 0 {
						neg = !neg
					}
					t = c
					continue
				}
			}
		}
		if t.Op == OBin && t.Sym == "lt" {
			x, y := t.Args[0], t.Args[1]
			if v, ok := x.IntVal(); ok {
				// v < y
				if v == 0 && isLen(y) {
					t = u.Bin("eq", u.Int(0), y, types.Typ[types.Bool])
					neg = !neg
					continue
				}
				if c := u.indexAsContains(y); c != nil && v == -1 {
					t = c
					continue
				}
			}
			if v, ok := y.IntVal(); ok {
				// x < v
				if v == 1 && isLen(x) {
					t = u.Bin("eq", u.Int(0), x, types.Typ[types.Bool])
					continue
				}
				if c := u.indexAsContains(x); c != nil && v == 0 {
					t = c
					neg = !neg
					continue
				}
			}
		}
		return Lit{t, neg}
	}
}

func (u *Universe) indexAsContains(t *Term) *Term {
	if t.Op != OPure {
		return nil
	}
	switch t.Sym {
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.LastIndexByte":
		sub := t.Args[1]
		if v, ok := sub.IntVal(); ok {
			sub = u.Str(string(rune(v)))
		}
		return u.mk(OPure, "strings.Contains", nil, types.Typ[types.Bool], t.Args[0], sub)
	}
	return nil
}

func (u *Universe) compareAsEq(t *Term) *Term {
	if t.Op == OPure && (t.Sym == "strings.Compare") {
		return u.Bin("eq", t.Args[0], t.Args[1], types.Typ[types.Bool])
	}
	return nil
}

func (u *Universe) constTimeEq(t *Term) (*Term, bool) {
	if t.Op == OPure && t.Sym == "crypto/subtle.ConstantTimeCompare" {
		return u.mk(OPure, "crypto/hmac.Equal", nil, types.Typ[types.Bool], t.Args...), true
	}
	return nil, false
}

// Interval bounds of an integer term known from its shape and the facts.
// Interval gives the known bounds of an integer.
func (s *State) Interval(t *Term) (lo, hi int64, hasLo, hasHi bool) { return s.interval(t) }

func (s *State) interval(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	set := func(l int64, isLo bool) {
		if isLo {
			if !hasLo || l > lo {
				lo, hasLo = l, true
			}
		} else if !hasHi || l < hi {
			hi, hasHi = l, true
		}
	}
	if v, ok := t.IntVal(); ok {
		return v, v, true, true
	}
	if t.Op == OBuiltin && (t.Sym == "len" || t.Sym == "cap") {
		set(0, true)
		if n, ok := s.knownLen(t.Args[0]); ok {
			return n, n, true, true
		}
		// splitting a text gives at least one part
		if a := t.Args[0]; (a.Op == OPure || a.Op == ORet) && len(a.Args) >= 2 {
			if sep, ok := a.Args[1].StrVal(); ok && sep != "" {
				n := a.Sym
				if i := strings.LastIndex(n, "@"); i > 0 {
					n = n[:i]
				}
				switch n {
				case "strings.Split", "strings.SplitAfter":
					set(1, true)
				case "strings.SplitN", "strings.SplitAfterN":
					if k, ok := a.Args[2].IntVal(); ok && k != 0 {
						set(1, true)
						if k > 0 {
							set(k, false)
						}
					}
				}
			}
		}
	}
	if b, ok := t.Typ.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		set(0, true)
	}
	if t.Op == OOpaque {
		if ind, ok := t.Obj.(*Induction); ok {
			if ind.HasLo {
				set(ind.Lo, true)
			}
			if ind.HasHi {
				set(ind.Hi, false)
			}
		}
	}
	if t.Op == OPure && (strings.HasPrefix(t.Sym, "strings.Index") || strings.HasPrefix(t.Sym, "strings.LastIndex")) {
		set(-1, true)
		// a known hit
		if c := s.U.indexAsContains(t); c != nil {
			if v, ok := s.facts[c]; ok {
				if v {
					set(0, true)
				} else {
					return -1, -1, true, true
				}
			}
		}
	}
	for f, val := range s.facts {
		if f.Op != OBin || len(f.Args) != 2 {
			continue
		}
		x, y := f.Args[0], f.Args[1]
		switch f.Sym {
		case "eq":
			if val {
				if x == t {
					if v, ok := y.IntVal(); ok {
						return v, v, true, true
					}
				}
				if y == t {
					if v, ok := x.IntVal(); ok {
						return v, v, true, true
					}
				}
			}
		case "lt":
			if x == t {
				if v, ok := y.IntVal(); ok {
					if val {
						set(v-1, false)
					} else {
						set(v, true)
					}
				}
			}
			if y == t {
				if v, ok := x.IntVal(); ok {
					if val {
						set(v+1, true)
					} else {
						set(v, false)
					}
				}
			}
		}
	}
	// disequalities at the ends
	for i := 0; i < 3; i++ {
		for f, val := range s.facts {
			if val || f.Op != OBin || f.Sym != "eq" {
				continue
			}
			var c *Term
			if f.Args[0] == t {
				c = f.Args[1]
			} else if f.Args[1] == t {
				c = f.Args[0]
			}
			if c == nil {
				continue
			}
			if v, ok := c.IntVal(); ok {
				if hasLo && v == lo {
					lo++
				}
				if hasHi && v == hi {
					hi--
				}
			}
		}
	}
	return
}

func (s *State) knownLen(t *Term) (int64, bool) {
	switch t.Op {
	case OConst:
		if v, ok := t.StrVal(); ok {
			return int64(len(v)), true
		}
	case ONil:
		return 0, true
	case OSlice:
		if t.Args[0].Op == OAlloc && t.Args[1].IsNil() && t.Args[2].IsNil() {
			if p, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return a.Len(), true
				}
			}
		}
	}
	return 0, false
}

// NonNil reports terms that cannot be nil by construction.
func (s *State) nonNil(t *Term) bool {
	switch t.Op {
	case OConst, OGlobal, OFunc, OClosure, OAlloc, OFAddr, OIAddr, OIface, OZero, OStruct, OMethod:
		return true
	case OSlice:
		return s.nonNil(t.Args[0])
	case OConv:
		return t.Args[0].IsConst()
	case OBin:
		return true
	case OLoad:
		if g, ok := t.Args[0].Obj.(*ssa.Global); ok && t.Args[0].Op == OGlobal {
			return s.a.opt.Prog.GlobalNonNil(g)
		}
	case OPure, ORet:
		switch t.Sym {
		case "fmt.Errorf", "errors.New", "fmt.Sprintf", "reflect.TypeOf":
			return t.Sym != "reflect.TypeOf"
		}
		if f, ok := t.Obj.(*types.Func); ok && s.a.opt.NonNilResult != nil {
			return s.a.opt.NonNilResult(f)
		}
	case OTA:
		if !types.IsInterface(t.Typ) {
			if _, ok := t.Typ.Underlying().(*types.Pointer); !ok {
				return true
			}
		}
	case OExtract:
		if t.Sym == "0" && (t.Args[0].Op == ORet || t.Args[0].Op == OPure) {
			if f, ok := t.Args[0].Obj.(*types.Func); ok && s.a.opt.NonNilResult != nil {
				return s.a.opt.NonNilResult(f)
			}
		}
	}
	return false
}

// DynType returns the concrete type of an interface value when known.
func (s *State) DynType(t *Term) types.Type {
	switch t.Op {
	case ONil:
		return nil
	case OOld:
		return s.DynType(t.Args[0])
	}
	if t.Typ != nil && !types.IsInterface(t.Typ) {
		return t.Typ
	}
	for f, v := range s.facts {
		if v && f.Op == OIs && f.Args[0] == t && !types.IsInterface(f.Obj.(*typeKey).t) {
			return f.Obj.(*typeKey).t
		}
	}
	return nil
}

type typeKey struct{ t types.Type }

// Eval decides a condition under the facts: 1 true, 0 false, -1 unknown.
func (s *State) Eval(l Lit) int {
	r := s.evalPos(l.T)
	if r >= 0 && l.Neg {
		return 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *State) evalPos(t *Term) int {
	if t.IsTrue() {
		return 1
	}
	if t.IsFalse() {
		return 0
	}
	if v, ok := s.facts[t]; ok {
		return b2i(v)
	}
	switch t.Op {
	case OBin:
		x, y := t.Args[0], t.Args[1]
		switch t.Sym {
		case "eq":
			if x == y {
				return 1
			}
			if x.Op == OIface && y.Op != OIface {
				x = unIface(x)
			}
			if y.Op == OIface && x.Op != OIface {
				y = unIface(y)
			}
			if x.IsConst() && y.IsConst() {
				if x.Const.Kind() == y.Const.Kind() && x.Const.Kind() != constant.Unknown {
					return b2i(constant.Compare(x.Const, token.EQL, y.Const))
				}
			}
			if x.IsNil() && s.nonNil(y) || y.IsNil() && s.nonNil(x) {
				return 0
			}
			if x.Op == OAlloc && y.Op == OAlloc {
				return 0
			}
			if x.IsNil() || y.IsNil() {
				o := x
				if x.IsNil() {
					o = y
				}
				if o.Op == OLoad && o.Args[0].Op == OMAddr && len(o.Args) > 1 {
					// an entry that is not there
					m := o.Args[0]
					if v, ok := s.facts[s.U.mk(OMOk, "", nil, types.Typ[types.Bool], m.Args[0], m.Args[1], o.Args[1])]; ok && !v {
						return 1
					}
				}
				if o.Op == OIface || o.Typ != nil && !types.IsInterface(o.Typ) && s.derivedIface(o) {
					return 0
				}
				for f, v := range s.facts {
					if f.Op == OIs && f.Args[0] == o && v {
						return 0
					}
				}
				if (o.Op == OLoad || o.Op == OParam || o.Op == ORet || o.Op == OExtract) && s.dereferenced(o) {
					return 0
				}
			}
			// x == const: contradicted by another equality
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				c, o := p[0], p[1]
				if !c.IsConst() && !c.IsNil() {
					continue
				}
				for f, v := range s.facts {
					if f.Op == OBin && f.Sym == "eq" && v {
						var d *Term
						if f.Args[0] == o {
							d = f.Args[1]
						} else if f.Args[1] == o {
							d = f.Args[0]
						}
						if d != nil && d != c && (d.IsConst() || d.IsNil() || s.nonNil(d)) {
							if d.IsConst() && c.IsConst() || c.IsNil() != d.IsNil() {
								return 0
							}
						}
					}
				}
				if v, ok := c.IntVal(); ok {
					lo, hi, a, b := s.interval(o)
					if a && v < lo || b && v > hi {
						return 0
					}
					if a && b && lo == hi && lo == v {
						return 1
					}
				}
				if sv, ok := c.StrVal(); ok {
					if r := s.strCompat(o, sv); r == 0 {
						return 0
					}
				}
			}
			if isInteger(x.Typ) || isInteger(y.Typ) {
				if s.ltFact(x, y) || s.ltFact(y, x) {
					return 0
				}
			}
		case "lt":
			if x == y {
				return 0
			}
			if x.IsConst() && y.IsConst() && x.Const.Kind() == y.Const.Kind() {
				return b2i(constant.Compare(x.Const, token.LSS, y.Const))
			}
			lx, hx, a, b := s.interval(x)
			ly, hy, c, d := s.interval(y)
			if b && c && hx < ly {
				return 1
			}
			if a && d && lx >= hy {
				return 0
			}
			if s.ltFact(x, y) {
				return 1
			}
			if s.ltFact(y, x) {
				return 0
			}
			if v, ok := s.facts[s.U.Bin("eq", x, y, types.Typ[types.Bool])]; ok && v {
				return 0
			}
			// difference is constant
			l := Lin(s.U.Bin("-", x, y, types.Typ[types.Int]))
			if len(l.Coeff) == 0 {
				return b2i(l.C < 0)
			}
		}
	case OIs:
		x := t.Args[0]
		T := t.Obj.(*typeKey).t
		if x.IsNil() {
			return 0
		}
		if dt := s.DynType(x); dt != nil {
			if types.IsInterface(T) {
				return b2i(types.Implements(dt, T.Underlying().(*types.Interface)))
			}
			return b2i(types.Identical(dt, T))
		}
		if types.IsInterface(T) {
			if x.Typ != nil && types.IsInterface(x.Typ) && types.Implements(x.Typ, T.Underlying().(*types.Interface)) && s.Eval(s.U.Canon(s.U.EqNil(x))) == 0 {
				return 1
			}
		}
		if s.Eval(s.U.Canon(s.U.EqNil(x))) == 1 {
			return 0
		}
	case OMOk:
		if x := t.Args[0]; x.IsNil() {
			return 0
		}
	case OPure:
		switch t.Sym {
		case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
			if a, ok := t.Args[0].StrVal(); ok {
				if b, ok := t.Args[1].StrVal(); ok {
					switch t.Sym {
					case "strings.Contains":
						return b2i(strings.Contains(a, b))
					case "strings.HasPrefix":
						return b2i(strings.HasPrefix(a, b))
					default:
						return b2i(strings.HasSuffix(a, b))
					}
				}
			}
			if b, ok := t.Args[1].StrVal(); ok && b == "" {
				return 1
			}
		}
	}
	return -1
}

func unIface(t *Term) *Term {
	if t.Op == OIface && t.Args[0].IsConst() {
		return t.Args[0]
	}
	return t
}

// derivedIface: interface holding a value of a non-nilable concrete type.
func (s *State) derivedIface(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	switch t.Typ.Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Array:
		return true
	}
	return false
}

func (s *State) ltFact(x, y *Term) bool {
	v, ok := s.facts[s.U.mk(OBin, "lt", nil, types.Typ[types.Bool], x, y)]
	return ok && v
}

// strCompat: can string term o equal constant sv?  0 = no.
func (s *State) strCompat(o *Term, sv string) int {
	for f, v := range s.facts {
		if f.Op == OPure && len(f.Args) == 2 && f.Args[0] == o {
			if b, ok := f.Args[1].StrVal(); ok {
				var holds bool
				switch f.Sym {
				case "strings.Contains":
					holds = strings.Contains(sv, b)
				case "strings.HasPrefix":
					holds = strings.HasPrefix(sv, b)
				case "strings.HasSuffix":
					holds = strings.HasSuffix(sv, b)
				default:
					continue
				}
				if holds != v {
					return 0
				}
			}
		}
	}
	// concatenation with a constant longer/different piece
	parts := ConcatParts(o)
	if len(parts) > 1 {
		n := 0
		for _, p := range parts {
			if c, ok := p.StrVal(); ok {
				n += len(c)
			}
		}
		if n > len(sv) {
			return 0
		}
		if c, ok := parts[0].StrVal(); ok && !strings.HasPrefix(sv, c) {
			return 0
		}
	}
	if k, ok := s.knownLen(o); ok && k != int64(len(sv)) {
		return 0
	}
	ln := s.U.mk(OBuiltin, "len", nil, types.Typ[types.Int], o)
	for f, v := range s.facts {
		if f.Op == OBin && (f.Sym == "lt" || f.Sym == "eq") && (f.Args[0] == ln || f.Args[1] == ln) {
			x, y := f.Args[0], f.Args[1]
			a, ok1 := x.IntVal()
			b, ok2 := y.IntVal()
			n := int64(len(sv))
			var holds bool
			switch {
			case ok1 && f.Sym == "lt":
				holds = a < n
			case ok2 && f.Sym == "lt":
				holds = n < b
			case ok1:
				holds = a == n
			case ok2:
				holds = b == n
			default:
				continue
			}
			if holds != v {
				return 0
			}
		}
	}
	return -1
}

func (u *Universe) EqNil(t *Term) *Term { return u.Bin("eq", t, u.Nil(), types.Typ[types.Bool]) }
func (u *Universe) Eq(x, y *Term) *Term { return u.Bin("eq", x, y, types.Typ[types.Bool]) }
func (u *Universe) Lt(x, y *Term) *Term { return u.mk(OBin, "lt", nil, types.Typ[types.Bool], x, y) }

// Assume adds a fact; reports false if it contradicts.
func (s *State) Assume(l Lit) bool {
	switch s.Eval(l) {
	case 1:
		return true
	case 0:
		return false
	}
	s.facts[l.T] = !l.Neg
	return true
}

// IsNil / True helpers for rules: 1 yes, 0 no, -1 unknown.
func (s *State) IsNil(t *Term) int      { return s.Eval(s.U.Canon(s.U.EqNil(t))) }
func (s *State) EvalTerm(t *Term) int   { return s.Eval(s.U.Canon(t)) }
func (s *State) EqTerms(x, y *Term) int { return s.Eval(s.U.Canon(s.U.Eq(x, y))) }

// Facts lists the known literals.
func (s *State) Facts() []Lit {
	var out []Lit
	for t, v := range s.facts {
		out = append(out, Lit{t, !v})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].T.ID < out[j].T.ID })
	return out
}

// Recv is the receiver (first parameter) of the analysed entry function.
func (s *State) Recv() *Term {
	if len(s.a.res.Params) == 0 {
		return nil
	}
	return s.a.res.Params[0]
}

// Params of the analysed entry function.
// Entry is the function the analysis started at.
func (s *State) Entry() *ssa.Function { return s.a.root }

func (s *State) Params() []*Term { return s.a.res.Params }

// LoadInit is what a cell held when the analysed function was entered.
func (u *Universe) LoadInit(addr *Term) *Term {
	return u.mk(OLoad, "", nil, elemOf(addr.Typ), addr, u.Nil())
}

// Len is the length of a slice, map, channel or string.
func (u *Universe) Len(x *Term) *Term {
	return u.mk(OBuiltin, "len", nil, types.Typ[types.Int], x)
}

// MapEntries visits the entries written to a map on this path.
func (s *State) MapEntries(m *Term, f func(k, v *Term)) {
	var cs []*Term
	for c := range s.heap {
		if c.Op == OMAddr && c.Args[0] == m {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		f(c.Args[1], s.heap[c])
	}
}

// dereferenced: the path has decided something about a field read through p.
func (s *State) dereferenced(p *Term) bool {
	if p.Typ == nil {
		return false
	}
	if _, ok := p.Typ.Underlying().(*types.Pointer); !ok {
		return false
	}
	for f := range s.facts {
		if f.size < 3 || !s.U.Mentions(f, p) {
			continue
		}
		if Any(f, func(t *Term) bool {
			if t.Op != OLoad {
				return false
			}
			a := t.Args[0]
			for a.Op == OFAddr {
				a = a.Args[0]
				if a == p {
					return true
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}
