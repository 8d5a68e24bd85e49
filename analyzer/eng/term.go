// Package eng is a path-sensitive (property-simulation style) dataflow engine
// over go/ssa.  Values are abstracted to canonical terms, memory to cells keyed
// by address terms, branch outcomes to facts about terms, and the observable
// actions of interest to a trace of abstract events.  Loops are brought to a
// fixpoint by widening; nothing is executed and no solver is involved.
package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Op is the constructor of a term.
type Op uint8

const (
	OInvalid Op = iota
	OConst      // constant (Const)
	ONil        // nil of any type
	OZero       // zero value of an aggregate type
	OParam      // parameter / free variable of the entry function
	OGlobal     // address of a package-level variable (Obj *ssa.Global)
	OFunc       // a declared function used as a value (Obj *ssa.Function)
	OClosure    // closure (Obj *ssa.Function, Args bindings)
	OAlloc      // address/reference allocated at a site (new, make, composite literal)
	ORet        // result of an opaque call executed at a site
	OPure       // result of a call whose value depends on its arguments only
	OFAddr      // address of a struct field (Obj *types.Var)
	OField      // field of a struct value
	OIAddr      // address of an element
	OIndex      // element of a value (array value, string)
	OMAddr      // cell of a map entry
	OMOk        // presence cell of a map entry
	OLoad       // content of a cell before anything written here (Args addr, epoch)
	OOpaque     // unknown value with an identity
	OBin        // + - * / & etc and comparisons eq lt
	OUn         // - ^ !
	OConv       // conversion that changes representation
	OTA         // type assertion value
	OIs         // type assertion outcome
	OSlice      // x[lo:hi:max]
	OStruct     // struct value with overrides
	OTuple      // several results
	OExtract    // component of a tuple
	ORange      // iterator
	OIface      // interface holding a typed nil
	OOld        // value a site-identified term had in an earlier iteration
	OBuiltin    // len cap append copy ...
	OMethod     // bound method value of an interface (Obj *types.Func, Args recv)
)

var opNames = map[Op]string{OConst: "const", ONil: "nil", OZero: "zero", OParam: "param", OGlobal: "global", OFunc: "func", OClosure: "closure", OAlloc: "alloc", ORet: "ret", OPure: "call", OFAddr: "&.", OField: ".", OIAddr: "&[]", OIndex: "[]", OMAddr: "map[]", OMOk: "mapok", OLoad: "load", OOpaque: "opaque", OBin: "bin", OUn: "un", OConv: "conv", OTA: "assert", OIs: "is", OSlice: "slice", OStruct: "struct", OTuple: "tuple", OExtract: "ext", ORange: "range", OIface: "iface", OOld: "old", OBuiltin: "builtin", OMethod: "method"}

// Term is an interned, immutable abstract value.
type Term struct {
	ID    int
	Op    Op
	Sym   string
	Args  []*Term
	Typ   types.Type
	Obj   interface{}
	Const constant.Value
	size  int
}

// Universe interns terms.
type Universe struct {
	tab      map[string]*Term
	all      []*Term
	mentions map[[2]int]bool
	objIDs   map[interface{}]int
}

func NewUniverse() *Universe {
	return &Universe{tab: map[string]*Term{}, mentions: map[[2]int]bool{}, objIDs: map[interface{}]int{}}
}

func (u *Universe) objID(o interface{}) int {
	if o == nil {
		return 0
	}
	if id, ok := u.objIDs[o]; ok {
		return id
	}
	id := len(u.objIDs) + 1
	u.objIDs[o] = id
	return id
}

func (u *Universe) mk(op Op, sym string, obj interface{}, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(op) + 'A')
	b.WriteString(sym)
	b.WriteByte('|')
	if obj != nil {
		b.WriteString(strconv.Itoa(u.objID(obj)))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t := u.tab[k]; t != nil {
		return t
	}
	t := &Term{ID: len(u.all) + 1, Op: op, Sym: sym, Args: args, Typ: typ, Obj: obj, size: 1}
	for _, a := range args {
		t.size += a.size
	}
	u.tab[k] = t
	u.all = append(u.all, t)
	return t
}

// Slice makes x[lo:hi]; a nil bound is left out.
func (u *Universe) Slice(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = u.Nil()
	}
	if hi == nil {
		hi = u.Nil()
	}
	return u.mk(OSlice, "", nil, typ, x, lo, hi, u.Nil())
}

func (u *Universe) Nil() *Term { return u.mk(ONil, "", nil, nil) }

func (u *Universe) ConstV(v constant.Value, typ types.Type) *Term {
	sym := v.Kind().String() + ":" + v.ExactString()
	t := u.mk(OConst, sym, nil, typ)
	if t.Const == nil {
		t.Const = v
	}
	return t
}
func (u *Universe) Bool(b bool) *Term { return u.ConstV(constant.MakeBool(b), types.Typ[types.Bool]) }
func (u *Universe) Int(i int64) *Term { return u.ConstV(constant.MakeInt64(i), types.Typ[types.Int]) }
func (u *Universe) Str(s string) *Term {
	return u.ConstV(constant.MakeString(s), types.Typ[types.String])
}
func (u *Universe) Opaque(sym string, t types.Type, args ...*Term) *Term {
	return u.mk(OOpaque, sym, nil, t, args...)
}

// Zero is the zero value of a type.
func (u *Universe) Zero(t types.Type) *Term {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return u.ConstV(constant.MakeBool(false), t)
		case x.Info()&types.IsString != 0:
			return u.ConstV(constant.MakeString(""), t)
		case x.Info()&(types.IsInteger|types.IsFloat) != 0:
			return u.ConstV(constant.MakeInt64(0), t)
		}
		return u.Nil()
	case *types.Struct, *types.Array:
		return u.mk(OZero, types.TypeString(t, nil), nil, t)
	}
	return u.Nil()
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsNil() bool   { return t.Op == ONil }
func (t *Term) IsTrue() bool {
	return t.Op == OConst && t.Const.Kind() == constant.Bool && constant.BoolVal(t.Const)
}
func (t *Term) IsFalse() bool {
	return t.Op == OConst && t.Const.Kind() == constant.Bool && !constant.BoolVal(t.Const)
}
func (t *Term) IntVal() (int64, bool) {
	if t.Op == OConst && t.Const.Kind() == constant.Int {
		return constant.Int64Val(t.Const)
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.Op == OConst && t.Const.Kind() == constant.String {
		return constant.StringVal(t.Const), true
	}
	return "", false
}

// Mentions reports whether s occurs in t.
func (u *Universe) Mentions(t, s *Term) bool {
	if t == s {
		return true
	}
	if t.ID < s.ID || len(t.Args) == 0 {
		return false // arguments are interned before the terms built from them
	}
	k := [2]int{t.ID, s.ID}
	if v, ok := u.mentions[k]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if u.Mentions(a, s) {
			r = true
			break
		}
	}
	u.mentions[k] = r
	return r
}

// Any reports whether some subterm satisfies p.
func Any(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Subst replaces from by to inside t.
func (u *Universe) Subst(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if !u.Mentions(t, from) {
		return t
	}
	if t.Op == OOld {
		return t // an older generation stays one term
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = u.Subst(a, from, to)
	}
	n := u.rebuild(t, args)
	return n
}

func (u *Universe) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OFAddr:
		return u.FAddr(args[0], t.Obj.(*types.Var))
	case OField:
		return u.Field(args[0], t.Obj.(*types.Var))
	case OBin:
		return u.Bin(t.Sym, args[0], args[1], t.Typ)
	}
	n := u.mk(t.Op, t.Sym, t.Obj, t.Typ, args...)
	n.Const = t.Const
	return n
}

func (u *Universe) Old(t *Term) *Term {
	if t.Op == OOld {
		return t
	}
	return u.mk(OOld, "", nil, t.Typ, t)
}

func (u *Universe) FAddr(base *Term, f *types.Var) *Term {
	return u.mk(OFAddr, f.Name(), f, types.NewPointer(f.Type()), base)
}

// Field is the value of field f of struct value v.
func (u *Universe) Field(v *Term, f *types.Var) *Term {
	switch v.Op {
	case OZero:
		return u.Zero(f.Type())
	case OStruct:
		for i := 1; i < len(v.Args); i += 2 {
			if v.Args[i].Obj == interface{}(f) {
				return v.Args[i+1]
			}
		}
		return u.Field(v.Args[0], f)
	}
	return u.mk(OField, f.Name(), f, f.Type(), v)
}

// StructWith builds a struct value from a base and overrides.
func (u *Universe) StructWith(base *Term, over map[*types.Var]*Term) *Term {
	if len(over) == 0 {
		return base
	}
	if base.Op == OStruct {
		m := map[*types.Var]*Term{}
		for i := 1; i < len(base.Args); i += 2 {
			m[base.Args[i].Obj.(*types.Var)] = base.Args[i+1]
		}
		for k, v := range over {
			m[k] = v
		}
		over = m
		base = base.Args[0]
	}
	var fs []*types.Var
	for f := range over {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		return fs[i].Pos() < fs[j].Pos() || fs[i].Pos() == fs[j].Pos() && fs[i].Name() < fs[j].Name()
	})
	args := []*Term{base}
	for _, f := range fs {
		args = append(args, u.mk(OOpaque, "fieldkey", f, f.Type()), over[f])
	}
	return u.mk(OStruct, "", nil, base.Typ, args...)
}

// Linear normal form of an integer term: sum coeff*atom + const.
type Linear struct {
	C     int64
	Coeff map[*Term]int64
}

func Lin(t *Term) Linear {
	l := Linear{Coeff: map[*Term]int64{}}
	var f func(t *Term, k int64)
	f = func(t *Term, k int64) {
		if v, ok := t.IntVal(); ok {
			l.C += k * v
			return
		}
		if t.Op == OBin {
			switch t.Sym {
			case "+":
				f(t.Args[0], k)
				f(t.Args[1], k)
				return
			case "-":
				f(t.Args[0], k)
				f(t.Args[1], -k)
				return
			case "*":
				if v, ok := t.Args[0].IntVal(); ok {
					f(t.Args[1], k*v)
					return
				}
				if v, ok := t.Args[1].IntVal(); ok {
					f(t.Args[0], k*v)
					return
				}
			}
		}
		if t.Op == OUn && t.Sym == "-" {
			f(t.Args[0], -k)
			return
		}
		l.Coeff[t] += k
		if l.Coeff[t] == 0 {
			delete(l.Coeff, t)
		}
	}
	f(t, 1)
	return l
}

func (u *Universe) fromLin(l Linear, typ types.Type) *Term {
	var ts []*Term
	for t := range l.Coeff {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var r *Term
	add := func(op string, x *Term) {
		if r == nil {
			if op == "-" {
				r = u.mk(OUn, "-", nil, typ, x)
			} else {
				r = x
			}
			return
		}
		r = u.mk(OBin, op, nil, typ, r, x)
	}
	for _, neg := range []bool{false, true} {
		for _, t := range ts {
			k := l.Coeff[t]
			if (k < 0) != neg {
				continue
			}
			op := "+"
			if k < 0 {
				op = "-"
				k = -k
			}
			x := t
			if k != 1 {
				x = u.mk(OBin, "*", nil, typ, u.Int(k), t)
			}
			add(op, x)
		}
	}
	if r == nil {
		return u.Int(l.C)
	}
	if l.C > 0 {
		add("+", u.Int(l.C))
	} else if l.C < 0 {
		add("-", u.Int(-l.C))
	}
	return r
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Bin builds an arithmetic or comparison term ("eq" and "lt" are the only
// comparisons; see Cond).
func (u *Universe) Bin(op string, x, y *Term, typ types.Type) *Term {
	if x.Op == OConst && y.Op == OConst {
		if v := foldBin(op, x, y); v != nil {
			return u.ConstV(v, typ)
		}
		if a, ok := x.IntVal(); ok && isInteger(typ) {
			if b, ok := y.IntVal(); ok && b != 0 {
				switch op {
				case "/":
					return u.ConstV(constant.MakeInt64(a/b), typ)
				case "%":
					return u.ConstV(constant.MakeInt64(a%b), typ)
				}
			}
		}
	}
	switch op {
	case "+", "-":
		if isInteger(typ) {
			a, b := Lin(x), Lin(y)
			k := int64(1)
			if op == "-" {
				k = -1
			}
			a.C += k * b.C
			for t, c := range b.Coeff {
				a.Coeff[t] += k * c
				if a.Coeff[t] == 0 {
					delete(a.Coeff, t)
				}
			}
			return u.fromLin(a, typ)
		}
		if op == "+" && isString(typ) {
			if s, ok := x.StrVal(); ok && s == "" {
				return y
			}
			if s, ok := y.StrVal(); ok && s == "" {
				return x
			}
			// right-nested concatenation with constant folding
			parts := append(ConcatParts(x), ConcatParts(y)...)
			var out []*Term
			for _, p := range parts {
				if len(out) > 0 {
					a, ok1 := out[len(out)-1].StrVal()
					b, ok2 := p.StrVal()
					if ok1 && ok2 {
						out[len(out)-1] = u.Str(a + b)
						continue
					}
				}
				out = append(out, p)
			}
			r := out[len(out)-1]
			for i := len(out) - 2; i >= 0; i-- {
				r = u.mk(OBin, "+", nil, typ, out[i], r)
			}
			return r
		}
	case "eq":
		if x.ID > y.ID {
			x, y = y, x
		}
	case "*", "&", "|", "^":
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return u.mk(OBin, op, nil, typ, x, y)
}

// ConcatParts flattens a string concatenation.
func ConcatParts(t *Term) []*Term {
	if t.Op == OBin && t.Sym == "+" && isString(t.Typ) {
		return append(ConcatParts(t.Args[0]), ConcatParts(t.Args[1])...)
	}
	return []*Term{t}
}

func foldBin(op string, x, y *Term) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch op {
	case "+":
		return constant.BinaryOp(x.Const, tokOf(op), y.Const)
	case "-", "*", "&", "|", "^", "&^":
		return constant.BinaryOp(x.Const, tokOf(op), y.Const)
	}
	return nil
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 8 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case OConst:
		return t.Const.String()
	case ONil:
		return "nil"
	case OZero:
		return "zero(" + t.Sym + ")"
	case OParam:
		return t.Sym
	case OGlobal:
		return "&" + t.Sym
	case OFunc:
		return t.Sym
	case OFAddr:
		return "&" + strings.TrimPrefix(a(0), "&") + "." + t.Sym
	case OField:
		return a(0) + "." + t.Sym
	case OIAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OIndex, OMAddr:
		return a(0) + "[" + a(1) + "]"
	case OMOk:
		return "ok(" + a(0) + "[" + a(1) + "])"
	case OLoad:
		return "*(" + a(0) + ")"
	case OBin:
		return "(" + a(0) + " " + t.Sym + " " + a(1) + ")"
	case OExtract:
		return a(0) + "#" + t.Sym
	case OOld:
		return "old(" + a(0) + ")"
	case OIs:
		return a(0) + ".(" + t.Sym + ")ok"
	case OTA:
		return a(0) + ".(" + t.Sym + ")"
	}
	var ss []string
	for i := range t.Args {
		ss = append(ss, a(i))
	}
	sym := t.Sym
	if i := strings.LastIndex(sym, "@"); i >= 0 && (t.Op == ORet || t.Op == OAlloc || t.Op == OOpaque || t.Op == ORange) {
		if d > 0 || true {
			sym = sym[:i]
		}
	}
	return fmt.Sprintf("%s:%s(%s)", opNames[t.Op], sym, strings.Join(ss, ", "))
}
