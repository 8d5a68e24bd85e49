package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis of the whole module: inclusion based, field sensitive,
// flow insensitive. Functions are cloned by phase (what runs while the program
// sets itself up, and what runs while requests are served) and by the phase of
// the objects their first parameters refer to, so that a method of a value
// made per request is not confused with the same method of a shared value.

const (
	phSetup   = 'S'
	phRequest = 'R'
)

// pObj is an abstract object: everything one construct makes in one phase.
type pObj struct {
	id    int
	kind  byte // a: memory, s: array behind a slice, m: map, c: channel, f: function, b: value in an interface, x: unknown
	phase byte
	typ   types.Type // a: type of the memory, otherwise the type of the value
	fn    *ssa.Function
	pos   token.Pos
	what  string
	synth bool // made outside the module: children are created on demand
	depth int
	by    *pClone // the function that makes it
}

// pLoc is a place inside an object.
type pLoc struct {
	o *pObj
	k interface{} // nil, *types.Var or a string
}

type pSet map[pLoc]struct{}

func (s pSet) add(l pLoc) bool {
	if _, ok := s[l]; ok {
		return false
	}
	s[l] = struct{}{}
	return true
}

type pClone struct {
	fn     *ssa.Function
	phase  byte
	mask   int
	params []pSet
	free   []pSet
	vals   map[ssa.Value]pSet
	tup    map[ssa.Value][]pSet
	ret    []pSet
	calls  map[*pClone][]ssa.Instruction // callers and their call sites
}

type pCloneKey struct {
	fn    *ssa.Function
	phase byte
	mask  int
}

type pObjKey struct {
	site  interface{}
	fc    *pClone
	extra string
}

// pAccess is a read or a write of a place by an instruction.
type pAccess struct {
	fc    *pClone
	in    ssa.Instruction
	loc   pLoc
	write bool
	how   string
}

type pta struct {
	p       *eng.Program
	clones  map[pCloneKey]*pClone
	order   []*pClone
	objs    map[pObjKey]*pObj
	all     []*pObj
	cells   map[pLoc]pSet
	changed bool
	// calls of functions that run under a sync.Once
	once map[*pClone]bool
	// what is handed to another goroutine
	handed pSet
	// accesses, while recording
	rec func(pAccess)
	// objects a parameter may be given by the injector
	byType func(t types.Type, phase byte, site interface{}) pSet
	ext    map[string]int
	goes   []ssa.Instruction
}

func newPTA(p *eng.Program) *pta {
	return &pta{p: p, clones: map[pCloneKey]*pClone{}, objs: map[pObjKey]*pObj{}, cells: map[pLoc]pSet{}, once: map[*pClone]bool{}, handed: pSet{}, ext: map[string]int{}}
}

func (a *pta) clone(fn *ssa.Function, phase byte, mask int) *pClone {
	k := pCloneKey{fn, phase, mask}
	if c := a.clones[k]; c != nil {
		return c
	}
	c := &pClone{fn: fn, phase: phase, mask: mask, vals: map[ssa.Value]pSet{}, tup: map[ssa.Value][]pSet{}, calls: map[*pClone][]ssa.Instruction{}}
	for range fn.Params {
		c.params = append(c.params, pSet{})
	}
	for range fn.FreeVars {
		c.free = append(c.free, pSet{})
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		c.ret = append(c.ret, pSet{})
	}
	a.clones[k] = c
	a.order = append(a.order, c)
	a.changed = true
	return c
}

func (a *pta) obj(k pObjKey, kind, phase byte, t types.Type, pos token.Pos, what string) *pObj {
	if o := a.objs[k]; o != nil {
		return o
	}
	o := &pObj{id: len(a.all), kind: kind, phase: phase, typ: t, pos: pos, what: what, by: k.fc}
	a.objs[k] = o
	a.all = append(a.all, o)
	a.changed = true
	return o
}

// typeOf is the type of the memory at l (nil: l is not an address).
func (l pLoc) typeOf() types.Type {
	switch k := l.k.(type) {
	case nil:
		if l.o.kind == 'a' {
			return l.o.typ
		}
		return nil
	case *types.Var:
		return k.Type()
	case string:
		u := l.o.typ.Underlying()
		switch k {
		case "[]":
			switch t := u.(type) {
			case *types.Slice:
				return t.Elem()
			case *types.Array:
				return t.Elem()
			}
			return elemOf(l.o.typ)
		case "key":
			if m, ok := u.(*types.Map); ok {
				return m.Key()
			}
		case "val":
			if m, ok := u.(*types.Map); ok {
				return m.Elem()
			}
		case "chan":
			if m, ok := u.(*types.Chan); ok {
				return m.Elem()
			}
		case "box":
			return l.o.typ
		}
		if strings.HasPrefix(k, "[]") {
			return nil
		}
	}
	return nil
}

// elemOf finds the element of the array nested in a type.
func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if e := elemOf(u.Field(i).Type()); e != nil {
				return e
			}
		}
	}
	return nil
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// admits tells whether a value of type t can refer to l.
func admits(l pLoc, t types.Type) bool {
	lt := l.typeOf()
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if l.o.kind == 'x' {
			return false
		}
		return lt != nil && types.Identical(lt, u.Elem())
	case *types.Interface:
		if l.o.kind == 'x' && l.k == nil {
			i, ok := l.o.typ.Underlying().(*types.Interface)
			return ok && (i.NumMethods() == 0 || types.Implements(l.o.typ, u))
		}
		if lt != nil {
			return types.Implements(types.NewPointer(lt), u)
		}
		return l.k == nil && l.o.kind == 'b' && types.Implements(l.o.typ, u)
	case *types.Slice:
		if l.k == nil && l.o.kind == 's' {
			s, ok := l.o.typ.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), u.Elem())
		}
		if lt != nil {
			if ar, ok := lt.Underlying().(*types.Array); ok {
				return types.Identical(ar.Elem(), u.Elem())
			}
		}
		return false
	case *types.Map:
		return l.k == nil && l.o.kind == 'm' && types.Identical(l.o.typ.Underlying(), u)
	case *types.Chan:
		if l.k != nil || l.o.kind != 'c' {
			return false
		}
		c, ok := l.o.typ.Underlying().(*types.Chan)
		return ok && types.Identical(c.Elem(), u.Elem())
	case *types.Signature:
		return l.k == nil && l.o.kind == 'f' && types.Identical(sigOnly(l.o.typ), sigOnly(t))
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return true // a struct or an array: collapsed
}

func sigOnly(t types.Type) types.Type {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return t
	}
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func filterTo(s pSet, t types.Type) pSet {
	out := pSet{}
	for l := range s {
		if admits(l, t) {
			out[l] = struct{}{}
		}
	}
	return out
}

func (a *pta) into(dst pSet, src pSet) {
	for l := range src {
		if dst.add(l) {
			a.changed = true
		}
	}
}

func (a *pta) cell(l pLoc) pSet {
	c := a.cells[l]
	if c == nil {
		c = pSet{}
		a.cells[l] = c
	}
	return c
}

// store puts values into the memory at l.
func (a *pta) store(l pLoc, vals pSet) {
	if len(vals) == 0 {
		return
	}
	t := l.typeOf()
	if t == nil {
		return
	}
	a.storeT(l, t, vals, 0)
}

func (a *pta) storeT(l pLoc, t types.Type, vals pSet, depth int) {
	if depth > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isReflectValue(t) {
			a.into(a.cell(l), vals)
			return
		}
		if l.k == "box" || l.k == "[]" || l.k == "val" || l.k == "key" || l.k == "chan" {
			// also collapsed under the place itself: boxes and map values are
			// never addressed by field
			a.into(a.cell(l), vals)
			if l.k != "[]" {
				return
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fl := pLoc{l.o, f}
			if vs := filterTo(vals, f.Type()); len(vs) > 0 {
				a.storeT(fl, f.Type(), vs, depth+1)
			}
		}
	case *types.Array:
		if vs := filterTo(vals, u.Elem()); len(vs) > 0 {
			a.into(a.cell(pLoc{l.o, "[]"}), vs)
		}
	default:
		a.into(a.cell(l), filterTo(vals, t))
	}
}

// load reads the memory at l.
func (a *pta) load(l pLoc) pSet {
	t := l.typeOf()
	if t == nil {
		return nil
	}
	return a.loadT(l, t, 0)
}

func (a *pta) loadT(l pLoc, t types.Type, depth int) pSet {
	if depth > 6 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out := pSet{}
		for x := range a.cells[l] {
			out.add(x)
		}
		if isReflectValue(t) {
			return out
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for x := range a.loadT(pLoc{l.o, f}, f.Type(), depth+1) {
				out.add(x)
			}
		}
		return out
	case *types.Array:
		return a.cells[pLoc{l.o, "[]"}]
	case *types.Basic:
		return nil
	}
	if l.o.synth {
		a.into(a.cell(l), a.unknown(t, l.o.phase, l, nil, l.o.depth+1, l.o.what))
	}
	return a.cells[l]
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

// unknown is a value of type t that comes from outside the module.
func (a *pta) unknown(t types.Type, phase byte, site interface{}, fc *pClone, depth int, what string) pSet {
	if depth > 4 {
		return nil
	}
	var kind byte
	ot := t
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		kind, ot = 'a', u.Elem()
	case *types.Slice:
		kind = 's'
	case *types.Map:
		kind = 'm'
	case *types.Chan:
		kind = 'c'
	case *types.Signature:
		kind = 'f'
	case *types.Interface:
		kind = 'x'
	case *types.Tuple:
		out := pSet{}
		for i := 0; i < u.Len(); i++ {
			for l := range a.unknown(u.At(i).Type(), phase, site, fc, depth, what) {
				out.add(l)
			}
		}
		return out
	default:
		return nil
	}
	var pos token.Pos
	if in, ok := site.(interface{ Pos() token.Pos }); ok {
		pos = in.Pos()
	}
	o := a.obj(pObjKey{site, fc, string(phase) + t.String()}, kind, phase, ot, pos, what)
	o.synth = true
	o.depth = depth
	return pSet{pLoc{o, nil}: {}}
}

// contents is what one step through the values of s reaches.
func (a *pta) contents(s pSet) pSet {
	out := pSet{}
	add := func(x pSet) {
		for l := range x {
			out.add(l)
		}
	}
	for l := range s {
		switch {
		case l.typeOf() != nil:
			add(a.load(l))
		case l.o.kind == 's':
			add(a.load(pLoc{l.o, "[]"}))
		case l.o.kind == 'm':
			add(a.load(pLoc{l.o, "key"}))
			add(a.load(pLoc{l.o, "val"}))
		case l.o.kind == 'c':
			add(a.load(pLoc{l.o, "chan"}))
		case l.o.kind == 'b':
			add(a.cells[pLoc{l.o, "box"}])
		}
	}
	return out
}

func (a *pta) globalObj(g *ssa.Global) *pObj {
	o := a.obj(pObjKey{g, nil, ""}, 'a', phSetup, g.Type().Underlying().(*types.Pointer).Elem(), g.Pos(), "the package variable "+g.Pkg.Pkg.Name()+"."+g.Name())
	if !a.p.IsModule(g.Pkg.Func("init")) {
		o.synth = true
	}
	return o
}

func (a *pta) val(fc *pClone, v ssa.Value) pSet {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	case *ssa.Global:
		return pSet{pLoc{a.globalObj(x), nil}: {}}
	case *ssa.Function:
		o := a.obj(pObjKey{x, nil, ""}, 'f', phSetup, x.Signature, x.Pos(), "the function "+x.Name())
		o.fn = x
		return pSet{pLoc{o, nil}: {}}
	case *ssa.Parameter:
		for i, p := range fc.fn.Params {
			if p == x {
				return fc.params[i]
			}
		}
		return nil
	case *ssa.FreeVar:
		for i, p := range fc.fn.FreeVars {
			if p == x {
				return fc.free[i]
			}
		}
		return nil
	}
	return fc.vals[v]
}

func (a *pta) set(fc *pClone, v ssa.Value, s pSet) {
	if len(s) == 0 {
		return
	}
	d := fc.vals[v]
	if d == nil {
		d = pSet{}
		fc.vals[v] = d
	}
	a.into(d, s)
}

func (a *pta) setTup(fc *pClone, v ssa.Value, i, n int, s pSet) {
	t := fc.tup[v]
	if t == nil {
		for j := 0; j < n; j++ {
			t = append(t, pSet{})
		}
		fc.tup[v] = t
	}
	if i < len(t) {
		a.into(t[i], s)
	}
}

func (a *pta) access(fc *pClone, in ssa.Instruction, l pLoc, write bool, how string) {
	if a.rec != nil {
		a.rec(pAccess{fc, in, l, write, how})
	}
}

func one(o *pObj) pSet { return pSet{pLoc{o, nil}: {}} }

func (a *pta) step(fc *pClone, in ssa.Instruction) {
	site := func(v ssa.Value) string {
		return fmt.Sprintf("made in %s", eng.FuncName(fc.fn))
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		a.set(fc, x, one(a.obj(pObjKey{x, fc, ""}, 'a', fc.phase, t, x.Pos(), "the value "+site(x))))
	case *ssa.MakeSlice:
		a.set(fc, x, one(a.obj(pObjKey{x, fc, ""}, 's', fc.phase, x.Type(), x.Pos(), "the list "+site(x))))
	case *ssa.MakeMap:
		a.set(fc, x, one(a.obj(pObjKey{x, fc, ""}, 'm', fc.phase, x.Type(), x.Pos(), "the map "+site(x))))
	case *ssa.MakeChan:
		a.set(fc, x, one(a.obj(pObjKey{x, fc, ""}, 'c', fc.phase, x.Type(), x.Pos(), "the channel "+site(x))))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		o := a.obj(pObjKey{x, fc, ""}, 'f', fc.phase, fn.Signature, x.Pos(), "the function "+site(x))
		o.fn = fn
		for i, b := range x.Bindings {
			a.into(a.cell(pLoc{o, fmt.Sprint("fv", i)}), a.val(fc, b))
		}
		a.set(fc, x, one(o))
	case *ssa.MakeInterface:
		v := a.val(fc, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			a.set(fc, x, v)
			return
		}
		o := a.obj(pObjKey{x, fc, ""}, 'b', fc.phase, x.X.Type(), x.Pos(), "the value "+site(x))
		a.into(a.cell(pLoc{o, "box"}), v)
		a.set(fc, x, one(o))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(fc, x, a.val(fc, e))
		}
	case *ssa.ChangeType:
		s := a.val(fc, x.X)
		if _, ok := x.Type().Underlying().(*types.Signature); !ok {
			a.set(fc, x, s)
		} else {
			a.set(fc, x, s)
		}
	case *ssa.ChangeInterface:
		a.set(fc, x, a.val(fc, x.X))
	case *ssa.Convert:
		if sl, ok := x.Type().Underlying().(*types.Slice); ok {
			_ = sl
			if _, str := x.X.Type().Underlying().(*types.Basic); str {
				a.set(fc, x, one(a.obj(pObjKey{x, fc, ""}, 's', fc.phase, x.Type(), x.Pos(), "the bytes "+site(x))))
				return
			}
		}
		a.set(fc, x, filterTo(a.val(fc, x.X), x.Type()))
	case *ssa.SliceToArrayPointer:
		a.set(fc, x, a.val(fc, x.X))
	case *ssa.Slice:
		a.set(fc, x, a.val(fc, x.X))
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := st.Field(x.Field)
		out := pSet{}
		for l := range a.val(fc, x.X) {
			out.add(pLoc{l.o, f})
		}
		a.set(fc, x, out)
	case *ssa.Field:
		a.set(fc, x, filterTo(a.val(fc, x.X), x.Type()))
	case *ssa.IndexAddr:
		out := pSet{}
		for l := range a.val(fc, x.X) {
			out.add(pLoc{l.o, "[]"})
		}
		a.set(fc, x, out)
	case *ssa.Index:
		a.set(fc, x, filterTo(a.val(fc, x.X), x.Type()))
	case *ssa.Lookup:
		out := pSet{}
		for l := range a.val(fc, x.X) {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, false, "reads")
				for v := range a.load(pLoc{l.o, "val"}) {
					out.add(v)
				}
			}
		}
		if x.CommaOk {
			a.setTup(fc, x, 0, 2, out)
		} else {
			a.set(fc, x, out)
		}
	case *ssa.Range:
		a.set(fc, x, a.val(fc, x.X))
	case *ssa.Next:
		if x.IsString {
			return
		}
		for l := range a.val(fc, x.Iter) {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, false, "reads")
				a.setTup(fc, x, 1, 3, a.load(pLoc{l.o, "key"}))
				a.setTup(fc, x, 2, 3, a.load(pLoc{l.o, "val"}))
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			out := pSet{}
			for l := range a.val(fc, x.X) {
				a.access(fc, in, l, false, "reads")
				for v := range a.load(l) {
					out.add(v)
				}
			}
			a.set(fc, x, filterTo(out, x.Type()))
		case token.ARROW:
			out := pSet{}
			for l := range a.val(fc, x.X) {
				if l.o.kind == 'c' {
					for v := range a.load(pLoc{l.o, "chan"}) {
						out.add(v)
					}
				}
			}
			if x.CommaOk {
				a.setTup(fc, x, 0, 2, out)
			} else {
				a.set(fc, x, out)
			}
		}
	case *ssa.Send:
		for l := range a.val(fc, x.Chan) {
			if l.o.kind == 'c' {
				a.store(pLoc{l.o, "chan"}, a.val(fc, x.X))
			}
		}
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				n++
			}
		}
		i := 2
		for _, s := range x.States {
			for l := range a.val(fc, s.Chan) {
				if l.o.kind != 'c' {
					continue
				}
				if s.Dir == types.SendOnly {
					a.store(pLoc{l.o, "chan"}, a.val(fc, s.Send))
				} else {
					a.setTup(fc, x, i, n, a.load(pLoc{l.o, "chan"}))
				}
			}
			if s.Dir == types.RecvOnly {
				i++
			}
		}
	case *ssa.Store:
		v := a.val(fc, x.Val)
		for l := range a.val(fc, x.Addr) {
			a.access(fc, in, l, true, "writes")
			a.store(l, v)
		}
	case *ssa.MapUpdate:
		for l := range a.val(fc, x.Map) {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, true, "writes")
				a.store(pLoc{l.o, "key"}, a.val(fc, x.Key))
				a.store(pLoc{l.o, "val"}, a.val(fc, x.Value))
			}
		}
	case *ssa.TypeAssert:
		out := pSet{}
		s := a.val(fc, x.X)
		if isIface(x.AssertedType) {
			out = filterTo(s, x.AssertedType)
		} else if _, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			out = filterTo(s, x.AssertedType)
		} else {
			for l := range s {
				if l.o.kind == 'b' && l.k == nil && types.Identical(l.o.typ, x.AssertedType) {
					for v := range a.cells[pLoc{l.o, "box"}] {
						out.add(v)
					}
				}
			}
		}
		if x.CommaOk {
			a.setTup(fc, x, 0, 2, out)
		} else {
			a.set(fc, x, out)
		}
	case *ssa.Extract:
		if t := fc.tup[x.Tuple]; x.Index < len(t) {
			a.set(fc, x, filterTo(t[x.Index], x.Type()))
		}
	case *ssa.Return:
		for i, r := range x.Results {
			a.into(fc.ret[i], a.val(fc, r))
		}
	case *ssa.Call:
		a.call(fc, in, x.Common(), x, fc.phase)
	case *ssa.Defer:
		a.call(fc, in, x.Common(), nil, fc.phase)
	case *ssa.Go:
		for _, v := range x.Common().Args {
			a.into(a.handed, a.val(fc, v))
		}
		a.into(a.handed, a.val(fc, x.Common().Value))
		a.call(fc, in, x.Common(), nil, phRequest)
	}
}

// call evaluates a call.
func (a *pta) call(fc *pClone, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value, phase byte) {
	var args []pSet
	for _, v := range cc.Args {
		args = append(args, a.val(fc, v))
	}
	give := func(out []pSet) {
		if res == nil || len(out) == 0 {
			return
		}
		if cc.Signature().Results().Len() > 1 {
			for i, s := range out {
				a.setTup(fc, res, i, len(out), s)
			}
		} else {
			a.set(fc, res, out[0])
		}
	}
	if cc.IsInvoke() {
		unknown := false
		for l := range a.val(fc, cc.Value) {
			var t types.Type
			recv := pSet{l: {}}
			if lt := l.typeOf(); lt != nil {
				t = types.NewPointer(lt)
			} else if l.o.kind == 'b' && l.k == nil {
				t = l.o.typ
				recv = a.cells[pLoc{l.o, "box"}]
				if recv == nil {
					recv = pSet{}
				}
			}
			if t == nil {
				a.external(fc, in, ifaceName(cc.Value.Type())+"."+cc.Method.Name(), cc.Signature(), append([]pSet{{l: {}}}, args...), cc, phase, give)
				unknown = true
				continue
			}
			m := a.p.Method(t, cc.Method)
			if m == nil || !hasBlocks(m) {
				a.external(fc, in, methodName(t, cc.Method.Name()), cc.Signature(), append([]pSet{recv}, args...), cc, phase, give)
				continue
			}
			give(a.invoke(fc, in, m, nil, append([]pSet{recv}, args...), phase))
		}
		_ = unknown
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		a.builtin(fc, in, v.Name(), cc, args, res)
		return
	case *ssa.Function:
		if !hasBlocks(v) {
			a.external(fc, in, v.String(), cc.Signature(), args, cc, phase, give)
			return
		}
		give(a.invoke(fc, in, v, nil, args, phase))
		return
	}
	for l := range a.val(fc, cc.Value) {
		give(a.callFunc(fc, in, l.o, args, cc, phase, give))
	}
}

// callFunc calls a function value.
func (a *pta) callFunc(fc *pClone, in ssa.Instruction, o *pObj, args []pSet, cc *ssa.CallCommon, phase byte, give func([]pSet)) []pSet {
	if o.kind != 'f' {
		return nil
	}
	if o.fn == nil {
		sig := o.typ.Underlying().(*types.Signature)
		var out []pSet
		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, a.unknown(sig.Results().At(i).Type(), phase, in, fc, 1, "what a function from outside returns"))
		}
		return out
	}
	if !hasBlocks(o.fn) {
		if give == nil {
			give = func([]pSet) {}
		}
		a.external(fc, in, o.fn.String(), o.fn.Signature, args, cc, phase, give)
		return nil
	}
	return a.invoke(fc, in, o.fn, o, args, phase)
}

func hasBlocks(f *ssa.Function) bool { return len(f.Blocks) > 0 }

// invoke enters a function of the module.
func (a *pta) invoke(fc *pClone, in ssa.Instruction, fn *ssa.Function, clo *pObj, args []pSet, phase byte) []pSet {
	type group struct {
		mask int
		args []pSet
	}
	groups := []group{{0, args}}
	if phase == phRequest {
		if clo != nil && clo.phase == phSetup {
			groups[0].mask = 1
		}
		for i := 0; i < len(args) && i < 3; i++ {
			var s, r pSet
			for l := range args[i] {
				if l.o.phase == phSetup {
					if s == nil {
						s = pSet{}
					}
					s.add(l)
				} else {
					if r == nil {
						r = pSet{}
					}
					r.add(l)
				}
			}
			var next []group
			for _, g := range groups {
				if s != nil {
					as := append([]pSet{}, g.args...)
					as[i] = s
					next = append(next, group{g.mask | 2<<(2*uint(i)), as})
				}
				if r != nil {
					as := append([]pSet{}, g.args...)
					as[i] = r
					next = append(next, group{g.mask | 4<<(2*uint(i)), as})
				}
				if s == nil && r == nil {
					next = append(next, g)
				}
			}
			groups = next
		}
	}
	var out []pSet
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = append(out, pSet{})
	}
	for _, g := range groups {
		c := a.clone(fn, phase, g.mask)
		if fc != nil {
			known := false
			for _, i := range c.calls[fc] {
				known = known || i == in
			}
			if !known {
				c.calls[fc] = append(c.calls[fc], in)
				a.changed = true
			}
		}
		for i := range c.params {
			if i < len(g.args) {
				a.into(c.params[i], filterTo(g.args[i], fn.Params[i].Type()))
			}
		}
		if clo != nil {
			for i := range c.free {
				a.into(c.free[i], a.cells[pLoc{clo, fmt.Sprint("fv", i)}])
			}
		}
		for i := range out {
			for l := range c.ret[i] {
				out[i].add(l)
			}
		}
	}
	return out
}

func (a *pta) builtin(fc *pClone, in ssa.Instruction, name string, cc *ssa.CallCommon, args []pSet, res ssa.Value) {
	switch name {
	case "append":
		o := a.obj(pObjKey{in, fc, ""}, 's', fc.phase, cc.Args[0].Type(), in.Pos(), "the list grown in "+eng.FuncName(fc.fn))
		out := one(o)
		el := pSet{}
		for l := range args[0] {
			out.add(l)
			for v := range a.load(pLoc{l.o, "[]"}) {
				el.add(v)
			}
		}
		more := pSet{}
		if len(args) > 1 {
			for l := range args[1] {
				for v := range a.load(pLoc{l.o, "[]"}) {
					more.add(v)
					el.add(v)
				}
			}
		}
		a.store(pLoc{o, "[]"}, el)
		if !fullSlice(cc.Args[0]) && !nilList(cc.Args[1]) {
			for l := range args[0] {
				a.access(fc, in, pLoc{l.o, "[]"}, true, "may append into")
				a.store(pLoc{l.o, "[]"}, more)
			}
		}
		if res != nil {
			a.set(fc, res, filterTo(out, res.Type()))
		}
	case "copy":
		for l := range args[0] {
			a.access(fc, in, pLoc{l.o, "[]"}, true, "copies into")
			if len(args) > 1 {
				for m := range args[1] {
					a.store(pLoc{l.o, "[]"}, a.load(pLoc{m.o, "[]"}))
				}
			}
		}
	case "delete":
		for l := range args[0] {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, true, "deletes from")
			}
		}
	case "clear":
		for l := range args[0] {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, true, "clears")
			} else {
				a.access(fc, in, pLoc{l.o, "[]"}, true, "clears")
			}
		}
	case "len":
		for l := range args[0] {
			if l.o.kind == 'm' {
				a.access(fc, in, pLoc{l.o, "val"}, false, "reads")
			}
		}
	case "min", "max":
	case "ssa:wrapnilchk":
		if res != nil {
			a.set(fc, res, args[0])
		}
	}
}

// fullSlice tells whether v has no room behind its end (x[i:j:j]).
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.High == s.Max {
		return true
	}
	if c, ok := s.High.(*ssa.Const); ok {
		d, ok := s.Max.(*ssa.Const)
		return ok && c.Value != nil && d.Value != nil && c.Value.String() == d.Value.String()
	}
	lenOf := func(v ssa.Value) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
		return nil
	}
	h, m := lenOf(s.High), lenOf(s.Max)
	return h != nil && m != nil && sameRead(h, m)
}

// sameRead tells whether two values read the same place.
func sameRead(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	switch a := x.(type) {
	case *ssa.UnOp:
		b, ok := y.(*ssa.UnOp)
		return ok && a.Op == b.Op && sameRead(a.X, b.X)
	case *ssa.FieldAddr:
		b, ok := y.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && sameRead(a.X, b.X)
	}
	return false
}

func nilList(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func ifaceName(t types.Type) string { return types.TypeString(types.Unalias(t), nil) }

func methodName(t types.Type, m string) string {
	return "(" + types.TypeString(t, nil) + ")." + m
}
