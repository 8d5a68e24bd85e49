package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded module in SSA form.
type Program struct {
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	U      *Universe
	Mod    string
	Funcs  []*ssa.Function // all source functions of the module incl. closures
	infos  map[*ssa.Function]*fnInfo
	mods   map[*ssa.Function]*modSet
	immut  map[*types.Var]int // 1 immutable 2 mutable
	gimmut map[*ssa.Global]int
	inds   map[*ssa.Phi]*Induction
	pure   map[*ssa.Function]int
	local  map[*ssa.Package]bool
}

// Load type-checks the module at dir and builds SSA for its packages.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages under %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, 0)
	p := &Program{Pkgs: pkgs, SSA: prog, U: NewUniverse(), infos: map[*ssa.Function]*fnInfo{}, mods: map[*ssa.Function]*modSet{},
		immut: map[*types.Var]int{}, gimmut: map[*ssa.Global]int{}, inds: map[*ssa.Phi]*Induction{}, pure: map[*ssa.Function]int{}, local: map[*ssa.Package]bool{}}
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.local[sp] = true
		sp.Build()
		if pkgs[i].Module != nil {
			p.Mod = pkgs[i].Module.Path
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, c := range f.AnonFuncs {
			add(c)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
		if pa.Filename != pb.Filename {
			return pa.Filename < pb.Filename
		}
		if pa.Offset != pb.Offset {
			return pa.Offset < pb.Offset
		}
		return a.RelString(nil) < b.RelString(nil)
	})
	return p, nil
}

// Pkg finds a module package by path suffix ("" is the root package).
func (p *Program) Pkg(rel string) *ssa.Package {
	want := p.Mod
	if rel != "" {
		want += "/" + rel
	}
	for sp := range p.local {
		if sp.Pkg.Path() == want {
			return sp
		}
	}
	return nil
}

// TPkg finds any loaded package (also dependencies) by path.
func (p *Program) TPkg(path string) *types.Package {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == path {
			return sp.Pkg
		}
	}
	return nil
}

func (p *Program) Info(fn *ssa.Function) *fnInfo {
	if fi := p.infos[fn]; fi != nil {
		return fi
	}
	fi := newFnInfo(fn)
	p.infos[fn] = fi
	return fi
}

func (p *Program) ind(phi *ssa.Phi, i *Induction) *Induction {
	if x := p.inds[phi]; x != nil {
		return x
	}
	p.inds[phi] = i
	return i
}

// IsModule: function belongs to the analysed module.
func (p *Program) IsModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.local[f.Pkg]
		}
	}
	// wrappers and bound methods of module methods
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == p.Mod || strings.HasPrefix(o.Pkg().Path(), p.Mod+"/")
	}
	return false
}

func (p *Program) HasBody(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Blocks == nil && fn.Synthetic != "" {
		return false
	}
	return len(fn.Blocks) > 0 && (p.IsModule(fn) || fn.Synthetic != "")
}

// Method resolves an interface method on a concrete type.
func (p *Program) Method(t types.Type, m *types.Func) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := p.SSA.MethodValue(sel)
	if fn != nil && len(fn.Blocks) == 0 {
		return nil
	}
	return fn
}

// NamedMethod finds a declared or promoted method.
func (p *Program) NamedMethod(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.SSA.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (p *Program) Pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	fn := ps.Filename
	if i := strings.Index(fn, "/repo/"); i >= 0 {
		fn = fn[i+6:]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func (p *Program) isModulePath(path string) bool {
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}

// Immutable: the field is only ever written while its struct is being built
// (directly after allocation, in the function that allocated it).
func (p *Program) Immutable(f *types.Var) bool {
	if v := p.immut[f]; v != 0 {
		return v == 1
	}
	if f.Pkg() == nil || !p.isModulePath(f.Pkg().Path()) {
		p.immut[f] = 1 // foreign structs: written by their owner only; see extArg
		return true
	}
	res := 1
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if w, ok := in.(*ssa.Store); ok {
					// a whole struct replaced through a pointer
					if _, isAlloc := w.Addr.(*ssa.Alloc); !isAlloc {
						if st, ok := w.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								if st.Field(i) == f {
									res = 2
								}
							}
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field) != f {
					continue
				}
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					continue
				}
				if fieldAddrWritten(fa) {
					res = 2
				}
			}
		}
	}
	p.immut[f] = res
	return res == 1
}

func fieldAddrWritten(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
			return true // address stored
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if fieldAddrWritten(x) {
				return true
			}
		case *ssa.IndexAddr:
			if fieldAddrWritten(x) {
				return true
			}
		case ssa.CallInstruction:
			// method call with the field as receiver (mutex, once ...) or address passed
			com := x.Common()
			if f := com.StaticCallee(); f != nil && len(com.Args) > 0 && com.Args[0] == v && f.Signature.Recv() != nil {
				return true
			}
			return true
		default:
			return true
		}
	}
	return false
}

// ImmutableGlobal: never stored outside init.
func (p *Program) ImmutableGlobal(g *ssa.Global) bool {
	if v := p.gimmut[g]; v != 0 {
		return v == 1
	}
	res := 1
	for _, fn := range p.Funcs {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					res = 2
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == ssa.Value(g) {
						switch in.(type) {
						case *ssa.UnOp, *ssa.Store, *ssa.IndexAddr, *ssa.FieldAddr:
						default:
							res = 2
						}
					}
				}
			}
		}
	}
	if g.Object() != nil && g.Object().Exported() {
		// clients may replace it; within one call it is treated as stable
	}
	p.gimmut[g] = res
	return res == 1
}

// GlobalNonNil: an error variable that is initialised to an error and never
// replaced (those of other modules are taken to be).
func (p *Program) GlobalNonNil(g *ssa.Global) bool {
	if !types.Identical(elemOf(g.Type()), types.Universe.Lookup("error").Type()) {
		return false
	}
	if g.Pkg == nil || !p.isModulePath(g.Pkg.Pkg.Path()) {
		return true
	}
	if !p.ImmutableGlobal(g) {
		return false
	}
	set := false
	if f := g.Pkg.Func("init"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				v := st.Val
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				}
				switch x := v.(type) {
				case *ssa.Call:
					h := x.Call.StaticCallee()
					if h == nil || FuncName(h) != "errors.New" && FuncName(h) != "fmt.Errorf" {
						return false
					}
				case *ssa.Alloc:
				default:
					return false
				}
				set = true
			}
		}
	}
	return set
}

type modSet struct {
	all     bool
	classes map[interface{}]bool
	busy    bool
}

// ModSet over-approximates the shared cells a function may write.
func (p *Program) ModSet(fn *ssa.Function) *modSet {
	if m := p.mods[fn]; m != nil {
		return m
	}
	m := &modSet{classes: map[interface{}]bool{}, busy: true}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || m.all {
			return
		}
		seen[f] = true
		if !p.HasBody(f) {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					m.store(x)
				case *ssa.MapUpdate:
					m.classes["map:"+typStr(x.Map.Type())] = true
				case *ssa.MakeClosure:
					walk(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					com := x.Common()
					if b, ok := com.Value.(*ssa.Builtin); ok {
						if b.Name() == "delete" {
							m.classes["map:"+typStr(com.Args[0].Type())] = true
						}
						continue
					}
					if c := com.StaticCallee(); c != nil {
						if p.HasBody(c) {
							walk(c)
						} else if p.dynName(FuncName(c)) {
							m.all = true
						}
						continue
					}
					if p.dynamicCall(com) {
						m.all = true
					}
				}
			}
		}
	}
	walk(fn)
	m.busy = false
	return m
}

func (m *modSet) store(x *ssa.Store) {
	switch a := x.Addr.(type) {
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		m.classes[st.Field(a.Field)] = true
	case *ssa.IndexAddr:
		m.classes["elem:"+typStr(a.Type())] = true
	case *ssa.Global:
		m.classes[a] = true
	case *ssa.Alloc:
	default:
		m.classes["cell:"+typStr(x.Addr.Type())] = true
		if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					m.classes[st.Field(i)] = true
				}
			}
		}
	}
}

// blockMods: the shared cells some blocks of a function may write (false: any).
func (p *Program) blockMods(body map[*ssa.BasicBlock]bool) (map[interface{}]bool, bool) {
	m := &modSet{classes: map[interface{}]bool{}}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				m.store(x)
			case *ssa.MapUpdate:
				m.classes["map:"+typStr(x.Map.Type())] = true
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers, *ssa.MakeClosure:
				return nil, false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return nil, false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "append":
					case "delete":
						m.classes["map:"+typStr(x.Call.Args[0].Type())] = true
					default:
						return nil, false
					}
					continue
				}
				if isPure(calleeName(&x.Call)) {
					continue
				}
				fn := x.Call.StaticCallee()
				if fn == nil || !p.HasBody(fn) {
					return nil, false
				}
				if p.PureFunc(fn) {
					continue
				}
				s := p.ModSet(fn)
				if s.all {
					return nil, false
				}
				for c := range s.classes {
					m.classes[c] = true
				}
			}
		}
	}
	return m.classes, true
}

func (p *Program) dynName(n string) bool {
	switch n {
	case "(reflect.Value).Call", "(reflect.Value).CallSlice", "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.WaitGroup).Wait", "sort.Sort":
		return true
	}
	return false
}

func (p *Program) dynamicCall(com *ssa.CallCommon) bool {
	if com.IsInvoke() {
		pk := com.Method.Pkg()
		if pk == nil {
			return false
		}
		if p.isModulePath(pk.Path()) {
			return true
		}
		switch com.Method.FullName() {
		case "(net/http.Handler).ServeHTTP":
			return true
		}
		return false
	}
	if com.StaticCallee() != nil {
		return false
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return false
	}
	return true
}

// DynamicHavoc: may the callee run module code we do not see?
func (p *Program) DynamicHavoc(com *ssa.CallCommon, e *Event) bool {
	if e.Fn != nil && (e.Fn.Op == OFunc || e.Fn.Op == OClosure) {
		return p.dynName(e.Name)
	}
	if p.dynamicCall(com) {
		return true
	}
	return p.dynName(e.Name)
}

// PureFunc: module function whose result depends on its arguments only (no
// stores, sends, map writes, opaque impure calls, loads of mutable state).
func (p *Program) PureFunc(fn *ssa.Function) bool {
	switch p.pure[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.pure[fn] = 3
	ok := true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, isA := x.Addr.(*ssa.Alloc); !isA {
					ia, isI := x.Addr.(*ssa.IndexAddr)
					if isI {
						if _, isA2 := ia.X.(*ssa.Alloc); isA2 {
							continue
						}
					}
					ok = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure, *ssa.Panic, *ssa.MakeMap, *ssa.MakeChan:
				ok = false
			case *ssa.Alloc:
				if x.Heap {
					// a returned pointer has identity
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					ok = false
				}
				if x.Op == token.MUL {
					switch a := x.X.(type) {
					case *ssa.Alloc, *ssa.IndexAddr:
					case *ssa.FieldAddr:
						st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						if !p.Immutable(st.Field(a.Field)) {
							ok = false
						}
					case *ssa.Global:
						if !p.ImmutableGlobal(a) {
							ok = false
						}
					default:
						ok = false
					}
				}
			case ssa.CallInstruction:
				com := x.Common()
				if _, isB := com.Value.(*ssa.Builtin); isB {
					continue
				}
				n := calleeName(com)
				if isPure(n) {
					continue
				}
				if c := com.StaticCallee(); c != nil && p.HasBody(c) && p.PureFunc(c) {
					continue
				}
				ok = false
			}
		}
	}
	// result must not be a fresh pointer
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		switch fn.Signature.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			ok = false
		}
	}
	if ok {
		p.pure[fn] = 1
	} else {
		p.pure[fn] = 2
	}
	return ok
}
