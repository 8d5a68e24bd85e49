package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09",
		"a points-to analysis of the whole module (inclusion based, field sensitive, every function once per phase and phase of its first arguments) runs set-up code (package initialisation, every exported function and method) and request code (ServeHTTP, every function value the constructors hand out, the methods of the shared services, goroutines); every instruction of request code that writes (store, map update, delete, append without a capped list, copy, an external function or method known to write, reflection) to an object made by set-up code, to a package variable or to something handed to another goroutine must hold a mutex at that point (must-hold analysis, through calls) or run under a sync.Once; what is so written must be read with the lock held",
		"what external code does inside; setters documented for set-up (of the application, loggers and configuration) called by a user while requests are served; objects that only user code shares; that the right mutex guards the right data beyond being the same one; messages passed through channels and pools",
		runC09)
}

// setupOnly tells whether a method is meant for the time before requests.
func (r *raceScan) setupOnly(recv *types.Named, m string) bool {
	pkg := ""
	if recv.Obj().Pkg() != nil {
		pkg = recv.Obj().Pkg().Path()
	}
	switch {
	case pkg == r.c.P.Mod && recv.Obj().Name() == "Strip":
		return m != "ServeHTTP" && m != "Logger" && m != "Injector"
	case strings.HasPrefix(m, "Set") && len(m) > 3, m == "EnableLogStack":
		return true
	}
	return false
}

type raceScan struct {
	c   *Ctx
	a   *pta
	svc []types.Type // interfaces and types of what requests share
	res map[byte][]pSet
}

// shared tells whether objects of this type made at set-up serve requests.
func (r *raceScan) shared(t types.Type) bool {
	for _, s := range r.svc {
		if i, ok := s.Underlying().(*types.Interface); ok {
			if types.Implements(t, i) || types.Implements(types.NewPointer(t), i) {
				return true
			}
		} else if types.Identical(s, t) {
			return true
		}
	}
	return false
}

func (c *Ctx) optIface(path, name string) types.Type {
	p := c.P.TPkg(path)
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func runC09(c *Ctx) {
	r := &raceScan{c: c, a: newPTA(c.P)}
	a := r.a
	mod := c.P.Mod
	for _, n := range [][2]string{
		{"", "Strip"}, {"", "Config"}, {"", "Configer"}, {"", "Logger"}, {"", "LogPrinter"},
		{"/caches", "CacheProvider"}, {"/sessions", "SessionProvider"}, {"/sessions", "SessionManager"}, {"/sessions", "CookieConfig"}, {"/sessions", "Config"}, {"/config", "Configer"},
		{"/utils", "Worker"}, {"/utils/apires", "ResError"}, {"/utils/apires", "ResBody"},
	} {
		if t := c.optIface(mod+n[0], n[1]); t != nil {
			r.svc = append(r.svc, t)
		}
	}
	c.Check(len(r.svc) >= 10, "anchor", "shared services", token.NoPos, "only %d of the types requests share were found", len(r.svc))
	a.byType = r.param
	rounds := 0
	for {
		rounds++
		a.changed = false
		r.roots()
		for i := 0; i < len(a.order); i++ {
			fc := a.order[i]
			for _, b := range fc.fn.Blocks {
				for _, in := range b.Instrs {
					a.step(fc, in)
				}
			}
		}
		if !a.changed {
			break
		}
		if rounds > 150 {
			c.Check(false, "undecided", "points-to", token.NoPos, "no fixpoint after %d rounds", rounds)
			return
		}
	}
	r.dump()
	r.judge(rounds)
}

// when tells in which phases a user may call f: what takes a request, a
// response or a context belongs to requests, what builds the application and
// its routes to the set-up.
func (r *raceScan) when(f *ssa.Function) (setup, request bool) {
	mod := r.c.P.Mod
	setup, request = true, true
	var ts []types.Type
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	var base func(t types.Type) *types.Named
	base = func(t types.Type) *types.Named {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			return base(u.Elem())
		case *types.Slice:
			return base(u.Elem())
		case *types.Named:
			if s, ok := u.Underlying().(*types.Slice); ok && base(s.Elem()) != nil {
				return base(s.Elem())
			}
			return u
		}
		return nil
	}
	is := func(t types.Type, pkg string, names ...string) bool {
		n := base(t)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkg {
			return false
		}
		for _, x := range names {
			if n.Obj().Name() == x {
				return true
			}
		}
		return false
	}
	for i, t := range ts {
		if is(t, "net/http", "ResponseWriter", "Request") || is(t, mod, "Context", "ResponseWriter") {
			if i < sig.Params().Len() {
				setup = false
			}
		}
		if is(t, mod, "Strip", "Handler", "MethodHandler") {
			request = false
		}
	}
	if rv := sig.Recv(); rv != nil {
		n := base(rv.Type())
		if is(rv.Type(), mod, "Strip") {
			request = f.Name() == "ServeHTTP" || f.Name() == "Logger" || f.Name() == "Injector"
			setup = f.Name() != "ServeHTTP"
		} else if n != nil {
			for _, x := range []string{"Context", "ResponseWriter"} {
				if i := r.c.optIface(mod, x); i != nil && types.Implements(types.NewPointer(n), i.Underlying().(*types.Interface)) {
					setup = false
				}
			}
		}
	}
	return setup, request
}

// params are the objects a caller of a root may pass for a parameter.
func (r *raceScan) param(t types.Type, phase byte, site interface{}) pSet {
	a := r.a
	out := pSet{}
	pick := func(want types.Type) pSet {
		got := pSet{}
		for _, o := range a.all {
			l := pLoc{o, nil}
			if phase == phSetup && o.phase != phSetup {
				continue
			}
			if o.synth {
				continue
			}
			if phase == phRequest && o.phase == phSetup {
				t := o.typ
				if o.kind != 'a' && o.kind != 'b' || !r.shared(t) {
					continue
				}
			}
			if admits(l, want) {
				got.add(l)
			}
		}
		return got
	}
	ours := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), r.c.P.Mod)
	}
	add := func(s pSet) {
		for l := range s {
			out.add(l)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if ours(u.Elem()) {
			add(pick(t))
			if r.shared(u.Elem()) {
				if _, ok := u.Elem().Underlying().(*types.Struct); ok {
					// one value for all requests
					add(a.unknown(t, phSetup, "shared "+t.String(), nil, 1, "the "+u.Elem().(*types.Named).Obj().Name()+" that requests share"))
				}
			}
			return out
		}
		// a variable of the caller's
		add(a.unknown(t, phase, site, nil, 1, "what the caller passes"))
		return out
	case *types.Interface:
		if u.NumMethods() > 0 {
			add(pick(t))
		} else if ours(t) {
			// what the builders made
			for _, s := range r.res[phSetup] {
				for l := range s {
					if l.o.kind == 'b' && ours(l.o.typ) && phase == phSetup {
						out.add(l)
					}
				}
			}
		}
		if !ours(t) || u.NumMethods() == 0 {
			add(a.unknown(t, phase, site, nil, 1, "what the caller passes"))
		}
		return out
	case *types.Slice:
		s := a.unknown(t, phase, site, nil, 1, "what the caller passes")
		for l := range s {
			a.into(a.cell(pLoc{l.o, "[]"}), r.param(u.Elem(), phase, fmt.Sprint("elem of ", u.Elem().String())))
		}
		return s
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			add(r.param(f.Type(), phase, f))
		}
		return out
	}
	add(a.unknown(t, phase, site, nil, 1, "what the caller passes"))
	return out
}

func (r *raceScan) roots() {
	a, c := r.a, r.c
	if r.res == nil {
		r.res = map[byte][]pSet{}
	}
	var results []pSet
	for _, p := range c.P.SSA.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path()+"/", c.P.Mod+"/") {
			continue
		}
		if f := p.Func("init"); f != nil {
			a.invoke(nil, nil, f, nil, nil, phSetup)
		}
	}
	call := func(f *ssa.Function, phase byte, recv pSet) {
		var args []pSet
		for i, p := range f.Params {
			if i == 0 && recv != nil {
				args = append(args, recv)
				continue
			}
			args = append(args, r.param(p.Type(), phase, p))
		}
		out := a.invoke(nil, nil, f, nil, args, phase)
		if phase == phSetup {
			results = append(results, out...)
		}
	}
	for _, f := range c.P.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 {
			continue
		}
		atSetup, atRequest := r.when(f)
		if f.Signature.Recv() == nil {
			if atSetup {
				call(f, phSetup, nil)
			}
			if atRequest {
				call(f, phRequest, nil)
			}
			continue
		}
		rt := f.Signature.Recv().Type()
		nt := rt
		if p, ok := nt.Underlying().(*types.Pointer); ok {
			nt = p.Elem()
		}
		named, ok := types.Unalias(nt).(*types.Named)
		if !ok {
			continue
		}
		sh := r.shared(nt) && !r.setupOnly(named, f.Name())
		for _, ph := range []byte{phSetup, phRequest} {
			if ph == phRequest && !atRequest || ph == phSetup && !atSetup {
				continue
			}
			recv := pSet{}
			for _, o := range a.all {
				l := pLoc{o, nil}
				if ph == phSetup && o.phase != phSetup || ph == phRequest && o.phase == phSetup && !sh {
					continue
				}
				if o.kind == 'b' && types.Identical(o.typ, rt) {
					for x := range a.cells[pLoc{o, "box"}] {
						recv.add(x)
					}
				} else if o.kind == 'a' && types.Identical(o.typ, nt) {
					if types.Identical(rt, nt) {
						for x := range a.load(l) {
							recv.add(x)
						}
					} else {
						recv.add(l)
					}
				}
			}
			if len(recv) > 0 || rt == nt {
				call(f, ph, recv)
			}
		}
	}
	r.res[phSetup] = results
	// the function values handed out at set-up run while requests are served
	seen := pSet{}
	var todo []pLoc
	for _, s := range results {
		for l := range s {
			if seen.add(l) {
				todo = append(todo, l)
			}
		}
	}
	for len(todo) > 0 {
		l := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if l.o.kind == 'f' && l.k == nil {
			if l.o.fn != nil && l.o.fn.Parent() != nil && hasBlocks(l.o.fn) {
				var args []pSet
				for _, p := range l.o.fn.Params {
					args = append(args, r.param(p.Type(), phRequest, p))
				}
				a.invoke(nil, nil, l.o.fn, l.o, args, phRequest)
			}
			continue
		}
		for x := range a.contents(pSet{l: {}}) {
			if (x.o.kind == 'f' || x.o.kind == 'b' || x.o.kind == 's') && seen.add(x) {
				todo = append(todo, x)
			}
		}
	}
}

// heldAt is the locks surely held before every instruction of fc (by the
// mutex: 'W' for a write lock, 'R' for a read lock).
type lockSet map[string]byte

func meet(a, b lockSet) lockSet {
	out := lockSet{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if v == 'R' || w == 'R' {
				out[k] = 'R'
			} else {
				out[k] = 'W'
			}
		}
	}
	return out
}

func sameLocks(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// mutexOf names the mutex of a lock call: the places it may be.
func (r *raceScan) mutexOf(fc *pClone, v ssa.Value) string {
	s := r.a.val(fc, v)
	if len(s) != 1 {
		// several mutexes of one field count as that field's
		names := map[string]bool{}
		for l := range s {
			names[lockName(l)] = true
		}
		if len(names) != 1 {
			return ""
		}
	}
	for l := range s {
		return lockName(l)
	}
	return ""
}

func lockName(l pLoc) string {
	if f, ok := l.k.(*types.Var); ok {
		return fmt.Sprintf("field %s %d", f.Name(), f.Pos())
	}
	return fmt.Sprint("object ", l.o.id)
}

func (r *raceScan) locks(fc *pClone, entry lockSet) (map[ssa.Instruction]lockSet, lockSet) {
	at := map[ssa.Instruction]lockSet{}
	ins := map[*ssa.BasicBlock]lockSet{}
	ins[fc.fn.Blocks[0]] = entry
	var exit lockSet
	work := []*ssa.BasicBlock{fc.fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := lockSet{}
		for k, v := range ins[b] {
			cur[k] = v
		}
		for _, in := range b.Instrs {
			cp := lockSet{}
			for k, v := range cur {
				cp[k] = v
			}
			at[in] = cp
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f, _ := call.Call.Value.(*ssa.Function)
			if f == nil {
				continue
			}
			typ, m := splitMethod(f.String())
			if typ != "sync.Mutex" && typ != "sync.RWMutex" {
				continue
			}
			k := r.mutexOf(fc, call.Call.Args[0])
			switch m {
			case "Lock":
				if k != "" {
					cur[k] = 'W'
				}
			case "RLock":
				if k != "" {
					cur[k] = 'R'
				}
			case "Unlock", "RUnlock":
				if k == "" {
					cur = lockSet{}
				} else {
					delete(cur, k)
				}
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil {
				exit = cur
			} else {
				exit = meet(exit, cur)
			}
		}
		for _, s := range b.Succs {
			n := cur
			if old, ok := ins[s]; ok {
				n = meet(old, cur)
				if sameLocks(n, old) {
					continue
				}
			}
			ins[s] = n
			work = append(work, s)
		}
	}
	return at, exit
}

func (r *raceScan) judge(rounds int) {
	c, a := r.c, r.a
	// locks held on entry: what every caller holds
	entry := map[*pClone]lockSet{}
	isRoot := map[*pClone]bool{}
	for _, fc := range a.order {
		if len(fc.calls) == 0 {
			isRoot[fc] = true
		}
	}
	held := map[*pClone]map[ssa.Instruction]lockSet{}
	for i := 0; i < 20; i++ {
		ch := false
		for _, fc := range a.order {
			e := entry[fc]
			if e == nil {
				e = lockSet{}
			}
			held[fc], _ = r.locks(fc, e)
		}
		for _, fc := range a.order {
			if isRoot[fc] || r.exported(fc.fn) {
				continue
			}
			var n lockSet
			for caller, sites := range fc.calls {
				if caller.phase != phRequest {
					n = lockSet{}
					continue
				}
				for _, in := range sites {
					h := held[caller][in]
					if _, isGo := in.(*ssa.Go); isGo {
						h = lockSet{}
					}
					if h == nil {
						h = lockSet{}
					}
					if n == nil {
						n = h
					} else {
						n = meet(n, h)
					}
				}
			}
			if n == nil {
				n = lockSet{}
			}
			if !sameLocks(n, entry[fc]) {
				entry[fc] = n
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	// what several goroutines can reach
	shared := map[*pObj]bool{}
	var todo []*pObj
	mark := func(o *pObj) {
		if !shared[o] {
			shared[o] = true
			todo = append(todo, o)
		}
	}
	byObj := map[*pObj][]pLoc{}
	for l := range a.cells {
		byObj[l.o] = append(byObj[l.o], l)
	}
	for _, o := range a.all {
		if o.phase == phSetup {
			mark(o)
		}
	}
	for l := range a.handed {
		mark(l.o)
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, l := range byObj[o] {
			if l.k == "pool" || l.k == "chan" {
				continue
			}
			for x := range a.cells[l] {
				mark(x.o)
			}
		}
	}
	// the accesses of request code
	var acc []pAccess
	a.rec = func(x pAccess) {
		if x.fc.phase == phRequest {
			acc = append(acc, x)
		}
	}
	nclones, ninstr := 0, 0
	for _, fc := range a.order {
		if fc.phase != phRequest {
			continue
		}
		nclones++
		c.funcs[eng.FuncName(fc.fn)] = true
		for _, b := range fc.fn.Blocks {
			for _, in := range b.Instrs {
				ninstr++
				a.step(fc, in)
			}
		}
	}
	a.rec = nil
	c.paths, c.states, c.steps, c.runs = nclones, len(a.all), ninstr, rounds
	// locks under which shared places are written
	under := map[pLoc]lockSet{}
	type wr struct {
		x    pAccess
		lock lockSet
	}
	writes := 0
	sort.SliceStable(acc, func(i, j int) bool { return acc[i].in.Pos() < acc[j].in.Pos() })
	for _, x := range acc {
		if !x.write {
			continue
		}
		if x.loc.o.kind == 'x' && !strings.Contains(x.how, "reflection") {
			if i, ok := x.loc.o.typ.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
				continue // a value of which nothing is known
			}
		}
		writes++
		fn := eng.FuncName(x.fc.fn)
		if !shared[x.loc.o] {
			c.Check(true, "own-write", fn, x.in.Pos(), "")
			continue
		}
		if r.unpublished(x) {
			c.Check(true, "own-write", fn, x.in.Pos(), "")
			continue
		}
		if a.once[x.fc] {
			c.Check(true, "locked-write", fn, x.in.Pos(), "")
			continue
		}
		h := lockSet{}
		for k, v := range held[x.fc][x.in] {
			if v == 'W' {
				h[k] = v
			}
		}
		ok := len(h) > 0
		c.Check(ok, "locked-write", fn+" "+r.describe(x.loc), x.in.Pos(), "code that runs while requests are served %s %s, which other requests use at the same time, and holds no lock", x.how, r.describe(x.loc))
		if !ok {
			if os.Getenv("SC_C09") != "" {
				fmt.Fprintln(os.Stderr, "WRITE", c.P.Pos(x.in.Pos()), fn, x.fc.mask, x.how, r.describe(x.loc), x.loc.o.id, string(x.loc.o.kind), string(x.loc.o.phase), x.loc.o.typ)
				for cl, sites := range x.fc.calls {
					fmt.Fprintln(os.Stderr, "   from", eng.FuncName(cl.fn), cl.mask, c.P.Pos(sites[0].Pos()))
				}
			}
			continue
		}
		if u, seen := under[x.loc]; seen {
			under[x.loc] = meet(u, h)
		} else {
			under[x.loc] = h
		}
	}
	for l, h := range under {
		c.Check(len(h) > 0, "same-lock", r.describe(l), l.o.pos, "the places that write %s do not hold the same lock", r.describe(l))
	}
	for _, x := range acc {
		if x.write {
			continue
		}
		u, ok := under[x.loc]
		if !ok || len(u) == 0 || !shared[x.loc.o] {
			continue
		}
		h := held[x.fc][x.in]
		good := false
		for k := range u {
			if _, ok := h[k]; ok {
				good = true
			}
		}
		fn := eng.FuncName(x.fc.fn)
		c.Check(good, "locked-read", fn+" "+r.describe(x.loc), x.in.Pos(), "%s is read without the lock it is written under", r.describe(x.loc))
	}
	c.Min("own-write", 50)
	c.Min("locked-write", 3)
	if os.Getenv("SC_C09") != "" {
		fmt.Fprintln(os.Stderr, "rounds", rounds, "clones", len(a.order), "R", nclones, "objs", len(a.all), "writes", writes)
		var ns []string
		for n := range a.ext {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		if os.Getenv("SC_C09") == "ext" {
			fmt.Fprintln(os.Stderr, strings.Join(ns, "\n"))
		}
	}
}

// unpublished: the function that makes a request's own object writes it before
// any goroutine can have been started with it.
func (r *raceScan) unpublished(x pAccess) bool {
	o := x.loc.o
	if o.phase != phRequest || o.by != x.fc {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if !reach[s] {
				reach[s] = true
				visit(s)
			}
		}
	}
	for _, b := range x.fc.fn.Blocks {
		started := false
		for _, in := range b.Instrs {
			if in == x.in && started {
				return false
			}
			switch v := in.(type) {
			case *ssa.Go:
				started = true
			case *ssa.Call:
				for _, s := range v.Call.Args {
					for l := range r.a.val(x.fc, s) {
						if l.o == o {
							started = true
						}
					}
				}
			}
		}
		if started {
			visit(b)
		}
	}
	return !reach[x.in.Block()]
}

func (r *raceScan) exported(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

func (r *raceScan) describe(l pLoc) string {
	s := l.o.what
	if s == "" {
		s = "a value"
	}
	if f, ok := l.k.(*types.Var); ok {
		return "field " + f.Name() + " of " + s
	}
	return s
}

func (r *raceScan) dump() {
	want := os.Getenv("SC_CLONE")
	if want == "" {
		return
	}
	for _, fc := range r.a.order {
		if !strings.HasSuffix(eng.FuncName(fc.fn), want) {
			continue
		}
		fmt.Fprintln(os.Stderr, "CLONE", eng.FuncName(fc.fn), string(fc.phase), fc.mask)
		for i, p := range fc.params {
			fmt.Fprint(os.Stderr, "   ", fc.fn.Params[i].Name(), ":")
			n := 0
			for l := range p {
				if n++; n > 6 {
					break
				}
				fmt.Fprint(os.Stderr, " [", string(l.o.kind), string(l.o.phase), " ", l.k, " ", l.o.typ, " ", l.o.what, "]")
			}
			fmt.Fprintln(os.Stderr)
		}
		for cl, sites := range fc.calls {
			if cl != nil && len(sites) > 0 && sites[0] != nil {
				fmt.Fprintln(os.Stderr, "   from", eng.FuncName(cl.fn), string(cl.phase), cl.mask, r.c.P.Pos(sites[0].Pos()))
			}
		}
	}
}
