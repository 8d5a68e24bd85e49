package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15",
		"Typestate of a session, for every implementation of the session interface: changed by what puts, deletes or clears values, saved by a flush exactly when changed and not destroyed, still changed when saving failed, never saved once destroyed. Dataflow of id, values and lifetime into the store; reads come from the same map; the map handed out is a new one with every entry.",
		"several goroutines on one session; what the encoding does to values",
		c15)
	register("C16",
		"Path analysis of how sessions are found, created, renamed and destroyed: which id goes to which operation of the store, which failure leads to a new session and which is reported, that a renamed session is stored under the new id before the old one is deleted, and that a cookie is written exactly when a session was created or renamed, for its id and the time handed back.",
		"atomicity across servers; unpredictability of ids",
		c16)
}

// storeModel: the state of one implementation of a session.
type storeModel struct {
	t             *types.Named
	via           *types.Var // pointer to the stored part (nil when direct)
	sid, values   *types.Var
	dirty, closed *types.Var
	cache         bool // persisted
}

func (s *storeModel) base(st *eng.State, obj *eng.Term) *eng.Term {
	if s.via == nil {
		return obj
	}
	return st.Load(st.U.FAddr(obj, s.via))
}
func (s *storeModel) load(st *eng.State, obj *eng.Term, f *types.Var) *eng.Term {
	if f == s.sid || f == s.values {
		obj = s.base(st, obj)
	}
	return st.Load(st.U.FAddr(obj, f))
}

// is: t is the field as it was on entry.
func (s *storeModel) is(u *eng.Universe, t, recv *eng.Term, f *types.Var) bool {
	t = bare(t)
	if s.via != nil {
		recv = u.LoadInit(u.FAddr(recv, s.via))
	}
	if cell := cellOf(t); cell != nil {
		return cell == u.FAddr(recv, f)
	}
	return false
}

type sessEnv struct {
	cacheT  *types.Named
	config  *types.Var // SessionExpire
	provI   *types.Named
	storeI  *types.Named
	valueTo string
}

func (c *Ctx) sessEnv() *sessEnv {
	e := &sessEnv{cacheT: c.Type("caches", "CacheProvider"), config: c.fld("sessions", "Config", "SessionExpire"),
		provI: c.Type("sessions", "SessionProvider"), storeI: c.Type("sessions", "SessionStore")}
	e.valueTo = eng.FuncName(c.Fn("utils", "ValueTo"))
	return e
}

// isVar: t is the value of the named package variable.
func (c *Ctx) isVar(t *eng.Term, pkg, name string) bool {
	g := c.P.Pkg(pkg).Var(name)
	c.Need(g != nil, "variable "+pkg+"."+name)
	t = bare(t)
	return t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OGlobal && t.Args[0].Obj == g
}

// invoked: the event calls the method of the interface.
func invoked(e *eng.Event, t *types.Named, name string) bool {
	return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == name && e.Recv != nil && strings.HasPrefix(e.Name, "("+t.String()+").")
}

func (e *sessEnv) expire(t *eng.Term) bool { return fieldOf(bare(t)) == e.config }

func (c *Ctx) sessStores() []*storeModel {
	var out []*storeModel
	itf := c.Type("sessions", "SessionStore").Underlying().(*types.Interface)
	for _, t := range c.Impls("sessions", itf) {
		s := structOf(t)
		if s == nil {
			continue
		}
		m := &storeModel{t: t}
		find := func(s *types.Struct, via *types.Var) {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if f.Type().String() == "map[string]interface{}" || f.Type().String() == "map[string]any" {
					m.values, m.via = f, via
				}
			}
			if m.values == nil || m.via != via {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if basicT(s.Field(i).Type(), types.String) {
					m.sid = s.Field(i)
				}
			}
		}
		find(s, nil)
		for i := 0; i < s.NumFields() && m.values == nil; i++ {
			if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
				if q := structOf(p); q != nil {
					find(q, s.Field(i))
				}
			}
		}
		c.Need(m.values != nil && m.sid != nil, "values and id of the session type "+t.Obj().Name())
		// the flags: true after a change, true after destruction
		flag := func(meth string) []*types.Var {
			var fs []*types.Var
			f := c.Meth(t, meth)
			r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(*eng.State, *eng.Event) bool { return false }})
			for i := 0; i < s.NumFields(); i++ {
				if !basicT(s.Field(i).Type(), types.Bool) {
					continue
				}
				for _, x := range r.Exits {
					if x.Kind == "return" && x.St.Load(x.St.U.FAddr(r.Params[0], s.Field(i))).IsTrue() {
						fs = append(fs, s.Field(i))
						break
					}
				}
			}
			return fs
		}
		for _, n := range []string{"Set", "Delete", "Clean"} {
			if fs := flag(n); len(fs) == 1 && m.dirty == nil {
				m.dirty = fs[0]
			}
		}
		var rest []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); basicT(f.Type(), types.Bool) && f != m.dirty {
				rest = append(rest, f)
			}
		}
		for _, f := range flag("Destroy") {
			if f != m.dirty {
				m.closed = f
			}
		}
		if m.closed == nil && len(rest) == 1 {
			m.closed = rest[0]
		}
		c.Need(m.dirty != nil && m.closed != nil, "change and destruction marks of the session type "+t.Obj().Name())
		for i := 0; i < s.NumFields(); i++ {
			if p := structOf(s.Field(i).Type()); p != nil {
				for j := 0; j < p.NumFields(); j++ {
					m.cache = m.cache || types.Identical(p.Field(j).Type(), c.Type("caches", "CacheProvider"))
				}
			}
		}
		out = append(out, m)
	}
	return out
}

// lastSet gives the last value stored to a cell on the path (nil: untouched).
func lastSet(st *eng.State, addr *eng.Term) *eng.Term {
	var v *eng.Term
	for _, e := range st.Trace {
		if e.Kind == "store" && e.Addr == addr {
			v = e.Val
		}
	}
	return v
}

// emptyMap: a map made on this path and not filled.
func emptyMap(st *eng.State, m *eng.Term) bool {
	if m == nil || m.Op != eng.OAlloc || !isMapT(m.Typ) {
		return false
	}
	for _, e := range st.Trace {
		if e.Kind == "mapset" && e.Recv == m {
			return false
		}
	}
	return true
}

func isMapT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// only gives the arguments of a variadic call holding exactly one element.
func only(st *eng.State, args []*eng.Term, i int) *eng.Term {
	if i >= len(args) {
		return nil
	}
	es, ok := st.Elems(args[i])
	if !ok || len(es) != 1 {
		return nil
	}
	return es[0]
}

func events(st *eng.State, pred func(e *eng.Event) bool) []*eng.Event {
	var out []*eng.Event
	for _, e := range st.Trace {
		if pred(e) {
			out = append(out, e)
		}
	}
	return out
}

func c15(c *Ctx) {
	u := c.U
	env := c.sessEnv()
	stores := c.sessStores()
	c.Need(len(stores) > 0, "implementations of a session")
	keep := func(st *eng.State, e *eng.Event) bool { return e.Kind != "load" }
	persisted := 0
	for _, m := range stores {
		if m.cache {
			persisted++
		}
		run := func(name string, o *eng.Options) (*ssa.Function, *eng.Result) {
			f := c.Meth(m.t, name)
			if o == nil {
				o = &eng.Options{}
			}
			o.Exact, o.CutAt = true, cutAll
			if o.Event == nil {
				o.Event = keep
			}
			o.Inline = func(g *ssa.Function) bool { return eng.FuncName(g) != env.valueTo }
			return f, c.Run(f, o)
		}
		each := func(name string, check func(st *eng.State, x *eng.Exit, con string)) {
			f, r := run(name, nil)
			for _, x := range r.Exits {
				if x.Kind == "return" {
					check(x.St, x, eng.FuncName(f))
				}
			}
		}
		touched := func(st *eng.State) *eng.Term { return st.Load(u.FAddr(st.Params()[0], m.dirty)) }
		cacheCalls := func(st *eng.State) []*eng.Event {
			return events(st, func(e *eng.Event) bool {
				return e.Kind == "call" && e.Callee != nil && e.Recv != nil && invoked(e, env.cacheT, e.Callee.Name())
			})
		}
		calls := func(st *eng.State) []*eng.Event {
			return events(st, func(e *eng.Event) bool { return e.Kind == "call" })
		}
		// changes
		each("Set", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			ms := events(st, func(e *eng.Event) bool { return e.Kind == "mapset" || e.Kind == "delete" })
			ok := len(ms) == 1 && ms[0].Kind == "mapset" && m.is(u, ms[0].Recv, p[0], m.values) && ms[0].Args[0] == p[1] && bare(ms[0].Val) == bare(p[2])
			c.On(st, ok, "change", con, x.Pos, "the value is not put under its key into the values of the session")
			c.On(st, touched(st).IsTrue(), "changed", con, x.Pos, "a session is not marked as changed after a value was put into it")
		})
		each("Delete", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			ms := events(st, func(e *eng.Event) bool { return e.Kind == "mapset" || e.Kind == "delete" })
			gone := len(ms) == 1 && ms[0].Kind == "delete" && m.is(u, ms[0].Recv, p[0], m.values) && ms[0].Args[0] == p[1]
			absent := len(ms) == 0 && hasFact(st, func(t *eng.Term) bool {
				return t.Op == eng.OMOk && m.is(u, t.Args[0], p[0], m.values) && t.Args[1] == p[1]
			}) == 0
			c.On(st, gone || absent, "change", con, x.Pos, "the value is not deleted from the values of the session")
			c.On(st, touched(st).IsTrue() || absent, "changed", con, x.Pos, "a session is not marked as changed after a value was deleted")
		})
		each("Clean", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			v := m.load(st, p[0], m.values)
			cleared := len(events(st, func(e *eng.Event) bool { return e.Kind == "clear" && m.is(u, e.Recv, p[0], m.values) })) > 0
			none := st.EqTerms(u.Len(v), u.Int(0)) == 1
			c.On(st, emptyMap(st, v) || cleared || none, "change", con, x.Pos, "values are left after all were cleared")
			c.On(st, touched(st).IsTrue() || none && !emptyMap(st, v), "changed", con, x.Pos, "a session is not marked as changed after its values were cleared")
		})
		// reads
		each("Get", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			t := x.Results[0]
			ok := retOf(t, env.valueTo) && len(t.Args) == 1
			if ok {
				a := bare(t.Args[0])
				known := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OMOk && m.is(u, t.Args[0], p[0], m.values) && t.Args[1] == p[1]
				})
				cell := cellOf(a)
				val := cell != nil && cell.Op == eng.OMAddr && m.is(u, cell.Args[0], p[0], m.values) && cell.Args[1] == p[1]
				ok = val || a.IsNil() && known == 0
			}
			c.On(st, ok, "read", con, x.Pos, "what is read is not the value of the key, or nothing when there is none: %v", t)
		})
		each("Has", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			is := func(t *eng.Term) bool {
				return t.Op == eng.OMOk && m.is(u, t.Args[0], p[0], m.values) && t.Args[1] == p[1]
			}
			t := x.Results[0]
			ok := is(t) || t.IsTrue() && hasFact(st, is) == 1 || t.IsFalse() && hasFact(st, is) == 0
			c.On(st, ok, "read", con, x.Pos, "a key is reported that is not there, or the other way round: %v", t)
		})
		each("Sid", func(st *eng.State, x *eng.Exit, con string) {
			c.On(st, m.is(u, x.Results[0], st.Params()[0], m.sid), "read", con, x.Pos, "the id reported is not that of the session")
		})
		for _, n := range []string{"Get", "Has", "Sid", "Values"} {
			each(n, func(st *eng.State, x *eng.Exit, con string) {
				own := func(t *eng.Term) bool { return eng.Root(t) == st.Params()[0] }
				w := events(st, func(e *eng.Event) bool {
					return e.Kind == "store" && own(e.Addr) || (e.Kind == "mapset" || e.Kind == "delete") && m.is(u, e.Recv, st.Params()[0], m.values)
				})
				c.On(st, len(w) == 0, "read", con, x.Pos, "reading changes the session")
			})
		}
		// copy
		{
			f, _ := (*ssa.Function)(nil), 0
			copies := func(st *eng.State, e *eng.Event) bool {
				if e.Kind != "mapset" || e.Recv.Op != eng.OAlloc {
					return false
				}
				k, v := noOld(u, e.Args[0]), noOld(u, bare(e.Val))
				cell := cellOf(v)
				if k.Op != eng.OExtract || k.Sym != "1" {
					return false
				}
				rng := false
				eng.Any(k, func(y *eng.Term) bool {
					if strings.HasPrefix(y.Sym, "range") && len(y.Args) == 1 && m.is(u, y.Args[0], st.Params()[0], m.values) {
						rng = true
					}
					return rng
				})
				val := v.Op == eng.OExtract && v.Sym == "2" && v.Args[0] == k.Args[0] ||
					cell != nil && cell.Op == eng.OMAddr && m.is(u, cell.Args[0], st.Params()[0], m.values) && cell.Args[1] == k
				return rng && val
			}
			var target *eng.Term
			loops, bad := 0, false
			f, r := run("Values", &eng.Options{Entry: func(st *eng.State, h *ssa.BasicBlock, _ map[*ssa.Phi]*eng.Term, back bool) {
				if !back {
					return
				}
				n := 0
				for _, e := range st.Trace {
					if e.Kind == "mapset" {
						n++
						if !copies(st, e) {
							bad = true
						}
						target = e.Recv
					}
				}
				if n == 0 {
					bad = true
				}
				loops++
			}})
			con := eng.FuncName(f)
			for _, x := range r.Exits {
				if x.Kind != "return" {
					continue
				}
				st := x.St
				t := bare(x.Results[0])
				clone := retOf(t, "maps.Clone") && m.is(u, t.Args[0], st.Params()[0], m.values)
				all := t.Op == eng.OAlloc && loops > 0 && !bad && t == target && hasFact(st, func(y *eng.Term) bool {
					return y.Op == eng.OExtract && y.Sym == "0" && strings.HasPrefix(y.Args[0].Sym, "next")
				}) != 1
				copied := len(events(st, func(e *eng.Event) bool {
					return e.Kind == "call" && e.Name == "maps.Copy" && e.Args[0] == t && t.Op == eng.OAlloc && m.is(u, e.Args[1], st.Params()[0], m.values)
				})) == 1
				c.On(st, clone || all || copied, "copy", con, x.Pos, "what is handed out is not a new map with every entry of the session")
			}
		}
		// flush
		each("Flush", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			flag := func(f *types.Var) int {
				return hasFact(st, func(t *eng.Term) bool { return isFieldOf(t, p[0], f) })
			}
			dirtyAt, closedAt := u.FAddr(p[0], m.dirty), u.FAddr(p[0], m.closed)
			set := lastSet(st, dirtyAt)
			res := x.Results[0]
			c.On(st, lastSet(st, closedAt) == nil, "flush", con, x.Pos, "flushing changes whether the session counts as destroyed")
			if flag(m.closed) == 1 || flag(m.dirty) == 0 {
				c.On(st, len(cacheCalls(st)) == 0 && res.IsNil(), "flush", con, x.Pos, "a session that is destroyed or not changed is written, or its flush fails")
				c.On(st, set == nil || set.IsFalse(), "flush", con, x.Pos, "a session that is not changed is marked as changed")
				return
			}
			if !c.On(st, flag(m.closed) == 0 && flag(m.dirty) == 1, "flush", con, x.Pos, "it is not looked at whether the session was changed and not destroyed") {
				return
			}
			if !m.cache {
				c.On(st, res.IsNil(), "flush", con, x.Pos, "a session without a store fails to be saved")
				return
			}
			cs := calls(st)
			saved, marshalled := false, false
			var enc *eng.Event
			for _, e := range cs {
				switch {
				case isMarshal(e):
					enc = e
					c.On(st, m.is(u, e.Args[0], p[0], m.values), "save", con, e.Pos, "something else than the values of the session is encoded: %v", e.Args[0])
					marshalled = st.IsNil(errOf(st, e)) == 1
					if st.IsNil(errOf(st, e)) == 0 {
						c.On(st, reports(st, res, errOf(st, e)), "failure", con, x.Pos, "a failure to encode the values is not reported")
					}
				case invoked(e, env.cacheT, "Set"):
					ok := enc != nil && marshalled && m.is(u, e.Args[0], p[0], m.sid) && bare(e.Args[1]) == resAt(st, enc, 0) && env.expire(orNil(only(st, e.Args, 2), u))
					c.On(st, ok, "save", con, e.Pos, "the encoded values are not stored under the id with the lifetime of sessions")
					err := errOf(st, e)
					saved = st.IsNil(err) == 1
					if !saved {
						c.On(st, reports(st, res, err), "failure", con, x.Pos, "a failure to store the session is not reported")
					}
				default:
					c.On(st, !invoked(e, env.cacheT, e.Callee.Name()), "save", con, e.Pos, "saving a session does something else to the store: %s", e.Name)
				}
			}
			c.On(st, saved || st.IsNil(res) != 1, "save", con, x.Pos, "saving is reported although nothing was stored")
			if saved {
				c.On(st, set != nil && set.IsFalse(), "saved", con, x.Pos, "a session stays marked as changed after it was saved")
				c.On(st, st.IsNil(res) == 1, "saved", con, x.Pos, "a session that was saved is reported as failed")
			} else {
				c.On(st, set == nil || set.IsTrue(), "failure", con, x.Pos, "a session that could not be saved is no longer marked as changed")
			}
		})
		each("Destroy", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			set := lastSet(st, u.FAddr(p[0], m.closed))
			c.On(st, set != nil && set.IsTrue(), "destroyed", con, x.Pos, "a destroyed session is not marked as destroyed")
			if !m.cache {
				return
			}
			n := 0
			for _, e := range cacheCalls(st) {
				if invoked(e, env.cacheT, "Delete") && m.is(u, e.Args[0], p[0], m.sid) {
					n++
					err := errOf(st, e)
					c.On(st, st.IsNil(err) == 1 || reports(st, x.Results[0], err), "failure", con, x.Pos, "a failure to delete the stored session is not reported")
					continue
				}
				c.On(st, false, "destroyed", con, e.Pos, "destroying a session does something else to the store")
			}
			c.On(st, n == 1, "destroyed", con, x.Pos, "the stored session is not deleted")
		})
		if m.cache {
			each("Touch", func(st *eng.State, x *eng.Exit, con string) {
				p := st.Params()
				cs := cacheCalls(st)
				ok := len(cs) == 1 && invoked(cs[0], env.cacheT, "Touch") && m.is(u, cs[0].Args[0], p[0], m.sid) && env.expire(orNil(only(st, cs[0].Args, 1), u))
				c.On(st, ok, "touch", con, x.Pos, "touching does not renew the stored session with the lifetime of sessions")
				if ok {
					c.On(st, x.Results[0] == errOf(st, cs[0]) || reports(st, x.Results[0], errOf(st, cs[0])) || st.IsNil(errOf(st, cs[0])) == 1, "failure", con, x.Pos, "a failure to renew the session is not reported")
				}
			})
		}
	}
	// both directions of the encoding are of the same kind, failures reported
	for _, f := range c.topFuncs("sessions") {
		if f.Signature.Recv() == nil || f.Name() != "Marshal" {
			continue
		}
		recv := f.Signature.Recv().Type()
		g := c.Meth(recv, "Unmarshal")
		kind := map[*ssa.Function]string{}
		for _, h := range []*ssa.Function{f, g} {
			r := c.Run(h, &eng.Options{Exact: true, CutAt: cutAll, Event: keep})
			for _, x := range r.Exits {
				if x.Kind != "return" {
					continue
				}
				st := x.St
				cs := calls2(st)
				con := eng.FuncName(h)
				if !c.On(st, len(cs) >= 1, "encoding", con, x.Pos, "nothing is encoded") {
					continue
				}
				e := cs[len(cs)-1]
				kind[h] = strings.TrimSuffix(strings.TrimSuffix(e.Name, "Unmarshal"), "Marshal")
				ok := len(e.Args) > 0 && bare(e.Args[0]) == bare(r.Params[1])
				if h == g {
					ok = ok && len(e.Args) == 2 && bare(e.Args[1]) == bare(r.Params[2])
				} else {
					ok = ok && x.Results[0] == resAt(st, e, 0) || st.IsNil(errOf(st, e)) == 0
				}
				c.On(st, ok, "encoding", con, x.Pos, "something else is encoded or decoded")
				res := x.Results[len(x.Results)-1]
				err := errOf(st, e)
				c.On(st, res == err || st.IsNil(err) == 1 || reports(st, res, err), "failure", con, x.Pos, "a failure to encode or decode is not reported")
			}
		}
		c.Check(kind[f] == kind[g], "encoding", eng.FuncName(f), f.Pos(), "values are decoded in another way than they are encoded: %s, %s", kind[f], kind[g])
	}
	c.Check(persisted > 0, "anchor", "persisted session", 0, "no session type saves its values")
	for rule, n := range map[string]int{"change": 6, "changed": 6, "read": 8, "copy": 2, "flush": 6, "save": 2, "failure": 4, "saved": 2, "destroyed": 3, "touch": 1, "encoding": 3} {
		c.Min(rule, n)
	}
}

func calls2(st *eng.State) []*eng.Event {
	return events(st, func(e *eng.Event) bool { return e.Kind == "call" })
}

func orNil(t *eng.Term, u *eng.Universe) *eng.Term {
	if t == nil {
		return u.Nil()
	}
	return t
}

func isMarshal(e *eng.Event) bool {
	return e.Kind == "call" && e.Callee != nil && e.Callee.Name() == "Marshal"
}

// errIs: what is known about the error being the named one.
func (c *Ctx) errIs(st *eng.State, err *eng.Term, pkg, name string) int {
	if st.IsNil(err) == 1 {
		return 0
	}
	return hasFact(st, func(t *eng.Term) bool {
		if t.Op == eng.OBin && t.Sym == "eq" {
			return t.Args[0] == err && c.isVar(t.Args[1], pkg, name) || t.Args[1] == err && c.isVar(t.Args[0], pkg, name)
		}
		return callTerm(t, "errors.Is") && bare(t.Args[0]) == err && c.isVar(t.Args[1], pkg, name)
	})
}

func c16(c *Ctx) {
	u := c.U
	m := c.sess()
	env := c.sessEnv()
	// the manager
	read, create, write := c.Meth(m.mgr, "ReadSidFromRequest"), c.Fn("sessions", "CreateSid"), c.Meth(m.mgr, "WriteSessionCookie")
	stay := []*ssa.Function{read, create, write}
	called := func(st *eng.State, f *ssa.Function) []*eng.Event {
		return events(st, func(e *eng.Event) bool { return e.Kind == "call" && e.Name == eng.FuncName(f) })
	}
	prov := func(st *eng.State) []*eng.Event {
		return events(st, func(e *eng.Event) bool {
			return e.Kind == "call" && e.Callee != nil && e.Recv != nil && invoked(e, env.provI, e.Callee.Name())
		})
	}
	for _, n := range []string{"Start", "Regenerate"} {
		f := c.Meth(m.mgr, n)
		con := eng.FuncName(f)
		r := c.Run(f, m.opts(nil, stay...))
		var worked [2]bool // handed out a session: the request has no id, has one
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			ps := st.Params()
			conf, w, req := ps[argPosSuffix(f, "CookieConfig")], ps[argPos(f, "net/http.ResponseWriter")], ps[argPos(f, "*net/http.Request")]
			sess, at, res := x.Results[0], x.Results[1], x.Results[2]
			rd := called(st, read)
			if !c.On(st, len(rd) == 1 && rd[0].Args[len(rd[0].Args)-2] == req && m.conf(rd[0].Args[len(rd[0].Args)-1], "CookieName"), "id", con, x.Pos, "the id of the request is not taken once from the configured cookie") {
				continue
			}
			sid, since := st.Ext(rd[0].Res, 0), st.Ext(rd[0].Res, 1)
			has := st.EvalTerm(st.Ext(rd[0].Res, 2))
			if !c.On(st, has >= 0, "id", con, x.Pos, "it is not looked at whether the request has an id") {
				continue
			}
			ids := called(st, create)
			fresh := func(t *eng.Term) bool {
				for _, e := range ids {
					if e.Res == t {
						return true
					}
				}
				return false
			}
			given := func(e *eng.Event) bool { // the values the caller gave
				if n == "Start" {
					es, ok := st.Elems(e.Args[1])
					return e.Args[1].IsNil() || ok && len(es) == 0
				}
				return e.Args[1] == ps[len(ps)-1]
			}
			var failed *eng.Term // failure to be reported
			var cur *eng.Term    // session to hand out
			var used *eng.Term   // its id
			made := false        // created or renamed
			missing := false
			order := true
			for i, e := range prov(st) {
				err := errOf(st, e)
				name := e.Callee.Name()
				switch {
				case name == "Config":
					continue
				case failed != nil:
					order = false
				case name == "Create":
					ok := fresh(e.Args[0])
					if n == "Start" && has == 1 {
						ok = e.Args[0] == sid
					}
					c.On(st, (has == 0 || missing) && cur == nil, "create", con, e.Pos, "a session is created although the request has one, or after a failure of the store")
					c.On(st, ok && given(e), "create", con, e.Pos, "the session is created under another id or with other values")
					used, made = e.Args[0], true
				case name == "Read" && n == "Start":
					c.On(st, has == 1 && e.Args[0] == sid && cur == nil, "read", con, e.Pos, "another session is read than that of the request")
					used = e.Args[0]
				case name == "Regenerate" && n == "Regenerate":
					c.On(st, has == 1 && e.Args[0] == sid && fresh(e.Args[1]) && cur == nil, "rename", con, e.Pos, "a session is not renamed from the id of the request to a fresh one")
					used, made = e.Args[1], true
				default:
					c.On(st, false, "read", con, e.Pos, "the store is asked for something else: %s", e.Name)
				}
				_ = i
				nf := c.errIs(st, err, "sessions", "ErrNotFoundSession")
				switch {
				case st.IsNil(err) == 1:
					cur = st.Ext(e.Res, 0)
				case name != "Create" && nf == 1:
					missing, made = true, false
				default:
					failed = err
				}
			}
			c.On(st, order, "failure", con, x.Pos, "the store is used again after it failed")
			ws := called(st, write)
			if failed != nil || cur == nil {
				// the caller learns about it unless the call is known to have worked
				asIs := n == "Start" && has == 1 // no cookie in either case
				ok := failed != nil && (res == failed || reports(st, res, failed)) && (st.IsNil(failed) == 0 || asIs && sess == lastRes(st, prov(st)))
				c.On(st, ok && (len(ws) == 0), "failure", con, x.Pos, "a failure of the store is not reported, or a cookie is written all the same")
				if failed != nil && st.IsNil(failed) != 0 {
					// success and failure are not told apart: the session found, as it is
					c.On(st, asIs && at == since, "session", con, x.Pos, "the outcome of the store is not looked at")
				}
				continue
			}
			worked[has] = true
			c.On(st, st.IsNil(res) == 1, "failure", con, x.Pos, "a failure is reported although a session is at hand")
			c.On(st, sess == cur, "session", con, x.Pos, "another session is handed out than the one of the id")
			if n == "Start" && has == 1 {
				c.On(st, len(ws) == 0 && at == since, "cookie", con, x.Pos, "the request has a valid cookie, but a new one is written or another time given")
				continue
			}
			ok := len(ws) == 1
			if ok {
				a := ws[0].Args
				// (receiver) config, request, response, id, time
				ok = len(a) >= 5 && a[len(a)-5] == conf && a[len(a)-4] == req && a[len(a)-3] == w
				id, tm := a[len(a)-2], a[len(a)-1]
				own := id == used
				for _, e := range events(st, func(e *eng.Event) bool { return invoked(e, env.storeI, "Sid") }) {
					own = own || e.Res == id && e.Recv == cur
				}
				ok = ok && own && retOf(tm, "time.Now") && at == tm
			}
			c.On(st, made && ok, "cookie", con, x.Pos, "no cookie for the id and time of the new session is written")
		}
		for has, ok := range worked {
			c.Check(ok, "session", con, f.Pos(), "no session is ever handed out to a request %s id", []string{"without an", "with an"}[has])
		}
	}
	{
		f := c.Meth(m.mgr, "Destroy")
		con := eng.FuncName(f)
		r := c.Run(f, m.opts(nil, stay...))
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			rd := called(st, read)
			if !c.On(st, len(rd) == 1 && m.conf(rd[0].Args[len(rd[0].Args)-1], "CookieName"), "id", con, x.Pos, "the id of the request is not taken once from the configured cookie") {
				continue
			}
			var ds []*eng.Event
			for _, e := range prov(st) {
				if e.Callee.Name() != "Config" {
					ds = append(ds, e)
				}
			}
			cs := events(st, func(e *eng.Event) bool { return e.Kind == "call" && e.Name == "net/http.SetCookie" })
			if st.EvalTerm(st.Ext(rd[0].Res, 2)) == 0 {
				c.On(st, len(ds) == 0, "destroy", con, x.Pos, "a session is destroyed without an id")
				continue
			}
			c.On(st, len(ds) == 1 && ds[0].Callee.Name() == "Destroy" && ds[0].Args[0] == st.Ext(rd[0].Res, 0), "destroy", con, x.Pos, "not exactly the session of the request is destroyed")
			c.On(st, len(cs) == 1, "destroy", con, x.Pos, "the cookie of a destroyed session is not deleted")
		}
	}
	// the providers
	stores := c.sessStores()
	modelOf := func(t *eng.Term) *storeModel {
		for _, s := range stores {
			if p, ok := t.Typ.(*types.Pointer); ok && types.Identical(p.Elem(), s.t) {
				return s
			}
		}
		return nil
	}
	provs := 0
	for _, t := range c.Impls("sessions", env.provI.Underlying().(*types.Interface)) {
		provs++
		cache := func(st *eng.State) []*eng.Event {
			return events(st, func(e *eng.Event) bool {
				return e.Kind == "call" && e.Callee != nil && e.Recv != nil && invoked(e, env.cacheT, e.Callee.Name())
			})
		}
		each := func(name string, check func(st *eng.State, x *eng.Exit, con string)) {
			f := c.Meth(t, name)
			r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll, Event: func(_ *eng.State, e *eng.Event) bool { return e.Kind != "load" }})
			for _, x := range r.Exits {
				if x.Kind == "return" {
					check(x.St, x, eng.FuncName(f))
				}
			}
		}
		missed := func(st *eng.State, err *eng.Term) int { return c.errIs(st, err, "caches", "ErrMissedKey") }
		// loaded: the session handed out is what is stored under the id
		loaded := func(st *eng.State, x *eng.Exit, con string, get *eng.Event, sid *eng.Term) {
			sess, res := x.Results[0], x.Results[1]
			err := errOf(st, get)
			switch {
			case st.IsNil(err) == 0 && missed(st, err) == 1:
				c.On(st, c.isVar(res, "sessions", "ErrNotFoundSession") && sess.IsNil(), "missing", con, x.Pos, "a session that is not stored is not reported as not found: %v", res)
				return
			case st.IsNil(err) == 0:
				c.On(st, missed(st, err) == 0 && reports(st, res, err) && !c.isVar(res, "sessions", "ErrNotFoundSession"), "failure", con, x.Pos, "a failure of the store is not reported as such: %v", res)
				return
			}
			if !c.On(st, st.IsNil(err) == 1, "failure", con, x.Pos, "it is not looked at whether the store failed") {
				return
			}
			var un *eng.Event
			for _, e := range calls2(st) {
				if e.Callee != nil && e.Callee.Name() == "Unmarshal" {
					un = e
				}
			}
			if !c.On(st, un != nil && bare(un.Args[0]) == resAt(st, get, 0), "read", con, x.Pos, "what is stored is not decoded") {
				return
			}
			derr := errOf(st, un)
			if st.IsNil(derr) != 1 {
				c.On(st, reports(st, res, derr) && sess.IsNil() && !c.isVar(res, "sessions", "ErrNotFoundSession"), "failure", con, x.Pos, "a session that cannot be decoded is not reported")
				return
			}
			obj := bare(sess)
			sm := (*storeModel)(nil)
			if obj.Op == eng.OAlloc {
				sm = modelOf(obj)
			}
			if !c.On(st, sm != nil && st.IsNil(res) == 1, "read", con, x.Pos, "no new session object is handed out") {
				return
			}
			vals := sm.load(st, obj, sm.values)
			dst := bare(un.Args[1])
			okVals := vals == st.Load(dst) || dst == u.FAddr(sm.base(st, obj), sm.values) && vals.Op != eng.OAlloc || emptyMap(st, vals) && hasNilLoad(st, dst)
			c.On(st, okVals, "read", con, x.Pos, "the session does not have the values that were stored: %v", vals)
			c.On(st, sm.load(st, obj, sm.sid) == sid, "read", con, x.Pos, "the session has another id: %v", sm.load(st, obj, sm.sid))
			fl := func(f *types.Var) bool { v := sm.load(st, obj, f); return v.IsFalse() || v.Op == eng.OZero }
			c.On(st, fl(sm.dirty) && fl(sm.closed), "read", con, x.Pos, "a session just read counts as changed or destroyed")
		}
		each("Read", func(st *eng.State, x *eng.Exit, con string) {
			cs := cache(st)
			if c.On(st, len(cs) == 1 && invoked(cs[0], env.cacheT, "Get") && cs[0].Args[0] == st.Params()[1], "read", con, x.Pos, "not exactly the session of the id is read") {
				loaded(st, x, con, cs[0], st.Params()[1])
			}
		})
		each("Create", func(st *eng.State, x *eng.Exit, con string) {
			c.On(st, len(cache(st)) == 0, "create", con, x.Pos, "creating a session uses the store before it is saved")
			obj := bare(x.Results[0])
			sm := (*storeModel)(nil)
			if obj.Op == eng.OAlloc {
				sm = modelOf(obj)
			}
			if !c.On(st, sm != nil && x.Results[1].IsNil(), "create", con, x.Pos, "no new session object is handed out") {
				return
			}
			p := st.Params()
			c.On(st, sm.load(st, obj, sm.sid) == p[1], "create", con, x.Pos, "the session has another id")
			ln := u.Len(p[2])
			has := st.EvalTerm(u.Lt(u.Int(0), ln))
			if has < 0 {
				if e := st.EqTerms(ln, u.Int(0)); e >= 0 {
					has = 1 - e
				}
			}
			dirty := sm.load(st, obj, sm.dirty)
			d := st.EvalTerm(dirty)
			if d < 0 && has < 0 { // the flag is the comparison itself
				d, has = 0, 0
				l := u.Canon(dirty)
				ok := l.T == u.Canon(u.Lt(u.Int(0), ln)).T && l.Neg == u.Canon(u.Lt(u.Int(0), ln)).Neg || l.T == u.Canon(u.Eq(ln, u.Int(0))).T && l.Neg
				c.On(st, ok, "create", con, x.Pos, "whether a new session counts as changed does not depend on values being given: %v", dirty)
			}
			c.On(st, d == has && d >= 0, "create", con, x.Pos, "a session created with values does not count as changed, or one without does: %v", dirty)
			vals := sm.load(st, obj, sm.values)
			if has == 1 {
				b, i, ok := index(vals)
				n, isN := int64(-1), false
				if ok {
					n, isN = i.IntVal()
				}
				c.On(st, ok && b == p[2] && isN && n == 0 && st.IsNil(vals) == 0 || emptyMap(st, vals), "create", con, x.Pos, "the session does not have the values given: %v", vals)
				if emptyMap(st, vals) {
					z := hasFact(st, func(t *eng.Term) bool {
						for i := 0; i < 2 && t.Op == eng.OBin && t.Sym == "eq"; i++ {
							b, k, ok := index(t.Args[i])
							if ok && b == p[2] && t.Args[1-i].IsNil() {
								n, isN := k.IntVal()
								return isN && n == 0
							}
						}
						return false
					})
					c.On(st, z == 1, "create", con, x.Pos, "the session does not have the values given")
				}
			} else {
				c.On(st, emptyMap(st, vals), "create", con, x.Pos, "the session has no map for its values: %v", vals)
			}
		})
		each("Regenerate", func(st *eng.State, x *eng.Exit, con string) {
			p := st.Params()
			old, sid := p[1], p[2]
			cs := cache(st)
			if !c.On(st, len(cs) >= 1 && invoked(cs[0], env.cacheT, "Get") && cs[0].Args[0] == old, "rename", con, x.Pos, "the stored session is not read first") {
				return
			}
			res := x.Results[1]
			if len(cs) == 1 {
				if c.On(st, st.IsNil(errOf(st, cs[0])) == 0, "rename", con, x.Pos, "the session is not stored under its new id") {
					loaded(st, x, con, cs[0], sid)
				}
				return
			}
			c.On(st, st.IsNil(errOf(st, cs[0])) == 1, "failure", con, x.Pos, "it goes on after the store failed")
			set := cs[1]
			ok := invoked(set, env.cacheT, "Set") && set.Args[0] == sid && bare(set.Args[1]) == resAt(st, cs[0], 0) && env.expire(orNil(only(st, set.Args, 2), u))
			c.On(st, ok, "rename", con, set.Pos, "what was stored is not stored under the new id with the lifetime of sessions")
			serr := errOf(st, set)
			if len(cs) == 2 {
				c.On(st, st.IsNil(serr) == 0 && reports(st, res, serr), "rename", con, x.Pos, "the old id stays usable, or a failure is not reported")
				return
			}
			del := cs[2]
			c.On(st, st.IsNil(serr) == 1 && invoked(del, env.cacheT, "Delete") && del.Args[0] == old, "rename", con, del.Pos, "the old id is not deleted after the session was stored under the new one")
			derr := errOf(st, del)
			gone := st.IsNil(derr) == 1 || missed(st, derr) == 1
			if len(cs) == 3 {
				c.On(st, !gone && reports(st, res, derr), "rename", con, x.Pos, "the renamed session is not handed out")
				return
			}
			c.On(st, gone, "failure", con, x.Pos, "a failure to delete the old id is not reported")
			if c.On(st, len(cs) == 4 && invoked(cs[3], env.cacheT, "Get") && cs[3].Args[0] == sid, "rename", con, x.Pos, "the renamed session is not read") {
				loaded(st, x, con, cs[3], sid)
			}
		})
		each("Destroy", func(st *eng.State, x *eng.Exit, con string) {
			cs := cache(st)
			ok := len(cs) == 1 && invoked(cs[0], env.cacheT, "Delete") && cs[0].Args[0] == st.Params()[1]
			if c.On(st, ok, "destroy", con, x.Pos, "not exactly the session of the id is deleted") {
				err := errOf(st, cs[0])
				c.On(st, x.Results[0] == err || st.IsNil(err) == 1 || reports(st, x.Results[0], err), "failure", con, x.Pos, "a failure to delete is not reported")
			}
		})
	}
	c.Check(provs > 0, "anchor", "session provider", 0, "no provider of sessions was found")
	for rule, n := range map[string]int{"id": 8, "create": 10, "read": 5, "rename": 8, "failure": 10, "cookie": 3, "destroy": 4, "missing": 2, "session": 5} {
		c.Min(rule, n)
	}
}

func lastRes(st *eng.State, es []*eng.Event) *eng.Term {
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].Callee.Name() != "Config" {
			return st.Ext(es[i].Res, 0)
		}
	}
	return nil
}

// hasNilLoad: the value at the address was found to be nil.
func hasNilLoad(st *eng.State, addr *eng.Term) bool {
	for _, l := range st.Facts() {
		if !l.Neg && l.T.Op == eng.OBin && l.T.Sym == "eq" && (cellOf(l.T.Args[0]) == addr || cellOf(l.T.Args[1]) == addr) {
			return true
		}
	}
	return false
}

func argPosSuffix(f *ssa.Function, suffix string) int {
	for i, p := range f.Params {
		if strings.HasSuffix(p.Type().String(), suffix) {
			return i
		}
	}
	return 0
}
