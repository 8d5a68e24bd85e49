package main

import (
	"go/constant"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17",
		"Every call of a cache server's client is analysed as an operation: its kind, its key, its value and its amount as terms over the parameters. The key is always the configured prefix followed by the key given (or the configured key field with the key given), what is stored is the value given and what is handed back is what was stored; a connection taken from a pool is given back once, after its last use.",
		"what the servers do; values that several clients write at once",
		c17)
	register("C18",
		"Path analysis over the outcomes of each client call: an absent key leads to the error for missed keys (and to false without an error where only presence is asked), every other failure is handed back as it is, an entry past its time counts as absent, and nothing is reported as done that failed.",
		"failures the clients themselves hide; counting on a missing key where the server creates it",
		c18)
	register("C19",
		"Symbolic durations: for every sign of the lifetime parameter and for its absence, the lifetime handed to the server is computed as a linear term and compared with the one promised; the encoding of long lifetimes, the expiry of entries and their collection are checked on each path.",
		"lifetimes of more than 290 years; clocks",
		c19)
}

const (
	mcClient  = "(*github.com/bradfitz/gomemcache/memcache.Client)."
	redisPool = "(*github.com/mediocregopher/radix.v2/pool.Pool)."
	redisConn = "(*github.com/mediocregopher/radix.v2/redis.Client)."
	redisResp = "(*github.com/mediocregopher/radix.v2/redis.Resp)."
	mgoColl   = "(*github.com/globalsign/mgo.Collection)."
	mgoQuery  = "(*github.com/globalsign/mgo.Query)."
)

// cop is one operation on a server.
type cop struct {
	e        *eng.Event
	kind     string // get set touch delete incr decr clean gc exists ? (unknown)
	key      bool   // on the right key
	val      *eng.Term
	ttl      *eng.Term // seconds (or, for an absolute time, the duration from now)
	noTTL    bool
	abs      bool
	err      *eng.Term
	answer   *eng.Term // what was read
	count    *eng.Term // how many keys (redis)
	amount   *eng.Term
	expireAt *eng.Term // mgo: time written
}

type cacheRun struct {
	con string
	st  *eng.State
	x   *eng.Exit
	ops []*cop
	srv string // mc, redis, mgo
}

type cacheEnv struct {
	c                         *Ctx
	toStr                     string
	keyF, valF, expF, autoF   *types.Var
	prefix                    map[*types.Var]bool
	respErr                   *types.Var
	itemKey, itemVal, itemExp *types.Var
}

func (c *Ctx) cacheEnv() *cacheEnv {
	v := &cacheEnv{c: c, prefix: map[*types.Var]bool{}}
	v.toStr = eng.FuncName(c.Fn("utils", "ToStr"))
	v.keyF, v.valF, v.expF, v.autoF = c.fld("caches", "MgoConfig", "KeyField"), c.fld("caches", "MgoConfig", "ValueField"), c.fld("caches", "MgoConfig", "ExpiredAtField"), c.fld("caches", "MgoConfig", "AutoExpire")
	v.prefix[c.fld("caches", "McConfig", "KeyPrefix")] = true
	v.prefix[c.fld("caches", "RedisConfig", "KeyPrefix")] = true
	ext := func(path, typ, f string) *types.Var {
		p := c.P.TPkg(path)
		c.Need(p != nil, "package "+path)
		s := structOf(p.Scope().Lookup(typ).Type())
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				return s.Field(i)
			}
		}
		c.Need(false, typ+"."+f)
		return nil
	}
	mc := "github.com/bradfitz/gomemcache/memcache"
	v.itemKey, v.itemVal, v.itemExp = ext(mc, "Item", "Key"), ext(mc, "Item", "Value"), ext(mc, "Item", "Expiration")
	v.respErr = ext("github.com/mediocregopher/radix.v2/redis", "Resp", "Err")
	return v
}

// entries lists what was put into a map made on the path.
func mapEntries(st *eng.State, m *eng.Term) (ks, vs []*eng.Term, ok bool) {
	m = bare(m)
	if m == nil || m.Op != eng.OAlloc || !isMapT(m.Typ) {
		return
	}
	for _, e := range st.Trace {
		if e.Kind == "mapset" && e.Recv == m {
			ks = append(ks, e.Args[0])
			vs = append(vs, e.Val)
		}
		if e.Kind == "delete" && e.Recv == m {
			return nil, nil, false
		}
	}
	return ks, vs, true
}

func (v *cacheEnv) isKey(st *eng.State, t *eng.Term, key *eng.Term) bool {
	ps := joined(v.c.U, parts(t))
	return len(ps) == 2 && v.prefix[fieldOf(ps[0])] && ps[1] == key
}

// selector: t selects the entry of the key.
func (v *cacheEnv) selector(st *eng.State, t, key *eng.Term) bool {
	ks, vs, ok := mapEntries(st, t)
	return ok && len(ks) == 1 && fieldOf(bare(ks[0])) == v.keyF && bare(vs[0]) == key
}

func isNow(t *eng.Term) bool { return retOf(t, "time.Now") }

// fromNow: t is the current time plus a duration.
func fromNow(t *eng.Term) *eng.Term {
	t = bare(t)
	if callTerm(t, "(time.Time).Add") && isNow(t.Args[0]) {
		return t.Args[1]
	}
	return nil
}

// runs analyses one method of every store of cached values.
func (v *cacheEnv) runs(method string) []*cacheRun {
	c := v.c
	u := c.U
	var out []*cacheRun
	itf := c.Type("caches", "CacheProvider").Underlying().(*types.Interface)
	impls := c.Impls("caches", itf)
	c.Need(len(impls) >= 3, "stores of cached values")
	for _, t := range impls {
		f := c.Meth(t, method)
		o := &eng.Options{Exact: true, CutAt: cutAll,
			Pure:   func(n string) bool { return n == v.toStr },
			Inline: func(g *ssa.Function) bool { return eng.FuncName(g) != v.toStr },
			Callback: func(st *eng.State, e *eng.Event) int {
				for i, a := range e.Args {
					if s, ok := a.Typ.Underlying().(*types.Signature); ok && a.Typ != nil && s.Params().Len() == 1 && s.Params().At(0).Type().String() == "*github.com/globalsign/mgo.Collection" {
						return i
					}
				}
				return -1
			},
			Event: func(st *eng.State, e *eng.Event) bool {
				if e.Kind == "call" && e.Name == mcClient+"Set" {
					it := e.Args[0]
					e.Val = u.Opaque("item", nil, st.Load(u.FAddr(it, v.itemKey)), st.Load(u.FAddr(it, v.itemVal)), st.Load(u.FAddr(it, v.itemExp)))
				}
				if e.Kind == "call" && e.Name == redisConn+"Cmd" || e.Name == redisPool+"Cmd" {
					if es, ok := st.Elems(e.Args[1]); ok {
						e.Val = u.Opaque("args", nil, es...)
					}
				}
				return e.Kind == "call" || e.Kind == "mapset" || e.Kind == "delete"
			}}
		r := c.Run(f, o)
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			if len(signs(x.St)) == 0 {
				continue // the facts contradict each other
			}
			cr := &cacheRun{con: eng.FuncName(f), st: x.St, x: x}
			v.ops(cr)
			out = append(out, cr)
		}
	}
	return out
}

func (v *cacheEnv) ops(r *cacheRun) {
	st := r.st
	u := v.c.U
	var key *eng.Term
	if ps := st.Params(); len(ps) > 1 {
		key = ps[1]
	}
	for _, e := range st.Trace {
		if e.Kind != "call" {
			continue
		}
		switch {
		case e.Tag == "refused":
			r.srv = "mgo"
			r.ops = append(r.ops, &cop{e: e, kind: "refused", err: e.Res, key: true})
		case strings.HasPrefix(e.Name, mcClient):
			r.srv = "mc"
			o := &cop{e: e, kind: "?", err: errOf(st, e)}
			switch strings.TrimPrefix(e.Name, mcClient) {
			case "Get":
				o.kind, o.key = "get", v.isKey(st, e.Args[0], key)
				o.answer = u.LoadInit(u.FAddr(resAt(st, e, 0), v.itemVal))
			case "Set":
				o.kind = "set"
				if e.Val != nil {
					o.key, o.val = v.isKey(st, e.Val.Args[0], key), e.Val.Args[1]
					v.mcTTL(o, e.Val.Args[2])
				}
			case "Touch":
				o.kind, o.key = "touch", v.isKey(st, e.Args[0], key)
				v.mcTTL(o, e.Args[1])
			case "Delete":
				o.kind, o.key = "delete", v.isKey(st, e.Args[0], key)
			case "Increment", "Decrement":
				o.kind = map[bool]string{true: "incr", false: "decr"}[strings.HasSuffix(e.Name, "Increment")]
				o.key, o.amount = v.isKey(st, e.Args[0], key), e.Args[1]
			case "FlushAll", "DeleteAll":
				o.kind, o.key = "clean", true
			}
			r.ops = append(r.ops, o)
		case e.Name == redisPool+"Get":
			r.srv = "redis"
			r.ops = append(r.ops, &cop{e: e, kind: "conn", err: errOf(st, e), key: true})
		case e.Name == redisConn+"Cmd" || e.Name == redisPool+"Cmd":
			r.srv = "redis"
			o := &cop{e: e, kind: "?", noTTL: true}
			r.ops = append(r.ops, o)
			o.err = st.Load(u.FAddr(e.Res, v.respErr))
			for _, y := range st.Trace {
				if y.Kind == "call" && y.Recv == e.Res && strings.HasPrefix(y.Name, redisResp) {
					if er := errOf(st, y); er != nil {
						o.err = er
					}
					switch strings.TrimPrefix(y.Name, redisResp) {
					case "Str", "Bytes":
						o.answer = resAt(st, y, 0)
					case "Int", "Int64":
						o.count = resAt(st, y, 0)
					}
				}
			}
			cmd, _ := e.Args[0].StrVal()
			if e.Val == nil {
				continue
			}
			a := e.Val.Args
			if len(a) > 0 {
				o.key = v.isKey(st, a[0], key)
			}
			word := func(i int) string {
				s, _ := bare(a[i]).StrVal()
				return strings.ToUpper(s)
			}
			switch strings.ToUpper(cmd) {
			case "GET":
				if len(a) == 1 {
					o.kind = "get"
				}
			case "SET":
				if len(a) == 2 || len(a) == 4 && (word(2) == "EX" || word(2) == "PX") {
					o.kind, o.val = "set", a[1]
				}
				if len(a) == 4 {
					o.noTTL, o.ttl = false, a[3]
					if word(2) == "PX" {
						o.ttl = millis(u, a[3])
					}
				}
			case "SETEX":
				if len(a) == 3 {
					o.kind, o.val, o.ttl, o.noTTL = "set", a[2], a[1], false
				}
			case "EXPIRE":
				if len(a) == 2 {
					o.kind, o.ttl, o.noTTL = "touch", a[1], false
				}
			case "PEXPIRE":
				if len(a) == 2 {
					o.kind, o.ttl, o.noTTL = "touch", millis(u, a[1]), false
				}
			case "PERSIST":
				if len(a) == 1 {
					o.kind = "touch"
				}
			case "DEL":
				if len(a) == 1 {
					o.kind = "delete"
				}
			case "EXISTS":
				if len(a) == 1 {
					o.kind = "exists"
				}
			case "INCRBY", "DECRBY":
				if len(a) == 2 {
					o.kind, o.amount = strings.ToLower(cmd[:4]), a[1]
				}
			case "INCR", "DECR":
				if len(a) == 1 {
					o.kind, o.amount = strings.ToLower(cmd), u.Int(1)
				}
			case "FLUSHDB":
				o.kind, o.key = "clean", true
			}
		case strings.HasPrefix(e.Name, mgoColl):
			r.srv = "mgo"
			o := &cop{e: e, kind: "?", err: errOf(st, e)}
			switch strings.TrimPrefix(e.Name, mgoColl) {
			case "Find":
				for _, y := range st.Trace {
					if y.Kind == "call" && y.Name == mgoQuery+"One" && y.Recv == e.Res {
						o.kind, o.key = "get", v.selector(st, e.Args[0], key)
						o.err, o.answer = errOf(st, y), bare(y.Args[0])
					}
				}
			case "Upsert":
				o.kind = "set"
				ks, vs, ok := mapEntries(st, e.Args[1])
				hasKey := false
				for i, k := range ks {
					switch fieldOf(bare(k)) {
					case v.keyF:
						hasKey = bare(vs[i]) == key
					case v.valF:
						o.val = vs[i]
					case v.expF:
						o.expireAt = vs[i]
					}
				}
				o.key = ok && hasKey && len(ks) == 3 && v.selector(st, e.Args[0], key)
				o.ttl = fromNow(o.expireAt)
				o.abs = true
			case "Update":
				ks, vs, ok := mapEntries(st, e.Args[1])
				if ok && len(ks) == 1 {
					op, _ := bare(ks[0]).StrVal()
					ks, vs, ok = mapEntries(st, vs[0])
					if ok && len(ks) == 1 {
						f := fieldOf(bare(ks[0]))
						switch {
						case op == "$set" && f == v.expF:
							o.kind, o.expireAt, o.ttl, o.abs = "touch", vs[0], fromNow(vs[0]), true
						case op == "$inc" && f == v.valF:
							o.kind, o.amount = "incr", vs[0]
						}
					}
				}
				o.key = v.selector(st, e.Args[0], key)
			case "Remove":
				o.kind, o.key = "delete", v.selector(st, e.Args[0], key)
			case "RemoveAll":
				if bare(e.Args[0]).IsNil() {
					o.kind, o.key = "clean", true
				} else if ks, vs, ok := mapEntries(st, e.Args[0]); ok && len(ks) == 0 {
					o.kind, o.key = "clean", true
				} else if ok && len(ks) == 1 && fieldOf(bare(ks[0])) == v.expF {
					if ks2, vs2, ok := mapEntries(st, vs[0]); ok && len(ks2) == 1 {
						w, _ := bare(ks2[0]).StrVal()
						if (w == "$lte" || w == "$lt") && isNow(bare(vs2[0])) {
							o.kind, o.key = "gc", true
						}
					}
				}
			}
			r.ops = append(r.ops, o)
		}
	}
	if r.srv == "" && len(r.ops) == 0 {
		r.srv = "none"
	}
}

// mcTTL: memcache takes seconds, or an absolute time.
func (v *cacheEnv) mcTTL(o *cop, t *eng.Term) {
	t = bare(t)
	if callTerm(t, "(time.Time).Unix") {
		o.abs, o.ttl = true, fromNow(t.Args[0])
		return
	}
	o.ttl = t
}

// millis turns milliseconds into the term of the seconds they are.
func millis(u *eng.Universe, t *eng.Term) *eng.Term {
	t = bare(t)
	if callTerm(t, "(time.Duration).Milliseconds") {
		return u.Opaque("secs", types.Typ[types.Int64], t.Args[0])
	}
	if t.Op == eng.OBin && t.Sym == "/" {
		if n, ok := t.Args[1].IntVal(); ok && n == 1000000 {
			return u.Opaque("secs", types.Typ[types.Int64], t.Args[0])
		}
	}
	return u.Nil()
}

// dur: k nanoseconds for each unit of the parameter, and c more.
type dur struct{ k, c int64 }

func lifetimeParam(st *eng.State, t *eng.Term) bool {
	ps := st.Params()
	if len(ps) == 0 {
		return false
	}
	b, i, ok := index(bare(t))
	if !ok || b != ps[len(ps)-1] {
		return false
	}
	n, ok := i.IntVal()
	return ok && n == 0
}

func durOf(st *eng.State, t *eng.Term) (dur, bool) {
	if t == nil {
		return dur{}, false
	}
	l := eng.Lin(bare(t))
	d := dur{c: l.C}
	for x, k := range l.Coeff {
		if !lifetimeParam(st, x) {
			if bare(x) != x {
				if y, ok := durOf(st, bare(x)); ok {
					d.k += k * y.k
					d.c += k * y.c
					continue
				}
			}
			return dur{}, false
		}
		d.k += k
	}
	return d, true
}

// readOf: t is what a call wrote into the cell.
func readOf(t, cell *eng.Term) bool {
	t = bare(t)
	if t == nil || cell == nil {
		return false
	}
	if t.Op == eng.OOpaque && strings.HasPrefix(t.Sym, "ext") && len(t.Args) == 1 {
		return t.Args[0] == cell
	}
	return cellOf(t) == cell
}

// secsOf: the duration a number of seconds stands for.
func secsOf(st *eng.State, t *eng.Term) (dur, bool) {
	t = bare(t)
	if t == nil {
		return dur{}, false
	}
	if callTerm(t, "(time.Duration).Seconds") || t.Op == eng.OOpaque && t.Sym == "secs" {
		return durOf(st, t.Args[0])
	}
	if t.Op == eng.OBin && t.Sym == "/" {
		if n, ok := t.Args[1].IntVal(); ok && n == 1000000000 {
			return durOf(st, t.Args[0])
		}
	}
	d, ok := durOf(st, t)
	return dur{d.k * 1000000000, d.c * 1000000000}, ok
}

// signs gives the possible cases of the lifetime parameter on the path:
// -1, 0, 1 and 2 for none given. Products are taken not to overflow.
func signs(st *eng.State) map[int]bool {
	ps := st.Params()
	out := map[int]bool{-1: true, 0: true, 1: true, 2: true}
	if len(ps) == 0 || ps[len(ps)-1].Typ == nil || ps[len(ps)-1].Typ.String() != "[]int" {
		return map[int]bool{2: true}
	}
	u := st.U
	ln := u.Len(ps[len(ps)-1])
	switch st.EqTerms(ln, u.Int(0)) {
	case 1:
		return map[int]bool{2: true}
	case 0:
		delete(out, 2)
	default:
		if st.EvalTerm(u.Lt(u.Int(0), ln)) == 1 {
			delete(out, 2)
		} else if st.EvalTerm(u.Lt(u.Int(0), ln)) == 0 {
			return map[int]bool{2: true}
		}
	}
	for _, l := range st.Facts() {
		t := l.T
		if t.Op != eng.OBin || t.Sym != "lt" && t.Sym != "eq" {
			continue
		}
		a, ok1 := durOf(st, t.Args[0])
		b, ok2 := durOf(st, t.Args[1])
		if !ok1 || !ok2 || a.k == b.k {
			continue
		}
		k, cc := a.k-b.k, a.c-b.c // k*p + cc  (lt: < 0, eq: == 0)
		holds := func(p int64) bool {
			x := k*p + cc
			r := x < 0
			if t.Sym == "eq" {
				r = x == 0
			}
			return r != l.Neg
		}
		any := func(s int64) bool {
			if holds(s) || holds(s*4000000) || holds(s*60) {
				return true
			}
			if cc%k == 0 && -cc/k*s > 0 {
				return holds(-cc/k) || holds(-cc/k+s) || -cc/k-s != 0 && holds(-cc/k-s)
			}
			return false
		}
		if !any(-1) {
			delete(out, -1)
		}
		if !holds(0) {
			delete(out, 0)
		}
		if !any(1) {
			delete(out, 1)
		}
	}
	return out
}

// amountOf: the number counted by is the parameter, or one when none is given.
func amountOK(st *eng.State, t *eng.Term, neg bool) bool {
	d, ok := durOf(st, t)
	if !ok {
		return false
	}
	s := int64(1)
	if neg {
		s = -1
	}
	for k := range signs(st) {
		want := dur{k: s}
		if k == 2 {
			want = dur{c: s}
		}
		if d != want {
			return false
		}
	}
	return true
}

func (v *cacheEnv) main(r *cacheRun, kinds ...string) *cop {
	var m *cop
	for _, o := range r.ops {
		for _, k := range kinds {
			if o.kind == k {
				m = o
			}
		}
	}
	return m
}

var cacheMethods = map[string][]string{"Get": {"get"}, "Set": {"set"}, "Touch": {"touch"}, "Delete": {"delete"}, "Incr": {"incr"}, "Decr": {"decr", "incr"}, "Has": {"get", "exists"}, "Clean": {"clean"}}

var cacheNames = []string{"Get", "Set", "Touch", "Delete", "Incr", "Decr", "Has", "Clean"}

func c17(c *Ctx) {
	v := c.cacheEnv()
	u := c.U
	for _, name := range cacheNames {
		for _, r := range v.runs(name) {
			st, x := r.st, r.x
			n := 0
			for _, o := range r.ops {
				switch o.kind {
				case "conn", "refused":
					continue
				}
				want := false
				for _, k := range cacheMethods[name] {
					want = want || o.kind == k
				}
				if !c.On(st, want, "operation", r.con, o.e.Pos, "the server is asked for something else: %s", o.e.String()) {
					continue
				}
				n++
				c.On(st, o.key, "key", r.con, o.e.Pos, "the operation is not on the entry of the key given: %s", o.e.String())
				switch name {
				case "Set":
					val := bare(orNil(o.val, u))
					given := st.Params()[2]
					str := val.Op == eng.OPure && val.Sym == v.toStr && bare(val.Args[0]) == bare(given)
					c.On(st, str || r.srv == "mgo" && val == bare(given), "value", r.con, o.e.Pos, "the value stored is not the one given: %v", val)
				case "Incr":
					c.On(st, amountOK(st, o.amount, false), "amount", r.con, o.e.Pos, "the number is not raised by the amount given, or by one: %v", o.amount)
				case "Decr":
					c.On(st, amountOK(st, o.amount, o.kind == "incr"), "amount", r.con, o.e.Pos, "the number is not lowered by the amount given, or by one: %v", o.amount)
				}
			}
			c.On(st, n <= 1, "operation", r.con, x.Pos, "more than one operation on the server")
			if name == "Get" && st.IsNil(x.Results[1]) == 1 {
				m := v.main(r, "get")
				val := bare(x.Results[0])
				ok := m != nil
				if ok {
					switch r.srv {
					case "mgo":
						if val.Op == eng.OPure && val.Sym == v.toStr {
							cell := cellOf(bare(val.Args[0]))
							ok = cell != nil && cell.Op == eng.OMAddr && readOf(cell.Args[0], m.answer) && fieldOf(bare(cell.Args[1])) == v.valF
						} else {
							ok = false
						}
					case "mc":
						cell := cellOf(val)
						ok = cell != nil && cell == u.FAddr(resAt(st, m.e, 0), v.itemVal)
					default:
						ok = val == m.answer
					}
				}
				c.On(st, ok, "answer", r.con, x.Pos, "what is handed back is not what was stored: %v", val)
			}
			// connections
			var conn *cop
			for _, o := range r.ops {
				if o.kind == "conn" {
					c.On(st, conn == nil, "connection", r.con, o.e.Pos, "two connections are taken")
					conn = o
				}
			}
			if conn != nil {
				h := resAt(st, conn.e, 0)
				got := st.IsNil(conn.err)
				puts, last := 0, -1
				for i, e := range st.Trace {
					if e.Kind != "call" {
						continue
					}
					if e.Name == redisPool+"Put" && e.Args[0] == h {
						puts++
						last = i
					} else if e.Recv == h || eng.Any(u.Opaque("a", nil, e.Args...), func(t *eng.Term) bool { return t == h }) {
						c.On(st, got == 1, "connection", r.con, e.Pos, "a connection is used that could not be taken")
						c.On(st, last < 0, "connection", r.con, e.Pos, "a connection is used after it was given back")
					}
				}
				c.On(st, puts == 1 && got != 0 || got == 0 && puts == 0, "connection", r.con, x.Pos, "a connection taken from the pool is given back %d times", puts)
			}
		}
	}
	for rule, n := range map[string]int{"operation": 24, "key": 20, "value": 3, "amount": 6, "answer": 3, "connection": 14} {
		c.Min(rule, n)
	}
}

// sentinel: what is known about the error being that of an absent key.
func (v *cacheEnv) absent(st *eng.State, err *eng.Term) int {
	if st.IsNil(err) == 1 {
		return 0
	}
	is := func(t *eng.Term) bool {
		t = bare(t)
		if t.Op != eng.OLoad || t.Args[0].Op != eng.OGlobal {
			return false
		}
		return hasSuffix(t.Args[0].Sym, "memcache.ErrCacheMiss", "mgo.ErrNotFound", "redis.ErrRespNil")
	}
	return hasFact(st, func(t *eng.Term) bool {
		if t.Op == eng.OBin && t.Sym == "eq" {
			return t.Args[0] == err && is(t.Args[1]) || t.Args[1] == err && is(t.Args[0])
		}
		return callTerm(t, "errors.Is") && bare(t.Args[0]) == err && is(t.Args[1])
	})
}

func c18(c *Ctx) {
	v := c.cacheEnv()
	u := c.U
	for _, name := range cacheNames {
		for _, r := range v.runs(name) {
			st, x := r.st, r.x
			res := x.Results[len(x.Results)-1]
			m := v.main(r, cacheMethods[name]...)
			missed := c.isVar(res, "caches", "ErrMissedKey")
			// a failure before the operation
			failed := false
			for _, o := range r.ops {
				if o.kind != "conn" && o.kind != "refused" {
					continue
				}
				if st.IsNil(o.err) == 1 {
					continue
				}
				failed = true
				if v.absent(st, o.err) == 1 && o.kind == "refused" {
					continue // the caller's own not-found error
				}
				c.On(st, st.IsNil(o.err) == 0 && res == o.err && m == nil, "failure", r.con, x.Pos, "a failure to reach the server is not handed back: %v", res)
			}
			if failed {
				if name == "Has" {
					c.On(st, !x.Results[0].IsTrue(), "failure", r.con, x.Pos, "a key is reported after a failure")
				}
				continue
			}
			if m == nil {
				c.On(st, false, "operation", r.con, x.Pos, "the server is not asked")
				continue
			}
			err := m.err
			if !c.On(st, err != nil, "failure", r.con, x.Pos, "the outcome of the operation is not looked at") {
				continue
			}
			gone := v.absent(st, err)
			switch name {
			case "Set", "Clean":
				c.On(st, !missed, "failure", r.con, x.Pos, "a failure is handed back as a missed key")
				c.On(st, res == err || st.IsNil(err) == 1 && st.IsNil(res) == 1 || st.IsNil(err) == 0 && reports(st, res, err), "failure", r.con, x.Pos, "a failure is not handed back: %v", res)
				continue
			case "Has":
				v.has(r, m)
				continue
			}
			counted := m.count != nil && (name == "Touch" || name == "Delete")
			none := false // the server says that no key was there
			if counted {
				eq := st.EqTerms(m.count, u.Int(0))
				if eq < 0 { // a count is never negative
					switch st.EvalTerm(u.Lt(u.Int(0), m.count)) {
					case 1:
						eq = 0
					case 0:
						eq = 1
					}
				}
				none = eq == 1
				if st.IsNil(err) == 1 {
					c.On(st, eq >= 0, "missing", r.con, x.Pos, "it is not looked at whether the key was there")
				}
			} else if r.srv == "redis" && (name == "Touch" || name == "Delete") {
				c.On(st, false, "missing", r.con, x.Pos, "it is not looked at whether the key was there")
			}
			switch {
			case gone == 1:
				c.On(st, missed, "missing", r.con, x.Pos, "an absent key is not reported as missed: %v", res)
			case st.IsNil(err) == 1 && none:
				c.On(st, missed, "missing", r.con, x.Pos, "an absent key is not reported as missed: %v", res)
			case st.IsNil(err) == 0:
				c.On(st, (gone == 0 || r.srv == "redis" && (name == "Incr" || name == "Decr")) && (res == err || reports(st, res, err)) && !missed, "failure", r.con, x.Pos, "a failure of the server is not handed back as it is: %v", res)
			case st.IsNil(err) == 1 && name == "Get" && r.srv == "mgo":
				fresh := v.unexpired(st, m)
				switch {
				case missed:
					c.On(st, fresh == 0, "expired", r.con, x.Pos, "an entry is reported as missed that is there and has not expired")
				default:
					c.On(st, fresh == 1 && st.IsNil(res) == 1, "expired", r.con, x.Pos, "an entry is handed back that was not found to be within its time")
				}
			case st.IsNil(err) == 1:
				c.On(st, st.IsNil(res) == 1, "missing", r.con, x.Pos, "a failure is reported although there was none: %v", res)
			default: // failure and success not told apart
				c.On(st, gone == 0 && res == err && (name != "Get"), "failure", r.con, x.Pos, "an absent key is not told from a failure: %v", res)
			}
			if name == "Get" && st.IsNil(res) != 1 {
				s, ok := bare(x.Results[0]).StrVal()
				c.On(st, ok && s == "" || bare(x.Results[0]).Op == eng.OZero, "failure", r.con, x.Pos, "a value is handed back together with an error")
			}
		}
	}
	for rule, n := range map[string]int{"failure": 30, "missing": 12, "expired": 3, "presence": 8} {
		c.Min(rule, n)
	}
}

// unexpired: the entry found has a value and was found to be within its time
// (1), or was found not to be (0).
func (v *cacheEnv) unexpired(st *eng.State, m *cop) int {
	inMap := func(t *eng.Term, f *types.Var) bool { // entry of the field
		return t.Op == eng.OMAddr && readOf(t.Args[0], m.answer) && fieldOf(bare(t.Args[1])) == f
	}
	exp := func(t *eng.Term) bool {
		if t == nil {
			return false
		}
		for t.Op == eng.OTA || t.Op == eng.OExtract || t.Op == eng.OIface {
			t = t.Args[0]
		}
		cell := cellOf(t)
		return cell != nil && inMap(cell, v.expF)
	}
	in, val := -1, -1
	for _, l := range st.Facts() {
		t := l.T
		switch {
		case callTerm(t, "(time.Time).Before") && isNow(t.Args[0]) && exp(t.Args[1]):
			in = b2i(!l.Neg)
		case callTerm(t, "(time.Time).After") && isNow(t.Args[0]) && exp(t.Args[1]):
			in = b2i(l.Neg)
		case callTerm(t, "(time.Time).After") && isNow(t.Args[1]) && exp(t.Args[0]):
			in = b2i(!l.Neg)
		case callTerm(t, "(time.Time).Before") && isNow(t.Args[1]) && exp(t.Args[0]):
			in = b2i(l.Neg)
		case t.Op == eng.OIs && exp(t.Args[0]) && l.Neg:
			return 0
		case t.Op == eng.OMOk && readOf(t.Args[0], m.answer) && (fieldOf(bare(t.Args[1])) == v.valF):
			val = b2i(!l.Neg)
		case t.Op == eng.OMOk && readOf(t.Args[0], m.answer) && (fieldOf(bare(t.Args[1])) == v.expF) && l.Neg:
			return 0
		case t.Op == eng.OBin && t.Sym == "eq" && !l.Neg && (t.Args[0].IsNil() && readOf(t.Args[1], m.answer) || t.Args[1].IsNil() && readOf(t.Args[0], m.answer)):
			return 0
		}
	}
	if in == 0 || val == 0 {
		return 0
	}
	return in
}

func (v *cacheEnv) has(r *cacheRun, m *cop) {
	c := v.c
	u := c.U
	st, x := r.st, r.x
	has, res := x.Results[0], x.Results[1]
	err := m.err
	gone := v.absent(st, err)
	c.On(st, !c.isVar(res, "caches", "ErrMissedKey"), "presence", r.con, x.Pos, "asking for an absent key fails")
	if gone < 0 && st.IsNil(err) != 1 && r.srv != "redis" {
		c.On(st, false, "presence", r.con, x.Pos, "an absent key is not told from a failure")
	}
	if gone == 1 {
		c.On(st, st.IsNil(res) == 1 && (has.IsFalse() || st.EvalTerm(has) == 0 || m.count != nil), "presence", r.con, x.Pos, "an absent key is reported, or asking for it fails")
		return
	}
	c.On(st, res == err || st.IsNil(err) == 1 && st.IsNil(res) == 1 || st.IsNil(err) == 0 && reports(st, res, err), "failure", r.con, x.Pos, "a failure is not handed back: %v", res)
	if st.IsNil(err) == 0 {
		c.On(st, has.IsFalse() || st.EvalTerm(has) == 0 || m.count != nil, "failure", r.con, x.Pos, "a key is reported after a failure")
		return
	}
	ok := false
	switch {
	case m.count != nil:
		// 1 or 0 keys
		one := u.Canon(u.Eq(m.count, u.Int(1)))
		zero := u.Canon(u.Eq(m.count, u.Int(0)))
		pos := u.Canon(u.Lt(u.Int(0), m.count))
		h := u.Canon(has)
		ok = h == one || h == zero.Not() || h == pos ||
			has.IsTrue() && (st.Eval(one) == 1 || st.Eval(zero) == 0 || st.Eval(pos) == 1) || has.IsFalse() && (st.Eval(one) == 0 || st.Eval(zero) == 1 || st.Eval(pos) == 0)
	case r.srv == "mgo":
		f := v.unexpired(st, m)
		if has.Op == eng.OMOk {
			ok = f == 1 && readOf(has.Args[0], m.answer) && fieldOf(bare(has.Args[1])) == v.valF
		} else {
			ok = has.IsTrue() && f == 1 || has.IsFalse() && f == 0
		}
	default:
		h := u.Canon(has)
		ok = h == u.Canon(u.EqNil(err)) || st.EvalTerm(has) >= 0 && st.EvalTerm(has) == st.IsNil(err)
	}
	c.On(st, ok, "presence", r.con, x.Pos, "what is reported is not whether the key is there: %v", has)
}

func c19(c *Ctx) {
	v := c.cacheEnv()
	u := c.U
	def := int64(0)
	if k, ok := c.P.Pkg("caches").Pkg.Scope().Lookup("DefaultTimeout").(*types.Const); ok {
		def, _ = constant.Int64Val(k.Val())
	}
	c.Need(def > 0, "default lifetime")
	const sec, year = int64(1000000000), int64(365 * 24 * 3600 * 1000000000)
	const month = int64(30 * 24 * 3600)
	for _, name := range []string{"Set", "Touch"} {
		for _, r := range v.runs(name) {
			st := r.st
			m := v.main(r, cacheMethods[name]...)
			if m == nil {
				continue
			}
			d, ok := dur{}, false
			switch {
			case m.noTTL:
				ok = true
			case m.abs:
				d, ok = durOf(st, m.ttl)
			default:
				d, ok = secsOf(st, m.ttl)
			}
			if !c.On(st, ok, "lifetime", r.con, m.e.Pos, "the lifetime is not computed from the one given: %v", m.ttl) {
				continue
			}
			never := m.noTTL || r.srv == "mc" && !m.abs && d == dur{} || d.k == 0 && d.c >= year && (r.srv == "mgo" || r.srv == "redis")
			for s := range signs(st) {
				switch s {
				case 1:
					c.On(st, !m.noTTL && d == dur{k: sec}, "lifetime", r.con, m.e.Pos, "a lifetime of n seconds becomes %d*n+%d nanoseconds (none: %v)", d.k, d.c, m.noTTL)
				case -1:
					c.On(st, never, "lifetime", r.con, m.e.Pos, "an entry without a lifetime gets one: %d*n+%d nanoseconds", d.k, d.c)
				default:
					c.On(st, !m.noTTL && d == dur{c: def}, "lifetime", r.con, m.e.Pos, "an entry does not get the default lifetime but %d*n+%d nanoseconds (none: %v)", d.k, d.c, m.noTTL)
				}
			}
			// memcache: more than 30 days are an absolute time
			if r.srv == "mc" && !never {
				long := -1 // is it known to be longer, 0: not longer
				if d.k == 0 {
					long = b2i(d.c > month*sec)
				}
				for _, l := range st.Facts() {
					t := l.T
					if t.Op != eng.OBin || t.Sym != "lt" || d.k == 0 {
						continue
					}
					for i := 0; i < 2; i++ {
						k, isC := t.Args[i].IntVal()
						if !isC {
							continue
						}
						q, ok := durOf(st, t.Args[1-i])
						unit := int64(1)
						if !ok || q.k == 0 {
							q, ok = secsOf(st, t.Args[1-i])
							unit = sec
						} else if q.k == 1 {
							q, unit = dur{sec, q.c * sec}, sec
						}
						if !ok || q != d || unit == 1 && k%sec != 0 {
							continue
						}
						bound := k
						if unit == 1 {
							bound = k / sec
						}
						// i == 0: bound < life;  i == 1: life < bound
						switch {
						case i == 0 && !l.Neg && bound >= month:
							long = 1
						case i == 0 && l.Neg && bound <= month:
							long = 0
						case i == 1 && !l.Neg && bound <= month+1:
							long = 0
						case i == 1 && l.Neg && bound > month:
							long = 1
						case i == 0 && !l.Neg && bound > 0 && bound < month && m.abs:
							long = 1 // an absolute time is right for any lifetime
						}
					}
				}
				c.On(st, m.abs && long != 0 || m.abs || long == 0, "encoding", r.con, m.e.Pos, "a lifetime that may exceed 30 days is not handed over as an absolute time")
			}
			if m.expireAt != nil {
				c.On(st, fromNow(m.expireAt) != nil, "encoding", r.con, m.e.Pos, "the end of the lifetime is not counted from now: %v", m.expireAt)
			}
		}
	}
	// collection
	for _, r := range v.runs("GC") {
		st := r.st
		for _, o := range r.ops {
			if o.kind == "refused" {
				c.On(st, r.x.Results[0] == o.err, "collection", r.con, r.x.Pos, "a failure is not handed back")
				continue
			}
			c.On(st, o.kind == "gc", "collection", r.con, o.e.Pos, "something else than the entries past their time is collected: %s", o.e.String())
			c.On(st, r.x.Results[0] == o.err || st.IsNil(o.err) == 1 || reports(st, r.x.Results[0], o.err), "collection", r.con, r.x.Pos, "a failure is not handed back")
		}
		if len(r.ops) == 0 {
			auto := hasFact(st, func(t *eng.Term) bool { return fieldOf(t) == v.autoF })
			c.On(st, r.srv != "mgo" && (auto == 1 || auto < 0) && st.IsNil(r.x.Results[0]) == 1, "collection", r.con, r.x.Pos, "entries past their time are not collected")
		}
	}
	// entries past their time
	for _, r := range v.runs("Get") {
		if r.srv != "mgo" || r.st.IsNil(r.x.Results[1]) != 1 {
			continue
		}
		if m := v.main(r, "get"); m != nil {
			c.On(r.st, v.unexpired(r.st, m) == 1, "expiry", r.con, r.x.Pos, "an entry is handed back that was not found to be within its time")
		}
	}
	// the index that lets the server collect
	f := c.Fn("caches", "NewMgoProvider")
	pk := c.P.TPkg("github.com/globalsign/mgo")
	c.Need(pk != nil, "package mgo")
	idx := structOf(pk.Scope().Lookup("Index").Type())
	fv := map[string]*types.Var{}
	for i := 0; i < idx.NumFields(); i++ {
		fv[idx.Field(i).Name()] = idx.Field(i)
	}
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
		Callback: func(st *eng.State, e *eng.Event) int {
			if e.Callee == nil && len(e.Args) == 1 {
				return 0
			}
			return -1
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "call" && e.Name == mgoColl+"EnsureIndex" {
				ks, _ := st.Elems(u.Field(e.Args[0], fv["Key"]))
				e.Val = u.Opaque("index", nil, u.Field(e.Args[0], fv["Unique"]), u.Field(e.Args[0], fv["ExpireAfter"]), u.Opaque("keys", nil, ks...))
			}
			return e.Kind == "call"
		}})
	n := 0
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		con := eng.FuncName(f)
		if bare(x.Results[0]).IsNil() {
			c.On(st, st.IsNil(x.Results[1]) != 1, "index", con, x.Pos, "no store is made, but no failure reported")
			continue
		}
		n++
		keyed, timed := false, false
		auto := hasFact(st, func(t *eng.Term) bool {
			return t.Op == eng.OField && t.Obj == v.autoF || fieldOf(t) == v.autoF
		})
		for _, e := range calls2(st) {
			err := errOf(st, e)
			if err != nil && e.Tag != "refused" {
				c.On(st, st.IsNil(err) == 1, "index", con, e.Pos, "a store is made although preparing it failed")
			}
			if e.Name != mgoColl+"EnsureIndex" || e.Val == nil {
				continue
			}
			uniq, after, keys := e.Val.Args[0], e.Val.Args[1], e.Val.Args[2].Args
			if len(keys) != 1 {
				continue
			}
			kf := fieldOf(keys[0])
			if kf == nil && keys[0].Op == eng.OField {
				kf, _ = keys[0].Obj.(*types.Var)
			}
			secs, isC := after.IntVal()
			if after.Op == eng.OZero {
				secs, isC = 0, true
			}
			switch kf {
			case v.keyF:
				keyed = uniq.IsTrue()
				c.On(st, isC && secs == 0, "index", con, e.Pos, "entries expire by the index of the key")
			case v.expF:
				timed = true
				c.On(st, isC && (auto == 1) == (secs > 0) && auto >= 0 && !uniq.IsTrue(), "index", con, e.Pos, "whether the server collects entries is not what is configured: %v", after)
			}
		}
		isID := eqFact(st, func(t *eng.Term) bool { return t.Op == eng.OField && t.Obj == v.keyF || fieldOf(t) == v.keyF }, isStrFn("_id"))
		c.On(st, (keyed || isID == 1) && timed, "index", con, x.Pos, "there is no unique index of the key, or none of the time")
	}
	c.Check(n > 0, "anchor", "store of cached values", f.Pos(), "no store is made")
	for rule, k := range map[string]int{"lifetime": 18, "encoding": 6, "collection": 3, "expiry": 1, "index": 3} {
		c.Min(rule, k)
	}
}
