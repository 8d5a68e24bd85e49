package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26",
		"Path analysis of every logging method down to the printer: the facts about both levels on each path decide whether it must print, the text handed to the printer is decomposed into the tag, the prefix and the message as terms over the parameters, and flat lines must pass the replacement of line breaks as the last step. Recover is analysed for a panicking and a returning function.",
		"printers that fail; levels outside the eight defined ones; carriage returns; how a prefix parser behaves",
		c26)
}

var logLevels = map[string]string{"Emergency": "LevelEmergency", "Alert": "LevelAlert", "Critcial": "LevelCritical", "Error": "LevelError",
	"Warn": "LevelWarning", "Notice": "LevelNotice", "Info": "LevelInformational", "Debug": "LevelDebug"}

type logModel struct {
	c                                                    *Ctx
	base                                                 *types.Named
	out, level, prefix, color, line, flat, stack, parser *types.Var
	native                                               *types.Var
	depth                                                *types.Var
}

func (c *Ctx) logs() *logModel {
	m := &logModel{c: c}
	adv := c.Type("", "LoggerAdv").Underlying().(*types.Interface)
	printer := c.Type("", "LogPrinter")
	for _, t := range c.Impls("", adv) {
		s := structOf(t)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), printer) {
				c.Need(m.base == nil || m.base == t, "one basic logger")
				m.base, m.out = t, s.Field(i)
			}
		}
	}
	c.Need(m.base != nil, "the basic logger")
	set := func(name string) *types.Var {
		f := c.Meth(m.base, name)
		var fv *types.Var
		for _, x := range c.Run(f, &eng.Options{Exact: true, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "store" }}).Exits {
			n := 0
			for _, e := range x.St.Trace {
				if isFieldOf(e.Addr, x.St.Recv(), fieldOf(e.Addr)) {
					fv = fieldOf(e.Addr)
					c.On(x.St, e.Val == x.St.Params()[1], "setting", eng.FuncName(f), e.Pos, "the setting is not what was given: %v", e.Val)
					n++
				}
			}
			c.On(x.St, n == 1, "setting", eng.FuncName(f), x.Pos, "a setting is not set")
		}
		c.Need(fv != nil, "the setting of "+name)
		return fv
	}
	m.level, m.prefix, m.color, m.line, m.flat, m.stack, m.parser = set("SetLevel"), set("SetPrefix"), set("SetColorMode"), set("SetLineInfo"), set("SetFlatLine"), set("EnableLogStack"), set("SetPrefixParser")
	m.depth = set("SetFuncDepth")
	seen := map[*types.Var]string{}
	for n, f := range map[string]*types.Var{"level": m.level, "prefix": m.prefix, "color": m.color, "line": m.line, "flat": m.flat, "stack": m.stack, "parser": m.parser, "depth": m.depth} {
		c.Check(seen[f] == "", "setting", f.Name(), f.Pos(), "two settings share a field")
		seen[f] = n
	}
	return m
}

// devirt: what the basic logger calls on itself through an interface is its own.
func (m *logModel) devirt(st *eng.State, recv *eng.Term, meth *types.Func) *ssa.Function {
	f := fieldOf(bare(recv))
	if f == nil {
		return nil
	}
	if _, ok := f.Type().Underlying().(*types.Interface); !ok || !types.Implements(types.NewPointer(m.base), f.Type().Underlying().(*types.Interface)) {
		return nil
	}
	if f == m.out {
		return nil
	}
	g := m.c.P.NamedMethod(types.NewPointer(m.base), meth.Name())
	if g != nil && m.c.P.HasBody(g) {
		return g
	}
	return nil
}

func (m *logModel) opts() *eng.Options {
	return &eng.Options{Exact: true, CutAt: cutAll, Devirt: m.devirt,
		Pure:   func(n string) bool { return n == "runtime.Caller" },
		Inline: func(g *ssa.Function) bool { return !loops(g) },
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "call" && e.Name == "runtime.Caller" {
				st.SetVar("frames", st.U.Int(int64(len(st.Frames()))))
				e.Val = st.U.Int(int64(len(st.Frames())))
			}
			return e.Kind == "call" || e.Kind == "recover"
		}}
}

// of: t is (a read of) a field of the logger itself.
func (m *logModel) of(t, recv *eng.Term, f *types.Var) bool {
	if t == nil || fieldOf(t) != f {
		return false
	}
	b := t.Args[0]
	if t.Op == eng.OLoad {
		b = t.Args[0].Args[0]
	}
	return m.self(b, recv)
}

// self: t is the logger, perhaps by the interface it calls itself through.
func (m *logModel) self(t, recv *eng.Term) bool {
	t = bare(t)
	if t == recv {
		return true
	}
	f := fieldOf(t)
	if f == nil || f == m.out || t.Op != eng.OLoad {
		return false
	}
	it, ok := f.Type().Underlying().(*types.Interface)
	return ok && types.Implements(types.NewPointer(m.base), it) && m.self(t.Args[0].Args[0], recv)
}

// lvl: the term compared is one of the two levels.
func (m *logModel) lvl(t *eng.Term) string {
	t = bare(t)
	if fieldOf(t) == m.level {
		return "own"
	}
	if m.c.isVar(t, "", "GlobalLevel") {
		return "global"
	}
	return ""
}

// admits: what the facts say about the level given and one of the two: 1 it
// is to be printed, 0 not, -1 unknown.
func (m *logModel) admits(st *eng.State, which string, k *eng.Term) int {
	for _, l := range st.Facts() {
		t := l.T
		if t.Op != eng.OBin || t.Sym != "lt" {
			continue
		}
		off := func(a, b *eng.Term) (int64, bool) { // a = b + off
			d := eng.Lin(m.c.U.Bin("-", a, b, types.Typ[types.Int]))
			return d.C, len(d.Coeff) == 0
		}
		if m.lvl(t.Args[0]) == which { // level < x
			if o, ok := off(t.Args[1], k); ok {
				switch {
				case o == 0 || l.Neg && o > 0 && false:
					return b2i(l.Neg)
				}
			}
		}
		if m.lvl(t.Args[1]) == which { // x < level
			if o, ok := off(t.Args[0], k); ok && o == -1 {
				return b2i(!l.Neg)
			}
		}
	}
	return -1
}

type logLine struct {
	flat, trimmed bool
	parts         []*eng.Term
	tag           *eng.Term // index of the tag
	colored       *eng.Term // index of the colour
}

func (m *logModel) lineOf(st *eng.State, t *eng.Term) *logLine {
	l := &logLine{}
	t = bare(t)
	for {
		if callTerm(t, "strings.ReplaceAll") || callTerm(t, "strings.Replace") {
			n := int64(-1)
			if len(t.Args) == 4 {
				n, _ = t.Args[3].IntVal()
			}
			nl, ok1 := t.Args[1].StrVal()
			by, ok2 := t.Args[2].StrVal()
			if !ok1 || !ok2 || nl != "\n" || strings.Contains(by, "\n") || n >= 0 {
				break
			}
			l.flat = true
			t = bare(t.Args[0])
			continue
		}
		if callTerm(t, "strings.TrimSuffix") || callTerm(t, "strings.TrimRight") {
			if nl, ok := t.Args[1].StrVal(); ok && nl == "\n" {
				l.trimmed = true
				t = bare(t.Args[0])
				continue
			}
		}
		break
	}
	var flatten func(t *eng.Term)
	flatten = func(t *eng.Term) {
		for _, p := range parts(t) {
			hit := false
			for _, e := range st.Trace {
				if e.Kind == "call" && e.Res == p && e.Fn != nil && len(e.Args) == 1 {
					if b, i, ok := index(bare(e.Fn)); ok && b.Op == eng.OGlobal && hasSuffix(b.Sym, ".DefaultColors") {
						l.colored = i
						flatten(e.Args[0])
						hit = true
					}
				}
			}
			if !hit {
				l.parts = append(l.parts, p)
			}
		}
	}
	flatten(t)
	if len(l.parts) > 0 {
		if b, i, ok := index(l.parts[0]); ok && b.Op == eng.OGlobal && hasSuffix(b.Sym, ".DefaultLevelTag") {
			l.tag = i
		}
	}
	return l
}

func (m *logModel) isIdx(t, level *eng.Term) bool {
	if t == nil {
		return false
	}
	d := eng.Lin(m.c.U.Bin("-", level, t, types.Typ[types.Int]))
	return d.C == 1 && len(d.Coeff) == 0
}

// printed checks one line handed to the printer.
func (m *logModel) printed(st *eng.State, con string, e *eng.Event, level *eng.Term, recv *eng.Term, msg func(t *eng.Term) bool) {
	c := m.c
	args := e.Args
	if len(args) == 1 && args[0].Op == eng.OBuiltin && args[0].Sym == "slicelit" {
		args = args[0].Args
	}
	if !c.On(st, len(args) == 1, "line", con, e.Pos, "more than the line is printed") {
		return
	}
	l := m.lineOf(st, args[0])
	c.On(st, m.isIdx(l.tag, level), "tag", con, e.Pos, "the line does not begin with the tag of its level: %v", args[0])
	color := hasFact(st, func(t *eng.Term) bool { return m.of(t, recv, m.color) && t.Op == eng.OLoad })
	c.On(st, color >= 0 && (color == 1) == (l.colored != nil) && (l.colored == nil || m.isIdx(l.colored, level)), "tag", con, e.Pos, "the colour is not that of the level, or not as set")
	flat := hasFact(st, func(t *eng.Term) bool { return m.of(t, recv, m.flat) && t.Op == eng.OLoad })
	c.On(st, flat >= 0 && (flat == 1) == l.flat && (l.flat || !l.trimmed), "flat", con, e.Pos, "whether the line is kept flat is not as set: %v", args[0])
	pre, at := -1, -1
	for i, p := range l.parts {
		if m.of(p, recv, m.prefix) && p.Op == eng.OLoad {
			c.On(st, pre < 0, "prefix", con, e.Pos, "the prefix is printed twice")
			pre = i
		}
		if msg(p) {
			c.On(st, at < 0, "message", con, e.Pos, "the message is printed twice")
			at = i
		}
	}
	c.On(st, pre == 1, "prefix", con, e.Pos, "the prefix does not follow the tag: %v", args[0])
	c.On(st, at > pre, "message", con, e.Pos, "the message is missing: %v", args[0])
	// what a prefix parser gave
	for _, y := range st.Trace {
		if y.Kind == "call" && y.Fn != nil && fieldOf(bare(y.Fn)) == m.parser {
			has := false
			for i, p := range l.parts {
				has = has || i > pre && i < at && p == resAt(st, y, 0)
			}
			c.On(st, has, "prefix", con, e.Pos, "what the prefix parser gave is not printed")
		}
	}
	// position
	line := hasFact(st, func(t *eng.Term) bool { return m.of(t, recv, m.line) && t.Op == eng.OLoad })
	for _, y := range st.Trace {
		if y.Kind != "call" || y.Name != "runtime.Caller" {
			continue
		}
		c.On(st, line == 1, "position", con, y.Pos, "the position is printed although it is not asked for")
		// the depth set counts the calls between the method and here
		d := eng.Lin(bare(y.Args[0]))
		n, _ := y.Val.IntVal()
		ok := false
		for t, k := range d.Coeff {
			if k == 1 && m.of(t, recv, m.depth) {
				ok = true
			} else if !(k == 1 && eng.Any(t, func(z *eng.Term) bool { return z.Op == eng.OTA })) {
				ok = false
				break
			}
		}
		def, isDef := m.defDepth()
		c.On(st, ok && isDef && d.C+def == n, "position", con, y.Pos, "the position printed is not that of the caller: depth %d+%d, %d calls", d.C, def, n)
	}
}

// defDepth is the depth a new logger has.
func (m *logModel) defDepth() (int64, bool) {
	c := m.c
	f := c.Fn("", "NewLogger")
	r := eng.Run(f, &eng.Options{Exact: true, Prog: c.P, Event: func(*eng.State, *eng.Event) bool { return false }})
	for _, x := range r.Exits {
		if x.Kind == "return" {
			return bare(x.St.Load(c.U.FAddr(bare(x.Results[0]), m.depth))).IntVal()
		}
	}
	return 0, false
}

func c26(c *Ctx) {
	m := c.logs()
	u := c.U
	level := func(name string) *eng.Term {
		k, ok := c.P.Pkg("").Pkg.Scope().Lookup(name).(*types.Const)
		c.Need(ok, "level "+name)
		return u.ConstV(k.Val(), k.Type())
	}
	itf := c.Type("", "Logger").Underlying().(*types.Interface)
	for i := 0; i < itf.NumMethods(); i++ {
		name := itf.Method(i).Name()
		format := strings.HasSuffix(name, "f")
		lv, ok := logLevels[strings.TrimSuffix(name, "f")]
		if !ok {
			continue
		}
		k := level(lv)
		f := c.Meth(m.base, name)
		con := eng.FuncName(f)
		for _, x := range c.Run(f, m.opts()).Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			recv := st.Recv()
			var prints []*eng.Event
			for _, e := range st.Trace {
				if e.Kind == "call" && e.Recv != nil && m.of(bare(e.Recv), recv, m.out) {
					prints = append(prints, e)
				}
			}
			own, global := m.admits(st, "own", k), m.admits(st, "global", k)
			if len(prints) == 0 {
				c.On(st, own == 0 || global == 0, "level", con, x.Pos, "a message is dropped that both levels admit")
				continue
			}
			c.On(st, own == 1 && global == 1, "level", con, x.Pos, "a message is printed although a level may not admit it")
			c.On(st, len(prints) == 1, "line", con, x.Pos, "a message is printed %d times", len(prints))
			v := st.Params()[len(st.Params())-1]
			m.printed(st, con, prints[0], k, recv, func(t *eng.Term) bool { return m.message(st, t, v, format) })
		}
	}
	// Recover
	rec := c.Meth(m.base, "Recover")
	con := eng.FuncName(rec)
	o := m.opts()
	o.Inline = func(g *ssa.Function) bool { return false }
	o.Inline = func(g *ssa.Function) bool { return outer(g) == rec || eng.FuncName(g) == con }
	o.MayPanic = func(st *eng.State, e *eng.Event) bool {
		return e.Kind == "call" && e.Callee == nil && e.Fn != nil && len(st.Params()) > 1 && e.Fn == st.Params()[1]
	}
	n := map[bool]int{}
	for _, x := range c.Run(rec, o).Exits {
		st := x.St
		called := 0
		var logged []*eng.Event
		for _, e := range st.Trace {
			if e.Kind != "call" {
				continue
			}
			if e.Fn == st.Params()[1] {
				called++
				c.On(st, len(logged) == 0, "recover", con, e.Pos, "something is logged before the function ran")
			} else if e.Recv == st.Recv() || e.Recv != nil && fieldOf(bare(e.Recv)) != nil && bare(e.Recv).Args[0] != nil {
				logged = append(logged, e)
			}
		}
		c.On(st, x.Kind == "return", "recover", con, x.Pos, "a panic is not caught")
		if x.Kind != "return" {
			continue
		}
		c.On(st, called == 1, "recover", con, x.Pos, "the function is called %d times", called)
		var got *eng.Term
		for _, e := range st.Trace {
			if e.Kind == "recover" {
				got = e.Res
			}
		}
		isNil := 1
		if got != nil {
			isNil = st.IsNil(got)
		}
		n[isNil == 1]++
		if isNil == 1 {
			c.On(st, bare(x.Results[0]).IsNil() || st.IsNil(x.Results[0]) == 1, "recover", con, x.Pos, "something is reported although nothing panicked: %v", x.Results[0])
			c.On(st, len(logged) == 0, "recover", con, x.Pos, "something is logged although nothing panicked")
			continue
		}
		c.On(st, x.Results[0] == got || reports2(st, x.Results[0], got), "recover", con, x.Pos, "what is handed back is not what was panicked with: %v", x.Results[0])
		if c.On(st, len(logged) == 1, "recover", con, x.Pos, "a panic is logged %d times", len(logged)) {
			e := logged[0]
			var va []*eng.Term
			if len(e.Args) > 0 {
				va, _ = st.Elems(e.Args[len(e.Args)-1])
			}
			if f := e.Callee; f == nil {
				va = nil
			}
			has, stack := false, false
			for _, a := range va {
				has = has || bare(a) == got
				a = bare(a)
				if a.Typ != nil && strings.HasSuffix(a.Typ.String(), ".LineOpt") {
					s := structOf(a.Typ)
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == "Stack" {
							stack = u.Field(a, s.Field(i)).IsTrue()
						}
					}
				}
			}
			c.On(st, has, "recover", con, e.Pos, "what was panicked with is not logged: %s", e.String())
			c.On(st, stack, "recover", con, e.Pos, "a panic is logged without the stack")
			given := st.EqTerms(u.Len(st.Params()[2]), u.Int(0))
			if given < 0 {
				given = b2i(st.EvalTerm(u.Lt(u.Int(0), u.Len(st.Params()[2]))) == 0)
			}
			if given == 1 {
				c.On(st, hasSuffix(e.Name, ".Error") || len(e.Args) > 0 && e.Args[0] == level("LevelError"), "recover", con, e.Pos, "a panic is not logged as an error: %s", e.String())
			} else {
				b, i, ok := (*eng.Term)(nil), (*eng.Term)(nil), false
				if len(e.Args) > 0 {
					b, i, ok = index(bare(e.Args[0]))
				}
				z, isC := int64(-1), false
				if ok {
					z, isC = i.IntVal()
				}
				c.On(st, ok && b == st.Params()[2] && isC && z == 0, "recover", con, e.Pos, "a panic is not logged at the level given: %s", e.String())
			}
		}
	}
	c.Check(n[true] > 0 && n[false] > 0, "recover", con, rec.Pos(), "panicking and returning are not told apart")
	// a new logger
	f := c.Fn("", "NewLogger")
	con = eng.FuncName(f)
	for _, x := range c.Run(f, &eng.Options{Exact: true, Event: func(*eng.State, *eng.Event) bool { return false }}).Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		l := bare(x.Results[0])
		at := func(v *types.Var) *eng.Term { return bare(st.Load(u.FAddr(l, v))) }
		c.On(st, at(m.out) == st.Params()[0], "new", con, x.Pos, "a new logger does not print to what was given: %v", at(m.out))
		c.On(st, at(m.level) == level("LevelDebug"), "new", con, x.Pos, "a new logger does not print every level")
		c.On(st, at(m.flat).IsTrue(), "new", con, x.Pos, "a new logger does not keep lines flat")
		s := structOf(m.base)
		for i := 0; i < s.NumFields(); i++ {
			v := s.Field(i)
			if it, ok := v.Type().Underlying().(*types.Interface); ok && v != m.out && types.Implements(types.NewPointer(m.base), it) {
				c.On(st, at(v) == l, "new", con, x.Pos, "a new logger does not print by itself")
			}
		}
	}
	// loggers of requests
	f = c.Fn("", "NewReqLogger")
	con = eng.FuncName(f)
	tagged := func(st *eng.State, t, id *eng.Term, rest *eng.Term) bool {
		var ps []*eng.Term
		for _, p := range joined(u, parts(t)) {
			ps = append(ps, p)
		}
		want := 3
		if rest != nil {
			want = 4
		}
		if len(ps) != want || ps[1] != id || rest != nil && ps[3] != rest {
			return false
		}
		a, ok1 := ps[0].StrVal()
		b, ok2 := ps[2].StrVal()
		return ok1 && ok2 && a == "[" && b == "]"
	}
	var idF, reqPre *types.Var
	rt := c.reqLogger(m)
	s := structOf(rt)
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if !types.Identical(v.Type(), types.Typ[types.String]) {
			continue
		}
		_ = v
	}
	for _, x := range c.Run(f, &eng.Options{Exact: true, Event: func(*eng.State, *eng.Event) bool { return false }}).Exits {
		st := x.St
		if x.Kind != "return" {
			continue
		}
		l := bare(x.Results[0])
		id := st.Params()[1]
		var inner *eng.Term
		for i := 0; i < s.NumFields(); i++ {
			v := s.Field(i)
			t := bare(st.Load(u.FAddr(l, v)))
			switch {
			case t == id:
				idF = v
			case tagged(st, t, id, nil):
				reqPre = v
			case v.Embedded() && tid(v.Type(), types.NewPointer(m.base)):
				inner = t
			}
		}
		if !c.On(st, idF != nil && inner != nil, "request-id", con, x.Pos, "the logger of a request does not keep its id") {
			continue
		}
		c.On(st, tagged(st, bare(st.Load(u.FAddr(inner, m.prefix))), id, nil), "request-id", con, x.Pos, "the prefix of the logger of a request is not its id")
		c.On(st, bare(st.Load(u.FAddr(inner, m.out))) == st.Params()[0], "request-id", con, x.Pos, "the logger of a request does not print to what was given")
	}
	if idF != nil {
		g := c.Meth(rt, "ReqId")
		for _, x := range c.Run(g, &eng.Options{Exact: true, Event: func(*eng.State, *eng.Event) bool { return false }}).Exits {
			c.On(x.St, x.Kind == "return" && isFieldOf(x.Results[0], x.St.Recv(), idF), "request-id", eng.FuncName(g), x.Pos, "the id is not that of the request")
		}
		g = c.P.NamedMethod(types.NewPointer(rt), "SetPrefix")
		c.Need(g != nil && c.P.HasBody(g) && g.Synthetic == "", "SetPrefix of the logger of a request")
		for _, x := range c.Run(g, &eng.Options{Exact: true, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "store" }}).Exits {
			st := x.St
			var t *eng.Term
			for _, e := range st.Trace {
				if fieldOf(e.Addr) == m.prefix {
					t = e.Val
				}
			}
			ok := false
			if t != nil {
				ps := parts(t)
				given := st.Params()[1]
				if len(ps) == 2 && reqPre != nil {
					ok = isFieldOf(ps[0], st.Recv(), reqPre) && ps[1] == given
				} else {
					ok = len(ps) == 4 && tagged(st, t, ps[1], given) && isFieldOf(ps[1], st.Recv(), idF)
				}
			}
			c.On(st, ok, "request-id", eng.FuncName(g), x.Pos, "setting the prefix loses the id of the request: %v", t)
		}
	}
	for rule, n := range map[string]int{"level": 40, "line": 30, "tag": 30, "flat": 30, "prefix": 30, "message": 30, "position": 8, "recover": 8, "new": 3, "request-id": 4, "setting": 8} {
		c.Min(rule, n)
	}
}

func (c *Ctx) reqLogger(m *logModel) *types.Named {
	adv := c.Type("", "ReqLoggerAdv").Underlying().(*types.Interface)
	var out *types.Named
	for _, t := range c.Impls("", adv) {
		if structOf(t) != nil {
			c.Need(out == nil, "one logger of requests")
			out = t
		}
	}
	c.Need(out != nil, "the logger of requests")
	return out
}

// reports2: res is the value, perhaps through a variable.
func reports2(st *eng.State, res, v *eng.Term) bool { return bare(res) == bare(v) }

// message: t is the message made of what was given.
func (m *logModel) message(st *eng.State, t, v *eng.Term, format bool) bool {
	want := "fmt.Sprintln"
	if format {
		want = "fmt.Sprintf"
	}
	if !callTerm(t, want) && !retOf(t, want) {
		return false
	}
	args := t.Args
	if t.Op == eng.ORet {
		for _, e := range st.Trace {
			if e.Kind == "call" && e.Res == t {
				args = e.Args
			}
		}
	}
	if format {
		if len(args) != 2 || bare(args[0]) != st.Params()[1] {
			return false
		}
		args = args[1:]
	}
	if len(args) != 1 {
		return false
	}
	a := bare(args[0])
	// what a prefix parser left
	parsed := true
	for _, e := range st.Trace {
		if e.Kind == "call" && e.Fn != nil && fieldOf(bare(e.Fn)) == m.parser {
			if parsed = a == resAt(st, e, 1); parsed {
				a = bare(e.Args[0])
			}
		}
	}
	if !parsed {
		return false
	}
	last := hasFact(st, func(t *eng.Term) bool {
		if t.Op != eng.OIs || !strings.HasSuffix(eng.IsType(t).String(), ".LineOpt") {
			return false
		}
		b, i, ok := index(t.Args[0])
		if !ok || b != v {
			return false
		}
		d := eng.Lin(m.c.U.Bin("-", m.c.U.Len(v), i, types.Typ[types.Int]))
		return d.C == 1 && len(d.Coeff) == 0
	})
	if a == v {
		return last != 1
	}
	if last == 1 && a.Op == eng.OSlice && a.Args[0] == v && (a.Args[1].IsNil() || func() bool { n, ok := a.Args[1].IntVal(); return ok && n == 0 }()) {
		d := eng.Lin(m.c.U.Bin("-", m.c.U.Len(v), a.Args[2], types.Typ[types.Int]))
		return d.C == 1 && len(d.Coeff) == 0
	}
	return false
}
