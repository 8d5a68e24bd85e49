package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29",
		"Case analysis of one arbitrary line of the reading loop: by what is known of the trimmed line, its quotes and its separator on each path, it is nothing, a comment, a section header, a key line or an error, and what is stored, under which section and key and with which value, is what its kind asks for; what a line leaves for the next is the section and the number of unnamed keys only. Reading ends with success only at the end of the input, after the last line was handled, and every other failure is handed out.",
		"what stands behind a closing quote; empty quoted keys; sections opened more than once; who may change the configuration meanwhile",
		c29)
}

// span is a part of a text: base[lo:hi].
type span struct {
	base   *eng.Term
	lo, hi eng.Linear
}

func linSub(a, b eng.Linear) eng.Linear {
	n := eng.Linear{C: a.C - b.C, Coeff: map[*eng.Term]int64{}}
	for t, k := range a.Coeff {
		n.Coeff[t] += k
	}
	for t, k := range b.Coeff {
		n.Coeff[t] -= k
		if n.Coeff[t] == 0 {
			delete(n.Coeff, t)
		}
	}
	return n
}

func linAdd(a, b eng.Linear) eng.Linear {
	return linSub(a, linSub(eng.Linear{Coeff: map[*eng.Term]int64{}}, b))
}

// linDiff: a - b if it is a constant.
func linDiff(a, b eng.Linear) (int64, bool) {
	d := linSub(a, b)
	return d.C, len(d.Coeff) == 0
}

func constLin(n int64) eng.Linear { return eng.Linear{C: n, Coeff: map[*eng.Term]int64{}} }

// lines reads one path through the loop.
type lines struct {
	c    *Ctx
	u    *eng.Universe
	st   *eng.State
	raw  *eng.Term // what was read
	line *eng.Term // the trimmed line
}

func (l *lines) call(t *eng.Term, names ...string) bool {
	t = bare(t)
	for _, n := range names {
		if callTerm(t, n) || retOf(t, n) {
			return true
		}
	}
	return false
}

// trimmed: the text that is trimmed by t (nil: t is not trimmed).
func (l *lines) trimmed(t *eng.Term) *eng.Term {
	t = bare(t)
	if l.call(t, "strings.TrimSpace") || l.call(t, "bytes.TrimSpace") {
		return bare(t.Args[0])
	}
	return nil
}

// span reads t as a part of a text.
func (l *lines) span(t *eng.Term) span {
	t = bare(t)
	if in := l.trimmed(t); in != nil {
		// trimmed twice
		if s := l.span(in); l.trimmed(s.base) != nil && l.whole(s) {
			return s
		}
	}
	if t.Op == eng.OSlice && len(t.Args) >= 3 {
		s := l.span(t.Args[0])
		out := span{s.base, s.lo, s.hi}
		if lo := t.Args[1]; !noBound(lo) {
			out.lo = linAdd(s.lo, l.lin(lo))
		}
		if hi := t.Args[2]; !noBound(hi) {
			out.hi = linAdd(s.lo, l.lin(hi))
		}
		return out
	}
	if l.call(t, "strings.TrimPrefix") {
		if q, ok := t.Args[1].StrVal(); ok && l.starts(t.Args[0], q) == 1 {
			s := l.span(t.Args[0])
			s.lo = linAdd(s.lo, constLin(int64(len(q))))
			return s
		}
	}
	// a text that is not constant, which the path knows to be there
	var cut *eng.Term
	if l.call(t, "strings.TrimPrefix") {
		if q := bare(t.Args[1]); hasFact(l.st, func(f *eng.Term) bool {
			return l.call(f, "strings.HasPrefix") && bare(f.Args[0]) == bare(t.Args[0]) && bare(f.Args[1]) == q
		}) == 1 {
			cut = t
		}
	}
	if t.Op == eng.OExtract && t.Sym == "0" && l.call(t.Args[0], "strings.CutPrefix") && l.st != nil && hasFact(l.st, func(f *eng.Term) bool {
		return f.Op == eng.OExtract && f.Sym == "1" && f.Args[0] == t.Args[0]
	}) == 1 {
		cut = bare(t.Args[0])
	}
	if cut != nil {
		s := l.span(cut.Args[0])
		for _, p := range joined(l.u, parts(bare(cut.Args[1]))) {
			if v, ok := p.StrVal(); ok {
				s.lo = linAdd(s.lo, constLin(int64(len(v))))
				continue
			}
			s.lo = linAdd(s.lo, l.lin(l.u.Len(p)))
		}
		return s
	}
	if l.call(t, "strings.TrimSuffix") {
		if q, ok := t.Args[1].StrVal(); ok && l.ends(t.Args[0], q) == 1 {
			s := l.span(t.Args[0])
			s.hi = linSub(s.hi, constLin(int64(len(q))))
			return s
		}
	}
	return span{t, constLin(0), eng.Linear{Coeff: map[*eng.Term]int64{l.u.Len(t): 1}}}
}

// lin reads a number, the length of a part being the distance of its ends.
func (l *lines) lin(t *eng.Term) eng.Linear {
	in := eng.Lin(t)
	out := constLin(in.C)
	for x, k := range in.Coeff {
		v := eng.Linear{Coeff: map[*eng.Term]int64{x: 1}}
		if x.Op == eng.OBuiltin && x.Sym == "len" && len(x.Args) == 1 {
			s := l.span(x.Args[0])
			if s.base != bare(x.Args[0]) {
				v = linSub(s.hi, s.lo)
			} else {
				v = s.hi
			}
		}
		for ; k > 0; k-- {
			out = linAdd(out, v)
		}
		for ; k < 0; k++ {
			out = linSub(out, v)
		}
	}
	return out
}

func (l *lines) whole(s span) bool {
	d, ok := linDiff(s.hi, eng.Linear{Coeff: map[*eng.Term]int64{l.u.Len(s.base): 1}})
	return ok && d == 0 && len(s.lo.Coeff) == 0 && s.lo.C == 0
}

func (l *lines) same(a, b span) bool {
	d, ok := linDiff(a.lo, b.lo)
	e, ok2 := linDiff(a.hi, b.hi)
	return a.base == b.base && ok && ok2 && d == 0 && e == 0
}

func sym(a, b *eng.Term, f func(x, y *eng.Term)) { f(a, b); f(b, a) }

// starts: the text begins with q (1), it does not (0).
func (l *lines) starts(t *eng.Term, q string) int { return l.edge(t, q, true) }
func (l *lines) ends(t *eng.Term, q string) int   { return l.edge(t, q, false) }

func (l *lines) edge(t *eng.Term, q string, front bool) int {
	want := l.span(t)
	known := map[int64]byte{}
	no := false
	// part: where the part of a text stands: from the edge on
	part := func(s span) (int64, int64, bool) {
		if s.base != want.base {
			return 0, 0, false
		}
		w := want.lo
		if !front {
			w = want.hi
		}
		a, ok := linDiff(s.lo, w)
		b, ok2 := linDiff(s.hi, w)
		return a, b, ok && ok2
	}
	off := int64(0)
	if !front {
		off = -int64(len(q))
	}
	note := func(at int64, s string, yes bool) {
		if yes {
			for i := range s {
				known[at+int64(i)] = s[i]
			}
			return
		}
		// it is not s: nor anything that holds s there
		if i := at - off; i >= 0 && i+int64(len(s)) <= int64(len(q)) && q[i:i+int64(len(s))] == s {
			no = true
		}
	}
	for _, f := range l.st.Facts() {
		x, yes := f.T, !f.Neg
		if x.Op == eng.OBin && x.Sym == "eq" {
			sym(x.Args[0], x.Args[1], func(a, b *eng.Term) {
				if b0, i, ok := index(bare(a)); ok {
					n, isC := b.IntVal()
					if isC && n >= 0 && n < 128 {
						s := l.span(b0)
						at := linAdd(s.lo, l.lin(i))
						if p, _, ok := part(span{s.base, at, linAdd(at, constLin(1))}); ok {
							note(p, string([]byte{byte(n)}), yes)
						}
					}
					return
				}
				if v, isC := b.StrVal(); isC && v != "" {
					if p, e, ok := part(l.span(a)); ok && e-p == int64(len(v)) {
						note(p, v, yes)
					}
				}
			})
			continue
		}
		pre, suf := l.call(x, "strings.HasPrefix"), l.call(x, "strings.HasSuffix")
		if pre || suf {
			v, isC := x.Args[1].StrVal()
			if !isC || v == "" {
				continue
			}
			s := l.span(x.Args[0])
			if pre {
				s.hi = linAdd(s.lo, constLin(int64(len(v))))
			} else {
				s.lo = linSub(s.hi, constLin(int64(len(v))))
			}
			if p, _, ok := part(s); ok {
				note(p, v, yes)
			}
		}
	}
	all := true
	for i := 0; i < len(q); i++ {
		b, ok := known[off+int64(i)]
		if ok && b != q[i] {
			return 0
		}
		all = all && ok
	}
	if no || emptyText(l.st, l.u, bare(t)) == 1 {
		return 0
	}
	return b2i(all) - b2i(!all)
}

// shorter: the text is known to have fewer than n bytes.
func (l *lines) shorter(t *eng.Term, n int64) bool {
	return ltProved(l.st, l.u, l.u.Len(bare(t)), l.u.Int(n), nil)
}

// found: what a search handed back is a place (1), nothing was found (0).
func (l *lines) found(i *eng.Term) int {
	is := func(t *eng.Term) bool { return t == i }
	switch eqFact(l.st, is, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == -1 }) {
	case 1:
		return 0
	case 0:
		return 1
	}
	if in, q, ok := l.either(i); ok {
		if n := hasFact(l.st, func(t *eng.Term) bool { return l.contains(t, in, q) }); n >= 0 {
			return n
		}
	}
	if ltProved(l.st, l.u, l.u.Int(-1), i, nil) {
		return 1
	}
	if ltProved(l.st, l.u, i, l.u.Int(0), nil) {
		return 0
	}
	return -1
}

// search reads a search for a constant text.
func (l *lines) search(t *eng.Term, last bool) (in *eng.Term, q string, ok bool) {
	names := []string{"strings.Index", "strings.IndexByte", "strings.IndexRune"}
	if last {
		names = []string{"strings.LastIndex", "strings.LastIndexByte"}
	}
	if !l.call(t, names...) || len(t.Args) != 2 {
		return nil, "", false
	}
	if v, ok := t.Args[1].StrVal(); ok {
		return t.Args[0], v, true
	}
	if n, ok := t.Args[1].IntVal(); ok && n > 0 && n < 128 {
		return t.Args[0], string([]byte{byte(n)}), true
	}
	return nil, "", false
}

func (l *lines) either(t *eng.Term) (in *eng.Term, q string, ok bool) {
	if in, q, ok = l.search(t, false); !ok {
		in, q, ok = l.search(t, true)
	}
	return
}

// contains: t asks whether the text holds q.
func (l *lines) contains(t, in *eng.Term, q string) bool {
	return l.call(t, "strings.Contains") && isStr(t.Args[1], q) && l.same(l.span(t.Args[0]), l.span(in))
}

func (l *lines) isSep(t *eng.Term) bool {
	if !l.call(t, "strings.IndexAny") {
		return false
	}
	v, ok := t.Args[1].StrVal()
	return ok && (v == "=:" || v == ":=")
}

// quoted: whether the key of the line stands in q, by how the line begins.
func (l *lines) keyIn(q string) bool {
	switch q {
	case "":
		return l.starts(l.line, `"`) == 0 && l.starts(l.line, "`") == 0
	case "`":
		return l.starts(l.line, q) == 1
	case `"`:
		return l.starts(l.line, q) == 1 && (l.shorter(l.line, 6) || l.starts(l.line, `"""`) == 0)
	case `"""`:
		return l.starts(l.line, q) == 1
	}
	return false
}

// valueIn: whether the value stands in q.
func (l *lines) valueIn(right *eng.Term, q string) bool {
	switch q {
	case "":
		return (l.starts(right, "`") == 0 || l.shorter(right, 2)) && (l.starts(right, `"""`) == 0 || l.shorter(right, 6))
	case "`":
		return l.starts(right, q) == 1
	case `"""`:
		return l.starts(right, q) == 1
	}
	return false
}

// closing: i is the place a quoted key ends at, seen from the begin of the line.
func (l *lines) closing(i eng.Linear) (q string, at *eng.Term) {
	for t, k := range i.Coeff {
		in, q, ok := l.search(t, false)
		if !ok || k != 1 {
			continue
		}
		s := l.span(in)
		if d, ok := linDiff(s.lo, constLin(int64(len(q)))); !ok || d != 0 || s.base != l.line {
			continue
		}
		if d, ok := linDiff(i, linAdd(s.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}})); ok && d == 0 && l.keyIn(q) {
			return q, t
		}
	}
	return "", nil
}

// sep finds the separator a place is behind: where the key begins and ends, and
// how it is quoted.
func (l *lines) sep(i eng.Linear) (at *eng.Term, q string, end eng.Linear, ok bool) {
	for t, k := range i.Coeff {
		if k != 1 || !l.isSep(t) {
			continue
		}
		s := l.span(t.Args[0])
		if s.base != l.line {
			continue
		}
		if d, isC := linDiff(i, linAdd(s.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}})); !isC || d != 0 {
			continue
		}
		if len(s.lo.Coeff) == 0 && s.lo.C == 0 {
			if l.keyIn("") {
				return t, "", i, true
			}
			continue
		}
		for _, n := range []int64{0, 1, 3} {
			e := linSub(s.lo, constLin(n))
			if q, p := l.closing(e); p != nil && (n == 0 || n == int64(len(q))) && l.found(p) == 1 {
				return t, q, e, true
			}
		}
	}
	return nil, "", eng.Linear{}, false
}

// oneLine is what is known at the end of one way through the loop.
type oneLine struct {
	st   *eng.State
	next func(t *eng.Term) *eng.Term // what the next line begins with; nil: none
	exit *eng.Exit
	h    *ssa.BasicBlock
}

const lineRead = "(*bufio.Reader).ReadString"

func c29(c *Ctx) {
	readers := map[*ssa.Function]bool{}
	for _, f := range c.FuncsOf("config") {
		for _, b := range f.Blocks {
			if c.lineLoop(b) {
				readers[f] = true
			}
		}
	}
	c.Need(len(readers) > 0, "a loop that reads a configuration line by line")
	for _, f := range c.FuncsOf("config") {
		if readers[f] {
			c.c29lines(f)
		}
	}
	c.Min("line", 40)
	c.Min("key", 20)
	c.Min("section", 2)
	c.c29sources(readers)
}

// lineLoop: b is the header of a loop that reads lines.
func (c *Ctx) lineLoop(b *ssa.BasicBlock) bool {
	if b == nil || !isHeader(b) {
		return false
	}
	for _, bb := range b.Parent().Blocks {
		for _, in := range bb.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && inLoop(b, in) {
				if g := ci.Common().StaticCallee(); g != nil && (eng.FuncName(g) == lineRead || g.Pkg == b.Parent().Pkg && c.readsLine(g, map[*ssa.Function]bool{})) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) readsLine(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && (eng.FuncName(g) == lineRead || g.Pkg == f.Pkg && c.readsLine(g, seen)) {
					return true
				}
			}
		}
	}
	return false
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (c *Ctx) c29lines(f *ssa.Function) {
	u := c.U
	con := eng.FuncName(f)
	var ones []oneLine
	inits := map[*ssa.Phi]*eng.Term{}
	var before []*eng.State
	r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
		Event: func(st *eng.State, e *eng.Event) bool {
			if e.Kind == "call" && hasPrefixAny(e.Name, "bufio.NewReader") {
				c.On(st, st.Var("lines") == nil, "line", con, e.Pos, "another reader is put in front of the input while lines are read")
			}
			return e.Kind != "load" && e.Kind != "enter"
		},
		Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			if !c.lineLoop(h) {
				return
			}
			if !back {
				for p, v := range vals {
					if old, ok := inits[p]; ok && old != v {
						v = nil
					}
					inits[p] = v
				}
				st.SetVar("lines", u.Int(1))
				before = append(before, st.Snapshot())
				return
			}
			s, vs := st.Snapshot(), map[*ssa.Phi]*eng.Term{}
			for p, v := range vals {
				vs[p] = v
			}
			ones = append(ones, oneLine{st: s, h: h, next: func(t *eng.Term) *eng.Term {
				if p := phiOf(t); p != nil {
					if v, ok := vs[p]; ok {
						return v
					}
					return t
				}
				if cell := carriedCell(u, t); cell != nil {
					return s.Load(cell)
				}
				return nil
			}})
		}})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			c.On(x.St, false, "line", con, x.Pos, "reading panics")
			continue
		}
		ones = append(ones, oneLine{st: x.St, exit: x})
	}
	c.c29mark(con, before)
	isEOF := func(t *eng.Term) bool { return isGlobalLoad(noOld(u, bare(t)), "io", "EOF") }
	initOf := func(t *eng.Term) *eng.Term {
		if p := phiOf(t); p != nil {
			return inits[p]
		}
		if cell := carriedCell(u, t); cell != nil {
			var v *eng.Term
			for i, s := range before {
				w := s.Load(cell)
				if i > 0 && w != v {
					return nil
				}
				v = w
			}
			return v
		}
		return nil
	}
	// flags and failures a loop may be left by
	phis := map[*ssa.Phi]*eng.Term{}
	for _, o := range ones {
		for _, l := range o.st.Facts() {
			eng.Any(l.T, func(t *eng.Term) bool {
				if p := phiOf(t); p != nil && c.lineLoop(p.Block()) {
					phis[p] = t
				}
				return false
			})
		}
	}
	errs := map[*eng.Term]bool{} // failures of the input that end the loop
	ends := map[*eng.Term]bool{} // flags that say that the end was reached
	for p, t := range phis {
		in := inits[p]
		if in == nil {
			continue
		}
		isErr := in.IsNil() && types.IsInterface(p.Type())
		isFlag := false
		if in.IsFalse() {
			isFlag = true
		}
		for _, o := range ones {
			rd := lastRead(o.st)
			if rd == nil {
				continue
			}
			isErr = isErr && o.st.IsNil(t) == 1
			isFlag = isFlag && hasFact(o.st, func(x *eng.Term) bool { return x == t }) == 0
			if o.next == nil {
				continue
			}
			isErr = isErr && o.next(t) == o.st.Ext(rd.Res, 1)
			if v := o.next(t); !v.IsFalse() && !v.IsTrue() || v.IsTrue() && eqFact(o.st, func(t *eng.Term) bool { return t == o.st.Ext(rd.Res, 1) }, isEOF) != 1 {
				isFlag = isFlag && o.next(t) == t
			}
		}
		if isErr {
			errs[t] = true
		}
		if isFlag {
			ends[t] = true
		}
	}
	carried := func(t *eng.Term) bool {
		if p := phiOf(t); p != nil {
			return c.lineLoop(p.Block())
		}
		return carriedCell(u, t) != nil
	}
	// which values are handed from line to line
	var sec, num *eng.Term
	var base int64
	for pass := 0; pass < 2; pass++ {
		for _, o := range ones {
			st := o.st
			pos := f.Pos()
			if o.exit != nil {
				pos = o.exit.Pos
			}
			bad := func(ok bool, rule, format string, a ...interface{}) {
				if pass == 1 {
					c.On(st, ok, rule, con, pos, format, a...)
				}
			}
			from := -1
			for i, e := range st.Trace {
				if e.Kind == "call" && e.Name == lineRead {
					from = i
				}
			}
			if from < 0 {
				left := false
				for t := range ends {
					left = left || o.exit != nil && hasFact(st, func(x *eng.Term) bool { return x == t }) == 1
				}
				for t := range errs {
					t := t
					if o.exit == nil {
						continue
					}
					res := bare(o.exit.Results[len(o.exit.Results)-1])
					switch eqFact(st, func(x *eng.Term) bool { return x == t }, isEOF) {
					case 1:
						left = true
					case 0:
						left = left || res == t || !res.IsNil() && eng.Any(res, func(x *eng.Term) bool { return x == t })
					}
				}
				if left {
					bad(true, "line", "")
					continue
				}
				bad(o.exit != nil && st.IsNil(o.exit.Results[len(o.exit.Results)-1]) == 0, "line", "reading ends before anything was read")
				continue
			}
			rd := st.Trace[from]
			l := &lines{c: c, u: u, st: st, raw: st.Ext(rd.Res, 0)}
			rerr := st.Ext(rd.Res, 1)
			n, isC := rd.Args[0].IntVal()
			bad(isC && n == '\n', "line", "what is read is not a line")
			for _, e := range st.Trace[from:] {
				if e.Kind == "call" && l.call(e.Res, "strings.TrimSpace") && bare(e.Res.Args[0]) == l.raw {
					l.line = bare(e.Res)
				}
			}
			eof := eqFact(st, func(t *eng.Term) bool { return t == rerr }, isEOF)
			if hasFact(st, func(t *eng.Term) bool {
				return l.call(t, "errors.Is") && bare(t.Args[0]) == rerr && isEOF(t.Args[1])
			}) == 1 {
				eof = 1
			}
			none := st.IsNil(rerr) == 1
			success := o.exit != nil && o.exit.Results[len(o.exit.Results)-1].IsNil()
			if o.exit != nil && !success {
				res := bare(o.exit.Results[len(o.exit.Results)-1])
				if st.IsNil(rerr) == 0 && eof != 1 {
					bad(res == rerr || eng.Any(res, func(t *eng.Term) bool { return t == rerr }), "error", "another failure is handed out than the one of the input")
					continue
				}
				bad(st.IsNil(res) == 0, "error", "it is not known whether reading failed")
				bad(l.line != nil && l.wrong(), "error", "a line is refused that may be well formed")
				continue
			}
			for t := range errs {
				none = none || o.next != nil && o.next(t) == rerr
			}
			bad(none || eof == 1, "error", "reading goes on, or ends well, after a failure of the input")
			bad(!success || eof == 1, "line", "reading ends well before the end of the input")
			if l.line == nil {
				bad(false, "line", "a line is not looked at")
				continue
			}
			// what is stored
			var sets []*eng.Event
			for _, e := range st.Trace[from:] {
				switch {
				case e.Kind == "mapset" || e.Kind == "delete":
					sets = append(sets, e)
				}
			}
			kept := func(t *eng.Term) bool {
				return t == nil || o.next == nil || o.next(t) == t
			}
			var made []*eng.Event
			var stored []*eng.Event
			for _, e := range sets {
				if e.Kind == "mapset" && len(e.Args) == 2 && isSectionMap(e.Args[1].Typ) {
					made = append(made, e)
				} else {
					stored = append(stored, e)
				}
			}
			okMade := true
			for _, e := range made {
				// a section is made only where there is none
				m := bare(e.Args[1])
				if m.Op != eng.OAlloc || m.Sym != "make" && !strings.HasPrefix(m.Sym, "make") {
					okMade = false
				}
				if !l.absent(e.Args[0]) {
					okMade = false
				}
			}
			bad(okMade, "section", "a section is replaced that may exist")
			// the section a store goes to
			target := func(m *eng.Term) *eng.Term {
				m = bare(noOld(u, m))
				for _, e := range made {
					if bare(e.Args[1]) == m {
						return bare(e.Args[0])
					}
				}
				if _, k, ok := mapIndex(m); ok {
					return bare(k)
				}
				return nil
			}
			empty := emptyText(st, u, l.line)
			comment := maxi(l.starts(l.line, "#"), l.starts(l.line, ";"))
			if l.starts(l.line, "#") != 0 && comment == 0 || l.starts(l.line, ";") != 0 && comment == 0 {
				comment = -1
			}
			header := l.header()
			switch {
			case empty == 1 || comment == 1:
				bad(len(sets) == 0, "line", "something is stored for an empty line or a comment")
				bad(kept(sec) && kept(num), "line", "an empty line or a comment changes what the next line means")
			case header == 1:
				bad(comment == 0 || l.starts(l.line, "[") == 1, "line", "a comment may be taken for a section")
				name := l.headerName()
				bad(len(stored) == 0, "section", "something is stored for the begin of a section")
				var names []*eng.Term
				for _, f := range st.Facts() {
					if x, there := l.mapOk(f); x != nil && there {
						names = append(names, x)
					}
				}
				for _, e := range made {
					names = append(names, bare(e.Args[0]))
				}
				there := false
				for _, t := range names {
					if name(t) {
						there = true
					}
				}
				bad(there, "section", "a section that is begun may not exist afterwards")
				for _, e := range made {
					bad(name(bare(e.Args[0])), "section", "another section is made than the one that begins")
				}
				if o.next != nil && sec != nil {
					nx := o.next(sec)
					bad(nx != nil && name(bare(nx)) && emptyText(st, u, bare(nx)) == 0, "section", "what follows does not belong to the section that begins")
				}
				if o.next != nil && num != nil {
					nx := o.next(num)
					v, isC := int64(0), false
					if nx != nil {
						v, isC = nx.IntVal()
					}
					bad(isC && v+base == 1, "section", "the unnamed keys of a section are not numbered from one")
				}
			default:
				bad(empty == 0 && comment == 0 && header == 0, "line", "a line is taken for a key that may be something else")
				numbered := false
				if len(stored) == 0 {
					// nothing is stored for an empty name
					okE := false
					for _, f := range st.Facts() {
						if f.T.Op == eng.OBin && f.T.Sym == "eq" && !f.Neg {
							sym(f.T.Args[0], f.T.Args[1], func(a, b *eng.Term) {
								if isStr(b, "") && l.key(bare(a)) {
									okE = true
								}
							})
						}
					}
					bad(okE, "key", "a key is dropped")
				} else {
					e := stored[0]
					bad(len(stored) == 1 && e.Kind == "mapset", "key", "more than the key is changed")
					if e.Kind == "mapset" && len(e.Args) == 2 {
						k, v := bare(e.Args[0]), bare(e.Args[1])
						in := target(e.Recv)
						if pass == 0 {
							if in != nil && carried(in) && sec == nil {
								sec = in
							}
						} else {
							okS := in != nil && sec != nil && (in == sec && emptyText(st, u, sec) != 1 && (emptyText(st, u, sec) == 0 || initNonEmpty(initOf(sec))) || isStr(in, c.defaultSection()) && emptyText(st, u, sec) == 1)
							bad(okS, "section", "a key is stored elsewhere than in the section it stands in: %v", in)
						}
						var keyT *eng.Term
						if ps := fmtParts(u, k); len(ps) == 2 && isStr(ps[0], "#") {
							numbered = true
							x := numText(ps[1])
							lin := eng.Linear{}
							if x != nil {
								lin = eng.Lin(x)
							}
							okN := false
							for t, kk := range lin.Coeff {
								if len(lin.Coeff) == 1 && kk == 1 && carried(t) {
									if pass == 0 && num == nil {
										num, base = t, lin.C
									}
									okN = t == num && lin.C == base
								}
							}
							bad(okN, "key", "an unnamed key is not numbered: %v", x)
							if okN && o.next != nil {
								nx := o.next(num)
								okX := false
								if nx != nil {
									d, isC := linDiff(eng.Lin(nx), eng.Lin(num))
									okX = isC && d == 1
								}
								bad(okX, "key", "the next unnamed key does not get the next number")
							}
							// which key was it?
							for _, f := range st.Facts() {
								if f.T.Op == eng.OBin && f.T.Sym == "eq" && !f.Neg {
									sym(f.T.Args[0], f.T.Args[1], func(a, b *eng.Term) {
										if isStr(b, "-") && l.key(bare(a)) {
											keyT = bare(a)
										}
									})
								}
							}
							bad(keyT != nil, "key", "a named key is numbered")
						} else {
							keyT = k
							bad(l.key(k), "key", "a value is stored under another name: %v", k)
							bad(eqFact(st, func(t *eng.Term) bool { return bare(t) == k }, isStrFn("-")) == 0, "key", "an unnamed key may not get a number")
						}
						bad(l.value(v, keyT), "value", "something else is stored: %v", v)
					}
				}
				bad(kept(sec) && (numbered || kept(num)), "line", "a key changes what the next line means")
			}
		}
	}
	if c.Check(sec != nil, "section", con, f.Pos(), "no section is kept from line to line") {
		v := initOf(sec)
		c.Check(v != nil && (isStr(v, "") || isStr(v, c.defaultSection())), "section", con, f.Pos(), "the first keys do not belong to the default section")
	}
	if c.Check(num != nil, "key", con, f.Pos(), "unnamed keys are not numbered") {
		v := initOf(num)
		n, ok := int64(0), false
		if v != nil {
			n, ok = v.IntVal()
		}
		c.Check(ok && n+base == 1, "key", con, f.Pos(), "unnamed keys are not numbered from one")
	}
}

// lastRead: the last line that was read on the path.
func lastRead(st *eng.State) *eng.Event {
	for i := len(st.Trace) - 1; i >= 0; i-- {
		if e := st.Trace[i]; e.Kind == "call" && e.Name == lineRead {
			return e
		}
	}
	return nil
}

func initNonEmpty(t *eng.Term) bool {
	if t == nil {
		return false
	}
	s, ok := t.StrVal()
	return ok && s != ""
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// carriedCell: the cell of a value a loop leaves behind in memory.
func carriedCell(u *eng.Universe, t *eng.Term) *eng.Term {
	if t != nil && t.Op == eng.OField {
		if v, ok := t.Obj.(*types.Var); ok {
			if in := carriedCell(u, t.Args[0]); in != nil {
				return u.FAddr(in, v)
			}
		}
		return nil
	}
	if t != nil && t.Op == eng.OOpaque && strings.HasPrefix(t.Sym, "hphi@") && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

// numText: the number t is the text of.
func numText(t *eng.Term) *eng.Term {
	t = bare(t)
	switch {
	case callTerm(t, "strconv.Itoa"), callTerm(t, "strconv.FormatInt") && func() bool { n, ok := t.Args[1].IntVal(); return ok && n == 10 }():
		return bare(t.Args[0])
	case callTerm(t, "fmt.Sprint"):
		if as := listArgs(t.Args[0]); len(as) == 1 {
			return bare(as[0])
		}
	}
	if t.Typ != nil && isIntegerT(t.Typ) {
		return t
	}
	return nil
}

func isSectionMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isString(m.Elem())
}

func isGlobalLoad(t *eng.Term, pkg, name string) bool {
	if t == nil || t.Op != eng.OLoad {
		return false
	}
	g, ok := t.Args[0].Obj.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == pkg && g.Name() == name
}

// defaultSection is the section of keys without one.
func (c *Ctx) defaultSection() string { return "default" }

// mapIndex reads m[k].
func mapIndex(t *eng.Term) (m, k *eng.Term, ok bool) {
	if t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OMAddr {
		return bare(t.Args[0].Args[0]), bare(t.Args[0].Args[1]), true
	}
	return nil, nil, false
}

// mapOk: the key a fact on whether a section exists is about, and whether it does.
func (l *lines) mapOk(f eng.Lit) (*eng.Term, bool) {
	t := f.T
	if t.Op == eng.OMOk && isSectionMap(elemOfMap(t.Args[0].Typ)) {
		return bare(t.Args[1]), !f.Neg
	}
	if t.Op == eng.OBin && t.Sym == "eq" {
		for i := range t.Args {
			if _, k, ok := mapIndex(noOld(l.u, bare(t.Args[i]))); ok && t.Args[1-i].IsNil() {
				return bare(k), f.Neg
			}
		}
	}
	return nil, false
}

func elemOfMap(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

// absent: the section is known not to exist.
func (l *lines) absent(k *eng.Term) bool {
	for _, f := range l.st.Facts() {
		if x, there := l.mapOk(f); x != nil && !there && x == bare(k) {
			return true
		}
	}
	return false
}

// header: the line is the begin of a section.
func (l *lines) header() int {
	a, b := l.starts(l.line, "["), l.ends(l.line, "]")
	switch {
	case a == 1 && b == 1:
		return 1
	case a == 0 || b == 0:
		return 0
	}
	return -1
}

// headerName tests for the name of the section that begins.
func (l *lines) headerName() func(t *eng.Term) bool {
	whole := l.span(l.line)
	want := span{l.line, constLin(1), linSub(whole.hi, constLin(1))}
	return func(t *eng.Term) bool {
		in := l.trimmed(t)
		return in != nil && l.same(l.span(in), want)
	}
}

// key: t is the name of the key on the line.
func (l *lines) key(t *eng.Term) bool {
	if in := l.trimmed(t); in != nil && t != l.line {
		s := l.span(in)
		if s.base != l.line || len(s.lo.Coeff) != 0 || s.lo.C != 0 {
			return false
		}
		at, q, _, ok := l.sep(s.hi)
		return ok && q == "" && ltProved(l.st, l.u, l.u.Int(0), at, nil)
	}
	s := l.span(t)
	if s.base != l.line {
		return false
	}
	q, at := l.closing(s.hi)
	return at != nil && l.found(at) == 1 && len(s.lo.Coeff) == 0 && s.lo.C == int64(len(q)) && l.keyIn(q)
}

// rest: t is what stands behind the separator: how the key is quoted and where
// it ends.
func (l *lines) rest(t *eng.Term) (q string, end eng.Linear, ok bool) {
	in := l.trimmed(t)
	if in == nil || t == l.line {
		return "", end, false
	}
	s := l.span(in)
	if d, ok := linDiff(s.hi, l.span(l.line).hi); s.base != l.line || !ok || d != 0 {
		return "", end, false
	}
	at, q, end, ok := l.sep(linSub(s.lo, constLin(1)))
	if !ok || l.found(at) != 1 && !ltProved(l.st, l.u, l.u.Int(0), at, nil) {
		return "", end, false
	}
	return q, end, true
}

// value: v is the value behind the key on the line.
func (l *lines) value(v, key *eng.Term) bool {
	if key == nil {
		return false
	}
	rest := func(t *eng.Term) bool {
		q, end, ok := l.rest(t)
		if !ok {
			return false
		}
		// it is the separator of the key
		ks := l.span(key)
		if in := l.trimmed(key); in != nil {
			if q != "" {
				return false
			}
			ks = l.span(in)
		} else if q == "" {
			return false
		}
		d, ok := linDiff(ks.hi, end)
		return ok && d == 0
	}
	s := l.span(v)
	if !rest(s.base) {
		return false
	}
	if l.whole(s) {
		return l.valueIn(s.base, "")
	}
	for t, k := range s.hi.Coeff {
		in, q, ok := l.search(t, true)
		if !ok || k != 1 || l.found(t) != 1 || !l.valueIn(s.base, q) || len(s.lo.Coeff) != 0 || s.lo.C != int64(len(q)) {
			continue
		}
		si := l.span(in)
		d, isC := linDiff(si.lo, s.lo)
		w := l.span(s.base)
		e, isC2 := linDiff(si.hi, w.hi)
		g, isC3 := linDiff(s.hi, linAdd(si.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}}))
		if si.base == s.base && isC && isC2 && isC3 && d == 0 && e == 0 && g == 0 {
			return true
		}
	}
	return false
}

func (l *lines) isRest(t *eng.Term) bool { _, _, ok := l.rest(t); return ok }

// wrong: the line is known not to be well formed.
func (l *lines) wrong() bool {
	st, u := l.st, l.u
	if emptyText(st, u, l.line) != 0 || l.starts(l.line, "#") != 0 || l.starts(l.line, ";") != 0 {
		return false
	}
	if l.header() == 1 {
		name := l.headerName()
		return emptyOf(st, u, func(t *eng.Term) bool { return name(t) }) == 1
	}
	if l.header() != 0 {
		return false
	}
	ok := false
	for _, f := range st.Facts() {
		eng.Any(f.T, func(t *eng.Term) bool {
			t = bare(t)
			if l.isSep(t) {
				s := l.span(t.Args[0])
				at, q, _, isS := l.sep(linAdd(s.lo, eng.Linear{Coeff: map[*eng.Term]int64{t: 1}}))
				if isS && at == t && (leProved(st, u, t, u.Int(0), nil) && q == "" || q != "" && (l.found(t) == 0 || leProved(st, u, t, u.Int(0), nil))) {
					ok = true
				}
			}
			in, q, isI := l.either(t)
			isI = isI && l.found(t) == 0
			if l.call(t, "strings.Contains") && t == bare(f.T) && f.Neg {
				in = t.Args[0]
				q, isI = t.Args[1].StrVal()
			}
			if isI {
				s := l.span(in)
				d, isC := linDiff(s.lo, constLin(int64(len(q))))
				if isC && d == 0 && (s.base == l.line && l.keyIn(q) || l.isRest(s.base) && l.valueIn(s.base, q)) {
					ok = true
				}
			}
			return false
		})
	}
	return ok
}

// c29mark: the byte order mark in front of the first line is skipped, and
// nothing else.
func (c *Ctx) c29mark(con string, before []*eng.State) {
	u := c.U
	for _, st := range before {
		skipped, peeked := int64(0), (*eng.Term)(nil)
		var perr *eng.Term
		ok := true
		for _, e := range st.Trace {
			if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*bufio.Reader).") {
				continue
			}
			switch strings.TrimPrefix(e.Name, "(*bufio.Reader).") {
			case "Peek":
				n, isC := e.Args[0].IntVal()
				ok = ok && isC && n == 3 && peeked == nil
				peeked, perr = bare(st.Ext(e.Res, 0)), st.Ext(e.Res, 1)
			case "Discard":
				n, isC := e.Args[0].IntVal()
				ok = ok && isC
				skipped += n
			case "Read":
				if bare(e.Args[0]) == peeked && peeked != nil {
					skipped += 3
				} else {
					ok = false
				}
			case "Buffered", "Size":
			default:
				ok = false
			}
		}
		if peeked == nil {
			c.On(st, ok && skipped == 0, "mark", con, 0, "something is skipped before the first line")
			continue
		}
		l := &lines{c: c, u: u, st: st}
		mark := []int64{0xEF, 0xBB, 0xBF}
		is, not := 0, st.IsNil(perr) == 0 || ltProved(st, u, u.Len(peeked), u.Int(3), nil)
		for i, m := range mark {
			n := hasFact(st, func(t *eng.Term) bool {
				if t.Op != eng.OBin || t.Sym != "eq" {
					return false
				}
				found := false
				sym(t.Args[0], t.Args[1], func(a, b *eng.Term) {
					if b0, k, ok := index(bare(a)); ok && bare(b0) == peeked {
						kn, isC := k.IntVal()
						v, isV := b.IntVal()
						found = found || isC && isV && kn == int64(i) && v == m
					}
				})
				return found
			})
			switch n {
			case 1:
				is++
			case 0:
				not = true
			}
		}
		switch hasFact(st, func(t *eng.Term) bool {
			if (l.call(t, "bytes.Equal") || l.call(t, "bytes.HasPrefix")) && len(t.Args) == 2 {
				return eng.Any(t, func(x *eng.Term) bool { return x == peeked }) && (isMark(t.Args[0]) || isMark(t.Args[1]))
			}
			return t.Op == eng.OBin && t.Sym == "eq" && (bare(t.Args[0]) == peeked && isMark(t.Args[1]) || bare(t.Args[1]) == peeked && isMark(t.Args[0]))
		}) {
		case 1:
			is = 3
		case 0:
			not = true
		}
		if is == 3 && !not {
			c.On(st, ok && skipped == 3, "mark", con, 0, "a byte order mark is not skipped")
		} else {
			c.On(st, ok && skipped == 0 && not, "mark", con, 0, "something else than a byte order mark may be skipped")
		}
	}
	c.Min("mark", 2)
}

func isMark(t *eng.Term) bool {
	t = bare(t)
	if v, ok := t.StrVal(); ok {
		return v == "\xEF\xBB\xBF"
	}
	els := listArgs(t)
	if len(els) != 3 {
		return false
	}
	for i, m := range []int64{0xEF, 0xBB, 0xBF} {
		if n, ok := els[i].IntVal(); !ok || n != m {
			return false
		}
	}
	return true
}

// c29sources: a configuration is made of all its sources.
func (c *Ctx) c29sources(readers map[*ssa.Function]bool) {
	u := c.U
	isReader := func(e *eng.Event) bool {
		return e.Kind == "call" && target(e) != nil && readers[target(e)]
	}
	for _, name := range []string{"NewConfiger", "LoadIniFile", "LoadIniFromReader"} {
		f := c.Fn("config", name)
		con := eng.FuncName(f)
		for _, x := range c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Inline: func(g *ssa.Function) bool { return !readers[g] },
			Event:  func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" || e.Kind == "mapset" }}).Exits {
			st := x.St
			if x.Kind != "return" {
				c.On(st, false, "source", con, x.Pos, "reading a configuration panics")
				continue
			}
			p := st.Params()[0]
			source := func(t *eng.Term, field string) bool {
				t = bare(noOld(u, t))
				if name != "NewConfiger" {
					return t == p
				}
				v := fieldOf(t)
				return t.Op == eng.OField && t.Sym == field && t.Args[0] == p || v != nil && v.Name() == field && base0(t) == p
			}
			res, rerr := x.Results[0], x.Results[1]
			file, rd := -1, -1
			var failed []*eng.Term
			var conf *eng.Term
			same := true
			for i, e := range st.Trace {
				switch {
				case e.Kind == "call" && (e.Name == "os.Open" || e.Name == "os.OpenFile"):
					c.On(st, name != "LoadIniFromReader" && source(e.Args[0], "FileName"), "source", con, e.Pos, "another file is read")
					err := st.Ext(e.Res, 1)
					if st.IsNil(err) != 1 {
						failed = append(failed, err)
						continue
					}
					h := bare(st.Ext(e.Res, 0))
					closed := false
					for _, d := range st.Trace[i:] {
						if d.Kind == "call" && strings.HasSuffix(d.Name, ").Close") && d.Recv != nil && bare(d.Recv) == h {
							closed = true
						}
						if isReader(d) && d.Args != nil && argIs(d, h) {
							file = i
							c.On(st, !closed, "source", con, d.Pos, "a closed file is read")
						}
					}
					c.On(st, closed, "source", con, e.Pos, "a file is not closed")
				case isReader(e):
					err := errOf(st, e)
					if err == nil {
						err = bare(e.Res)
					}
					if st.IsNil(err) != 1 {
						failed = append(failed, err)
					}
					if e.Recv != nil {
						same = same && (conf == nil || conf == bare(e.Recv))
						conf = bare(e.Recv)
					}
					if name != "LoadIniFile" {
						for _, a := range e.Args {
							if source(a, "FileReader") {
								rd = i
							}
						}
					}
				}
			}
			if rerr.IsNil() || st.IsNil(rerr) == 1 {
				c.On(st, len(failed) == 0, "source", con, x.Pos, "a failure of a source is not handed out")
				noFile, noRd := name == "LoadIniFromReader", name == "LoadIniFile"
				if !noFile {
					noFile = emptyOf(st, u, func(t *eng.Term) bool { return source(t, "FileName") }) == 1
				}
				if !noRd {
					noRd = eqFact(st, func(t *eng.Term) bool { return source(t, "FileReader") }, func(t *eng.Term) bool { return t.IsNil() }) == 1
				}
				c.On(st, file >= 0 || noFile, "source", con, x.Pos, "a file is not read")
				c.On(st, rd >= 0 || noRd, "source", con, x.Pos, "a reader is not read")
				c.On(st, file < 0 || rd < 0 || file < rd, "source", con, x.Pos, "the file is read over the reader")
				c.On(st, same && (conf == nil || bare(res) == conf) && st.IsNil(res) == 0, "source", con, x.Pos, "another configuration is handed out than the one that was read")
				continue
			}
			ok := false
			for _, e := range failed {
				ok = ok || bare(rerr) == bare(e) || eng.Any(rerr, func(t *eng.Term) bool { return t == e })
			}
			c.On(st, ok, "source", con, x.Pos, "a configuration is refused although its sources were read")
		}
	}
	c.Min("source", 12)
}

func argIs(e *eng.Event, t *eng.Term) bool {
	for _, a := range e.Args {
		if bare(a) == t {
			return true
		}
	}
	return false
}
