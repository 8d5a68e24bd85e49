package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"stripcheck/eng"
)

// ---------------------------------------------------------------------------
// A small prover for linear inequalities over the integers a path knows about.

// prover decides inequalities from the facts of one path.
type prover struct {
	st   *eng.State
	u    *eng.Universe
	ineq []eng.Linear // each: <= 0
	neq  []eng.Linear // each: != 0
	seen map[*eng.Term]bool
	init func(t *eng.Term) []*eng.Term // values an induction started with
	more func(a *eng.Term, one eng.Linear)
	busy int
}

func newLin() eng.Linear { return eng.Linear{Coeff: map[*eng.Term]int64{}} }

func addLin(dst *eng.Linear, l eng.Linear, k int64) {
	dst.C += k * l.C
	for t, c := range l.Coeff {
		dst.Coeff[t] += k * c
		if dst.Coeff[t] == 0 {
			delete(dst.Coeff, t)
		}
	}
}

// lin is the linear form of a term, lengths of composed texts and lists
// expressed by the lengths of their parts.
func (p *prover) lin(t *eng.Term) eng.Linear {
	r := newLin()
	l := eng.Lin(t)
	r.C = l.C
	for a, k := range l.Coeff {
		if a.Op == eng.OBuiltin && (a.Sym == "len" || a.Sym == "cap") && len(a.Args) == 1 {
			addLin(&r, p.length(a.Args[0]), k)
			continue
		}
		if a.Op == eng.OConv && len(a.Args) == 1 && isIntegerT(a.Typ) && isIntegerT(a.Args[0].Typ) && wideEnough(a.Typ, a.Args[0].Typ) {
			addLin(&r, p.lin(a.Args[0]), k)
			continue
		}
		one := newLin()
		one.Coeff[a] = 1
		addLin(&r, one, k)
	}
	for a := range r.Coeff {
		p.axioms(a)
	}
	return r
}

func wideEnough(to, from types.Type) bool {
	a, ok1 := to.Underlying().(*types.Basic)
	b, ok2 := from.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	size := func(k types.BasicKind) int {
		switch k {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	ua, ub := a.Info()&types.IsUnsigned != 0, b.Info()&types.IsUnsigned != 0
	switch {
	case ua == ub:
		return size(a.Kind()) >= size(b.Kind())
	case ub:
		return size(a.Kind()) > size(b.Kind())
	}
	return false
}

// length is the number of elements (bytes) of a list or text.
func (p *prover) length(t *eng.Term) eng.Linear {
	r := newLin()
	if v, ok := t.StrVal(); ok {
		r.C = int64(len(v))
		return r
	}
	if t.IsNil() || t.Op == eng.OZero && !isArrayT(t.Typ) {
		return r
	}
	if n, ok := arrayLen(t.Typ); ok {
		r.C = n
		return r
	}
	switch t.Op {
	case eng.OSlice:
		if t.Args[2].IsNil() {
			r = p.length(t.Args[0])
		} else {
			r = p.lin(t.Args[2])
		}
		if !t.Args[1].IsNil() {
			addLin(&r, p.lin(t.Args[1]), -1)
		}
		return r
	case eng.OBin:
		if t.Sym == "+" && isStringT(t.Typ) {
			r = p.length(t.Args[0])
			addLin(&r, p.length(t.Args[1]), 1)
			return r
		}
	case eng.OConv:
		if lenKept(t.Typ, t.Args[0].Typ) {
			return p.length(t.Args[0])
		}
	case eng.OAlloc:
		if _, ok := t.Obj.(*ssa.MakeSlice); ok && len(t.Args) > 0 {
			return p.lin(t.Args[0])
		}
	case eng.OBuiltin:
		switch t.Sym {
		case "append":
			r = p.length(t.Args[0])
			for _, x := range t.Args[1:] {
				addLin(&r, p.length(x), 1)
			}
			return r
		case "slicelit":
			r.C = int64(len(t.Args))
			return r
		}
	}
	n := p.u.Len(t)
	r.Coeff[n] = 1
	p.axioms(n)
	return r
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isArrayT(t types.Type) bool { _, ok := arrayLen(t); return ok }

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// lenKept: converting between these keeps the number of bytes or elements.
func lenKept(to, from types.Type) bool {
	byteList := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if isStringT(t) {
			return true
		}
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	if byteList(to) && byteList(from) {
		return true
	}
	if to == nil || from == nil {
		return false
	}
	_, a := to.Underlying().(*types.Slice)
	_, b := from.Underlying().(*types.Slice)
	return a && b
}

func (p *prover) le(l eng.Linear) { p.ineq = append(p.ineq, l) }

// leT: a <= b + k
func (p *prover) leT(a, b eng.Linear, k int64) {
	r := newLin()
	addLin(&r, a, 1)
	addLin(&r, b, -1)
	r.C -= k
	p.le(r)
}

func num(n int64) eng.Linear { r := newLin(); r.C = n; return r }

// callOf names the function a value is the result of (component i).
func resultOf(t *eng.Term) (call *eng.Term, name string, i int) {
	i = 0
	if t.Op == eng.OExtract && len(t.Args) == 1 {
		fmt.Sscanf(t.Sym, "%d", &i)
		t = t.Args[0]
	}
	if t.Op != eng.OPure && t.Op != eng.ORet {
		return nil, "", 0
	}
	name = t.Sym
	if k := strings.LastIndex(name, "@"); k > 0 {
		name = name[:k]
	}
	return t, name, i
}

// axioms adds what holds of an atom whatever the path.
func (p *prover) axioms(a *eng.Term) {
	if p.seen[a] {
		return
	}
	p.seen[a] = true
	one := newLin()
	one.Coeff[a] = 1
	if a.Op == eng.OBuiltin && (a.Sym == "len" || a.Sym == "cap") {
		p.leT(num(0), one, 0)
		p.lenAxioms(a.Args[0], one)
	}
	lo, hi, hasLo, hasHi := p.st.Interval(a)
	if hasLo {
		p.leT(num(lo), one, 0)
	}
	if hasHi {
		p.leT(one, num(hi), 0)
	}
	if b, ok := basicOf(a.Typ); ok && b.Info()&types.IsUnsigned != 0 {
		p.leT(num(0), one, 0)
		switch b.Kind() {
		case types.Uint8:
			p.leT(one, num(255), 0)
		case types.Uint16:
			p.leT(one, num(65535), 0)
		}
	}
	if a.Op == eng.OBin {
		switch a.Sym {
		case "%":
			if n, ok := a.Args[1].IntVal(); ok && n > 0 {
				p.leT(one, num(n-1), 0)
				p.leT(num(-(n - 1)), one, 0)
				if p.proves(p.neg(p.lin(a.Args[0]))) {
					p.leT(num(0), one, 0)
				}
			} else {
				d := p.lin(a.Args[1])
				if p.proves(p.plus(p.neg(d), 1)) {
					p.leT(one, d, -1)
					if p.proves(p.neg(p.lin(a.Args[0]))) {
						p.leT(num(0), one, 0)
					}
				}
			}
		case "/":
			if n, ok := a.Args[1].IntVal(); ok && n > 0 {
				x := p.lin(a.Args[0])
				if p.proves(p.neg(x)) { // x >= 0
					p.leT(num(0), one, 0)
					l := newLin()
					addLin(&l, one, n)
					p.leT(l, x, 0)
				}
			}
		case "&":
			for _, q := range a.Args {
				if n, ok := q.IntVal(); ok && n >= 0 {
					p.leT(num(0), one, 0)
					p.leT(one, num(n), 0)
				}
			}
		case ">>":
			if p.proves(p.neg(p.lin(a.Args[0]))) {
				p.leT(num(0), one, 0)
				p.leT(one, p.lin(a.Args[0]), 0)
			}
		}
	}
	if a.Op == eng.OBuiltin && (a.Sym == "min" || a.Sym == "max") {
		for _, q := range a.Args {
			if a.Sym == "min" {
				p.leT(one, p.lin(q), 0)
			} else {
				p.leT(p.lin(q), one, 0)
			}
		}
	}
	if a.Op == eng.OBuiltin && a.Sym == "copy" {
		p.leT(num(0), one, 0)
		for _, q := range a.Args {
			p.leT(one, p.length(q), 0)
		}
	}
	if c, name, i := resultOf(a); c != nil && i == 0 {
		switch name {
		case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex",
			"strings.IndexByte", "strings.LastIndexByte", "bytes.IndexByte", "bytes.LastIndexByte",
			"strings.IndexRune", "bytes.IndexRune", "strings.IndexAny", "strings.LastIndexAny",
			"bytes.IndexAny", "bytes.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc", "bytes.IndexFunc", "bytes.LastIndexFunc":
			p.leT(num(-1), one, 0)
			n := p.length(c.Args[0])
			// an empty text looked for is found at the end
			off := int64(-1)
			sep := num(1)
			whole := strings.HasSuffix(name, "Index")
			if whole {
				sep = p.length(c.Args[1])
				off = 0
			}
			// found: idx + len(sep) <= len; not found: -1 <= len - 1 anyway
			if whole {
				if p.proves(p.neg(one)) {
					l := newLin()
					addLin(&l, one, 1)
					addLin(&l, sep, 1)
					p.leT(l, n, 0)
				} else if p.proves(p.plus(p.neg(sep), 1)) {
					p.leT(one, n, -1)
				} else {
					p.leT(one, n, off)
				}
			} else {
				p.leT(one, n, -1)
			}
		case "runtime.Stack":
			p.leT(num(0), one, 0)
			p.leT(one, p.length(c.Args[0]), 0)
		case "io.ReadFull", "io.ReadAtLeast":
			p.leT(num(0), one, 0)
			p.leT(one, p.length(c.Args[1]), 0)
		case "sort.Search":
			p.leT(num(0), one, 0)
			if q := p.lin(c.Args[0]); p.proves(p.neg(q)) {
				p.leT(one, q, 0)
			}
		case "sort.SearchStrings", "sort.SearchInts":
			p.leT(num(0), one, 0)
			p.leT(one, p.length(c.Args[0]), 0)
		case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n":
			p.leT(num(0), one, 0)
			p.leT(one, p.lin(c.Args[0]), -1)
		case "(*math/big.Int).Int64":
			// the remainder of a Euclidean division by a number
			if d, dn, i := resultOf(c.Args[0]); d != nil && i == 1 && dn == "(*math/big.Int).DivMod" && len(d.Args) == 4 {
				y, yn, _ := resultOf(d.Args[2])
				for y != nil && yn == "(*math/big.Int).Set" && len(y.Args) == 2 {
					y, yn, _ = resultOf(y.Args[1])
				}
				if y != nil && yn == "math/big.NewInt" {
					if n := p.lin(y.Args[0]); p.proves(p.neg(n)) {
						p.leT(num(0), one, 0)
						p.leT(one, n, -1)
					}
				}
			}
		case "(reflect.Type).NumIn":
			p.leT(num(0), one, 0)
			// the type of a method begins with its receiver
			if v, ok := fieldVar(bare(c.Args[0])); ok && v.Name() == "Type" && v.Pkg() != nil && v.Pkg().Path() == "reflect" {
				p.leT(num(1), one, 0)
			}
		case "(reflect.Type).NumOut", "(reflect.Type).NumField", "(reflect.Type).NumMethod", "(reflect.Type).Len":
			p.leT(num(0), one, 0)
		case "(reflect.Value).Len", "(reflect.Value).NumField", "(reflect.Value).NumMethod", "(reflect.Value).Cap", "unicode/utf8.RuneCountInString", "strings.Count":
			p.leT(num(0), one, 0)
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		}
		if strings.HasSuffix(name, ").Read") && len(c.Args) > 0 {
			q := c.Args[len(c.Args)-1]
			if lenKept(q.Typ, q.Typ) {
				p.leT(num(0), one, 0)
				p.leT(one, p.length(q), 0)
			}
		}
	}
	if c, name, i := resultOf(a); c != nil && i == 1 {
		switch name {
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
			p.leT(num(0), one, 0)
			p.leT(one, p.length(c.Args[0]), 0)
		}
	}
	if p.more != nil {
		p.more(a, one)
	}
	if ind, ok := a.Obj.(*eng.Induction); ok && a.Op == eng.OOpaque && ind.HasStep && p.init != nil {
		for _, v := range p.init(a) {
			if ind.Step <= 0 {
				p.leT(one, p.lin(v), 0)
			}
			if ind.Step >= 0 {
				p.leT(p.lin(v), one, 0)
			}
		}
	}
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// lenAxioms: what library functions say about the length of their results.
func (p *prover) lenAxioms(t *eng.Term, n eng.Linear) {
	c, name, i := resultOf(t)
	if c == nil {
		return
	}
	sub := func(x *eng.Term) { p.leT(n, p.length(x), 0) }
	switch name {
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc",
		"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimFunc":
		sub(c.Args[0])
		if (name == "strings.TrimPrefix" || name == "strings.TrimSuffix") && len(c.Args) == 2 {
			l := p.length(c.Args[0])
			addLin(&l, p.length(c.Args[1]), -1)
			p.leT(l, n, 0)
		}
	case "strings.Repeat":
		if k, ok := c.Args[1].IntVal(); ok {
			l := newLin()
			addLin(&l, p.length(c.Args[0]), k)
			p.leT(l, n, 0)
			p.leT(n, l, 0)
		}
	case "strings.Split", "strings.SplitAfter", "bytes.Split":
		if sep, ok := c.Args[1].StrVal(); ok && sep != "" && startsWith(c.Args[0], sep) {
			p.leT(num(2), n, 0)
		}
		if q := p.length(c.Args[1]); p.proves(p.plus(p.neg(q), 1)) {
			p.leT(num(1), n, 0)
		}
	case "strings.SplitN", "strings.SplitAfterN", "bytes.SplitN":
		if k, ok := c.Args[2].IntVal(); ok && k != 0 {
			if q := p.length(c.Args[1]); p.proves(p.plus(p.neg(q), 1)) {
				p.leT(num(1), n, 0)
			}
			if k > 0 {
				p.leT(n, num(k), 0)
			}
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.Quote", "path.Clean", "path/filepath.Clean", "path.Base", "path/filepath.Base", "path.Dir":
		if i == 0 {
			p.leT(num(1), n, 0)
		}
	case "crypto/sha1.Sum", "crypto/md5.Sum":
	}
}

func (p *prover) neg(l eng.Linear) eng.Linear { r := newLin(); addLin(&r, l, -1); return r }
func (p *prover) plus(l eng.Linear, k int64) eng.Linear {
	r := newLin()
	addLin(&r, l, 1)
	r.C += k
	return r
}

// load reads the facts of the path.
func (p *prover) load() {
	type endFact struct {
		s, at *eng.Term
		c     int64
	}
	for _, f := range p.st.Facts() {
		t := f.T
		switch {
		case t.Op == eng.OBin && len(t.Args) == 2 && t.Sym == "lt" && isIntegerT(t.Args[0].Typ) && isIntegerT(t.Args[1].Typ):
			a, b := p.lin(t.Args[0]), p.lin(t.Args[1])
			if !f.Neg {
				p.leT(a, b, -1)
			} else {
				p.leT(b, a, 0)
			}
		case t.Op == eng.OBin && len(t.Args) == 2 && t.Sym == "eq":
			x, y := t.Args[0], t.Args[1]
			switch {
			case isIntegerT(x.Typ) && isIntegerT(y.Typ):
				a, b := p.lin(x), p.lin(y)
				if !f.Neg {
					p.leT(a, b, 0)
					p.leT(b, a, 0)
				} else {
					d := newLin()
					addLin(&d, a, 1)
					addLin(&d, b, -1)
					p.neq = append(p.neq, d)
				}
			case isStringT(x.Typ) && isStringT(y.Typ):
				a, b := p.length(x), p.length(y)
				for q := range a.Coeff {
					p.axioms(q)
				}
				for q := range b.Coeff {
					p.axioms(q)
				}
				if !f.Neg {
					p.leT(a, b, 0)
					p.leT(b, a, 0)
				} else {
					for _, q := range [][2]*eng.Term{{x, y}, {y, x}} {
						if v, ok := q[0].StrVal(); ok && v == "" {
							p.leT(num(1), p.length(q[1]), 0)
						}
					}
				}
			case x.IsNil() || y.IsNil():
				// a nil list has no elements
				if !f.Neg {
					v := x
					if x.IsNil() {
						v = y
					}
					if isListT(v.Typ) {
						p.leT(p.length(v), num(0), 0)
					}
				}
			}
		case t.Op == eng.OPure && !f.Neg && len(t.Args) == 2:
			switch t.Sym {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
				p.leT(p.length(t.Args[1]), p.length(t.Args[0]), 0)
			}
		}
	}
	p.ends()
	p.strict()
}

func isListT(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// startsWith: the text begins with the constant whatever it is composed of.
func startsWith(t *eng.Term, pre string) bool {
	if v, ok := t.StrVal(); ok {
		return strings.HasPrefix(v, pre)
	}
	if t.Op == eng.OBin && t.Sym == "+" && isStringT(t.Typ) {
		if v, ok := t.Args[0].StrVal(); ok && len(v) < len(pre) && strings.HasPrefix(pre, v) {
			return startsWith(t.Args[1], pre[len(v):])
		}
		return startsWith(t.Args[0], pre)
	}
	if c, name, _ := resultOf(t); c != nil && (name == "path.Clean" || name == "path/filepath.Clean" || name == "path.Join" && len(c.Args) > 0) && pre == "/" {
		return name == "path.Clean" && startsWith(c.Args[0], pre)
	}
	return false
}

// ends: a text whose first and last bytes differ has at least two bytes; one
// with a prefix ending in another byte than the text itself is longer.
func (p *prover) ends() {
	first := map[*eng.Term]int64{}
	last := map[*eng.Term]int64{}
	var lists []*eng.Term
	note := func(m map[*eng.Term]int64, s *eng.Term, c int64) {
		if _, ok := m[s]; !ok {
			m[s] = c
			lists = append(lists, s)
		}
	}
	type pre struct{ s, a *eng.Term }
	var pres []pre
	for _, f := range p.st.Facts() {
		t := f.T
		if f.Neg {
			continue
		}
		switch {
		case t.Op == eng.OBin && t.Sym == "eq" && len(t.Args) == 2:
			for _, q := range [][2]*eng.Term{{t.Args[0], t.Args[1]}, {t.Args[1], t.Args[0]}} {
				c, ok := q[0].IntVal()
				if !ok || q[1].Op != eng.OIndex {
					continue
				}
				s, i := q[1].Args[0], q[1].Args[1]
				if v, ok := i.IntVal(); ok && v == 0 {
					note(first, s, c)
				}
				d := p.lin(i)
				addLin(&d, p.length(s), -1)
				if len(d.Coeff) == 0 && d.C == -1 {
					note(last, s, c)
				}
			}
		case t.Op == eng.OPure && len(t.Args) == 2 && (t.Sym == "strings.HasPrefix" || t.Sym == "strings.HasSuffix"):
			v, ok := t.Args[1].StrVal()
			if ok && v != "" {
				if t.Sym == "strings.HasPrefix" {
					note(first, t.Args[0], int64(v[0]))
				} else {
					note(last, t.Args[0], int64(v[len(v)-1]))
				}
			}
			if t.Sym == "strings.HasPrefix" {
				pres = append(pres, pre{t.Args[0], t.Args[1]})
			}
		}
	}
	for _, s := range lists {
		a, ok1 := first[s]
		b, ok2 := last[s]
		if ok1 && ok2 && a != b {
			p.leT(num(2), p.length(s), 0)
		}
	}
	for _, q := range pres {
		c, ok := last[q.s]
		if !ok {
			continue
		}
		if d, ok := lastByte(q.a); ok && d != c {
			p.leT(p.length(q.a), p.length(q.s), -1)
		}
	}
}

// lastByte is the last byte of a text that ends in a constant.
func lastByte(t *eng.Term) (int64, bool) {
	if v, ok := t.StrVal(); ok && v != "" {
		return int64(v[len(v)-1]), true
	}
	if t.Op == eng.OBin && t.Sym == "+" && isStringT(t.Typ) {
		if v, ok := t.Args[1].StrVal(); ok && v == "" {
			return lastByte(t.Args[0])
		}
		return lastByte(t.Args[1])
	}
	return 0, false
}

// strict turns x != y into x < y where x <= y is known.
func (p *prover) strict() {
	for round := 0; round < 3; round++ {
		var left []eng.Linear
		changed := false
		for _, d := range p.neq {
			switch {
			case p.proves(d): // d <= 0, so d <= -1
				p.le(p.plus(d, 1))
				changed = true
			case p.proves(p.neg(d)):
				p.le(p.plus(p.neg(d), 1))
				changed = true
			default:
				left = append(left, d)
			}
		}
		p.neq = left
		if !changed {
			return
		}
	}
}

// proves: l <= 0 follows.
func (p *prover) proves(l eng.Linear) bool {
	if len(l.Coeff) == 0 {
		return l.C <= 0
	}
	if p.busy > 3 {
		return false
	}
	p.busy++
	defer func() { p.busy-- }()
	goal := p.plus(p.neg(l), 1) // 1 - l <= 0
	// inequalities connected with the goal
	sys := []eng.Linear{goal}
	atoms := map[*eng.Term]bool{}
	for t := range goal.Coeff {
		atoms[t] = true
	}
	used := make([]bool, len(p.ineq))
	for again := true; again; {
		again = false
		for i, q := range p.ineq {
			if used[i] {
				continue
			}
			hit := len(q.Coeff) == 0
			for t := range q.Coeff {
				if atoms[t] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				again = true
				sys = append(sys, q)
				for t := range q.Coeff {
					atoms[t] = true
				}
			}
		}
	}
	return refuted(sys)
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		return -a
	}
	return a
}

// tighten divides an inequality by the common factor of its coefficients.
func tighten(l eng.Linear) eng.Linear {
	var g int64
	for _, k := range l.Coeff {
		g = gcd(g, k)
	}
	if g <= 1 {
		return l
	}
	r := newLin()
	for t, k := range l.Coeff {
		r.Coeff[t] = k / g
	}
	// sum <= -C: floor(-C/g)
	c := -l.C
	q := c / g
	if c%g != 0 && c < 0 {
		q--
	}
	r.C = -q
	return r
}

func linKey(l eng.Linear) string {
	ids := make([]int, 0, len(l.Coeff))
	m := map[int]int64{}
	for t, k := range l.Coeff {
		ids = append(ids, t.ID)
		m[t.ID] = k
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&b, "%d:%d,", i, m[i])
	}
	return b.String()
}

// refuted: the inequalities have no common solution (Fourier-Motzkin).
func refuted(sys []eng.Linear) bool {
	cur := map[string]eng.Linear{}
	put := func(l eng.Linear) bool {
		if len(l.Coeff) == 0 {
			return l.C > 0
		}
		l = tighten(l)
		k := linKey(l)
		if o, ok := cur[k]; !ok || l.C > o.C {
			cur[k] = l
		}
		return false
	}
	for _, l := range sys {
		if put(l) {
			return true
		}
	}
	for len(cur) > 0 {
		// the atom that costs least
		pos, neg := map[*eng.Term]int{}, map[*eng.Term]int{}
		for _, l := range cur {
			for t, k := range l.Coeff {
				if k > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var best *eng.Term
		cost := 0
		for _, l := range cur {
			for t := range l.Coeff {
				c := pos[t]*neg[t] - pos[t] - neg[t]
				if best == nil || c < cost || c == cost && t.ID < best.ID {
					best, cost = t, c
				}
			}
		}
		var up, down []eng.Linear
		for k, l := range cur {
			switch q := l.Coeff[best]; {
			case q > 0:
				up = append(up, l)
				delete(cur, k)
			case q < 0:
				down = append(down, l)
				delete(cur, k)
			}
		}
		if len(up)*len(down)+len(cur) > 3000 {
			return false
		}
		for _, a := range up {
			for _, b := range down {
				ka, kb := a.Coeff[best], -b.Coeff[best]
				g := gcd(ka, kb)
				r := newLin()
				addLin(&r, a, kb/g)
				addLin(&r, b, ka/g)
				big := false
				for _, k := range r.Coeff {
					if k > 1<<30 || k < -(1<<30) {
						big = true
					}
				}
				if big || r.C > 1<<50 || r.C < -(1<<50) {
					continue
				}
				if put(r) {
					return true
				}
			}
		}
	}
	return false
}

// A contract is an inequality a function relies on (pre) or establishes (post);
// all of them are inferred: candidates are assumed together and dropped until
// the rest is inductive.
type contract struct {
	kind string // neg0: -x<=0; pos: 1-x<=0; ne: 1-len(x)<=0; lelen: x<=len(y); ltlen: x<len(y); lenlen: len(x)<=len(y); ge-1; le: x<=y
	i, j int
	n    int64 // for "max"
}

// holds gives the inequality (<= 0) for actual values.
func (k contract) lin(p *prover, x, y *eng.Term) (eng.Linear, bool) {
	if x == nil || y == nil && k.two() {
		return eng.Linear{}, false
	}
	switch k.kind {
	case "ge0":
		return p.neg(p.lin(x)), true
	case "gem1":
		return p.plus(p.neg(p.lin(x)), -1), true
	case "ge1":
		return p.plus(p.neg(p.lin(x)), 1), true
	case "max":
		return p.plus(p.lin(x), -k.n), true
	case "some":
		return p.plus(p.neg(p.length(x)), 1), true
	case "two":
		return p.plus(p.neg(p.length(x)), 2), true
	}
	r := newLin()
	switch k.kind {
	case "lelen", "ltlen":
		addLin(&r, p.lin(x), 1)
		addLin(&r, p.length(y), -1)
	case "lenlen", "lenlt":
		addLin(&r, p.length(x), 1)
		addLin(&r, p.length(y), -1)
	case "le":
		addLin(&r, p.lin(x), 1)
		addLin(&r, p.lin(y), -1)
	}
	if k.kind == "ltlen" || k.kind == "lenlt" {
		r.C++
	}
	return r, true
}

func (k contract) two() bool {
	switch k.kind {
	case "lelen", "ltlen", "lenlen", "lenlt", "le":
		return true
	}
	return false
}

func listLike(t types.Type) bool {
	if isStringT(t) {
		return true
	}
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// bounder holds the state of the inference.
type bounder struct {
	c      *Ctx
	pre    map[*ssa.Function]map[contract]bool
	post   map[*ssa.Function]map[contract]bool
	field  map[*types.Var]bool // integer fields that are never negative
	grow   map[*types.Var]bool // list fields that only grow
	byObj  map[*types.Func]*ssa.Function
	byName map[string][]*ssa.Function
	phis   map[*ssa.Phi][]*eng.Term
	given  map[*ssa.Function]map[contract]bool // what callers from outside are held to
	consts map[*ssa.Global]*eng.Linear
	sizes  []int64
	some   map[*types.Var]bool    // list fields that always have an element
	someT  map[string]bool        // list types that always have an element
	enum   map[string][2]int64    // integer types with a fixed set of values
	segs   map[*ssa.Function]bool // results that are the segments of a cleaned path
	yields map[*ssa.Function]bool // successful calls have a result
	change bool
}

// paramTypes includes the receiver.
func paramTypes(f *ssa.Function) (ts []types.Type) {
	for _, p := range f.Params {
		ts = append(ts, p.Type())
	}
	return
}

func resultTypes(f *ssa.Function) (ts []types.Type) {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		ts = append(ts, r.At(i).Type())
	}
	return
}

func unary(t types.Type) []string {
	if isIntegerT(t) {
		return []string{"ge0", "ge1", "gem1"}
	}
	if listLike(t) {
		return []string{"some", "two"}
	}
	return nil
}

func binary(a, b types.Type) []string {
	switch {
	case isIntegerT(a) && listLike(b):
		return []string{"lelen", "ltlen"}
	case listLike(a) && listLike(b):
		return []string{"lenlen", "lenlt"}
	case isIntegerT(a) && isIntegerT(b):
		return []string{"le"}
	}
	return nil
}

func newBounder(c *Ctx) *bounder {
	b := &bounder{c: c, pre: map[*ssa.Function]map[contract]bool{}, post: map[*ssa.Function]map[contract]bool{}, field: map[*types.Var]bool{}, grow: map[*types.Var]bool{}, byObj: map[*types.Func]*ssa.Function{}, byName: map[string][]*ssa.Function{}, phis: map[*ssa.Phi][]*eng.Term{}, given: map[*ssa.Function]map[contract]bool{}, segs: map[*ssa.Function]bool{}}
	b.globals()
	taken := map[*ssa.Function]bool{}
	takenObj := map[*types.Func]bool{}
	escaped := map[*types.Var]bool{}
	fields := map[*types.Var]bool{}
	notGrow := map[*types.Var]bool{}
	appended := map[*types.Var]bool{}
	sizes := map[int64]bool{}
	b.c = c
	for _, f := range b.bodies() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().Value == *o {
						n := 0
						for _, a := range call.Common().Args {
							if a == *o {
								n++
							}
						}
						if n == 0 {
							continue
						}
					}
					taken[g] = true
					if o, ok := g.Object().(*types.Func); ok && g.Synthetic != "" {
						takenObj[o] = true
					}
				}
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if n, ok := arrayLen(ia.X.Type()); ok && n > 1 {
						if _, isC := ia.Index.(*ssa.Const); !isC {
							sizes[n], sizes[n-1] = true, true
						}
					}
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
				fields[fv] = true
				for _, ref := range *fa.Referrers() {
					switch r := ref.(type) {
					case *ssa.Store:
						if r.Addr != fa {
							escaped[fv] = true
							continue
						}
						// only ever: x.f = append(x.f, …)
						ok := false
						if call, is := r.Val.(*ssa.Call); is {
							if bi, is := call.Call.Value.(*ssa.Builtin); is && bi.Name() == "append" {
								if ld, is := call.Call.Args[0].(*ssa.UnOp); is {
									if fa2, is := ld.X.(*ssa.FieldAddr); is && fa2.X == fa.X && fa2.Field == fa.Field {
										ok = true
										appended[fv] = true
									}
								}
							}
						}
						if al, is := fa.X.(*ssa.Alloc); is && al.Block() == r.Block() {
							ok = true // filled in where it is made
						}
						if !ok {
							notGrow[fv] = true
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						escaped[fv] = true
					}
				}
			}
		}
	}
	for n := range sizes {
		b.sizes = append(b.sizes, n)
	}
	for fv := range fields {
		if escaped[fv] || fv.Exported() {
			continue
		}
		if isIntegerT(fv.Type()) {
			b.field[fv] = true
		}
		if listLike(fv.Type()) && appended[fv] && !notGrow[fv] {
			b.grow[fv] = true
		}
	}
	for _, f := range c.P.Funcs {
		if len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		if o, ok := f.Object().(*types.Func); ok {
			b.byObj[o] = f
		}
		if f.Signature.Recv() != nil {
			b.byName[f.Name()] = append(b.byName[f.Name()], f)
		}
		ps, rs := paramTypes(f), resultTypes(f)
		b.pre[f], b.post[f] = map[contract]bool{}, map[contract]bool{}
		fo, _ := f.Object().(*types.Func)
		if !token.IsExported(f.Name()) && !taken[f] && !takenObj[fo] && f.Name() != "init" && f.Name() != "main" {
			for i, t := range ps {
				if isIntegerT(t) {
					for _, n := range b.sizes {
						b.pre[f][contract{kind: "max", i: i, j: -1, n: n}] = true
					}
				}
				for _, k := range unary(t) {
					b.pre[f][contract{kind: k, i: i, j: -1}] = true
				}
				for j, t2 := range ps {
					if i == j {
						continue
					}
					for _, k := range binary(t, t2) {
						b.pre[f][contract{kind: k, i: i, j: j}] = true
					}
				}
			}
		}
		if len(rs) == 1 {
			if sl, ok := rs[0].Underlying().(*types.Slice); ok && isStringT(sl.Elem()) {
				b.segs[f] = true
			}
		}
		for i, t := range rs {
			for _, k := range unary(t) {
				b.post[f][contract{kind: k, i: i, j: -1}] = true
			}
			for j, t2 := range ps {
				for _, k := range binary(t, t2) {
					b.post[f][contract{kind: k, i: i, j: j}] = true
				}
			}
		}
	}
	return b
}

func (b *bounder) prover(st *eng.State) *prover {
	p := &prover{st: st, u: b.c.U, seen: map[*eng.Term]bool{}}
	p.init = func(t *eng.Term) []*eng.Term {
		ind := t.Obj.(*eng.Induction)
		if v := st.Var("start:" + ind.Phi.Parent().String() + ":" + ind.Phi.Name()); v != nil {
			return []*eng.Term{v}
		}
		if vs := b.phis[ind.Phi]; len(vs) == 1 {
			return vs
		}
		return nil
	}
	p.more = func(a *eng.Term, one eng.Linear) {
		x := a
		if a.Op == eng.OBuiltin && a.Sym == "len" {
			x = a.Args[0]
		}
		// fields that are never negative
		if f, ok := fieldVar(x); ok && a == x && b.field[f] {
			p.leT(num(0), one, 0)
		}
		if x != a {
			// variables of a package that keep the list they start with
			if x.Op == eng.OLoad && x.Args[0].Op == eng.OGlobal {
				if g, ok := x.Args[0].Obj.(*ssa.Global); ok {
					if l := b.consts[g]; l != nil {
						p.leT(one, *l, 0)
						p.leT(*l, one, 0)
					}
					if g.Pkg.Pkg.Path() == "os" && g.Name() == "Args" {
						p.leT(num(1), one, 0)
					}
				}
			}
			if fv, ok := fieldVar(x); ok && b.some[fv] {
				p.leT(num(1), one, 0)
			}
			if b.someT[typeKeyOf(x.Typ)] {
				p.leT(num(1), one, 0)
			}
			if b.segment(p, x) {
				p.leT(num(1), one, 0)
			}
		} else if r, ok := b.enum[typeKeyOf(x.Typ)]; ok && x.Op != eng.OBin {
			p.leT(num(r[0]), one, 0)
			p.leT(one, num(r[1]), 0)
		}
		// what a call establishes
		call, i := x, 0
		if x.Op == eng.OExtract {
			fmt.Sscanf(x.Sym, "%d", &i)
			call = x.Args[0]
		}
		if call.Op != eng.ORet && call.Op != eng.OPure {
			return
		}
		o, ok := call.Obj.(*types.Func)
		if !ok {
			return
		}
		g := b.byObj[o]
		if g == nil {
			return
		}
		if b.yields[g] && i == 0 && x != a && st.EvalTerm(b.c.U.EqNil(st.Ext(call, 1))) == 1 {
			p.leT(num(1), one, 0)
		}
		for k := range b.post[g] {
			if k.i != i || k.j >= len(call.Args) {
				continue
			}
			var y *eng.Term
			if k.j >= 0 {
				y = call.Args[k.j]
			}
			if l, ok := k.lin(p, x, y); ok {
				p.le(l)
			}
		}
	}
	// what the function analysed may rely on
	f := st.Entry()
	ps := st.Params()
	rely := func(k contract) {
		var y *eng.Term
		if k.j >= 0 {
			y = ps[k.j]
		}
		if k.i >= len(ps) || k.j >= len(ps) {
			return
		}
		if l, ok := k.lin(p, ps[k.i], y); ok {
			p.le(l)
		}
	}
	for k := range b.pre[f] {
		rely(k)
	}
	for k := range b.given[f] {
		rely(k)
	}
	return p
}

func typeKeyOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// globals finds the package variables holding a list made once of constants.
func (b *bounder) globals() {
	b.consts = map[*ssa.Global]*eng.Linear{}
	stores := map[*ssa.Global]int{}
	val := map[*ssa.Global]ssa.Value{}
	done := map[*ssa.Function]bool{}
	scan := func(f *ssa.Function) {
		if done[f] {
			return
		}
		done[f] = true
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				for _, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == *o && f.Name() == "init" && f.Synthetic != "" {
							stores[g]++
							val[g] = x.Val
						} else {
							stores[g] += 2
						}
					default:
						stores[g] += 2
					}
				}
			}
		}
	}
	inits := map[*ssa.Function]bool{}
	for _, f := range b.c.P.Funcs {
		scan(f)
		if f.Pkg != nil {
			if in := f.Pkg.Func("init"); in != nil {
				inits[in] = true
			}
		}
	}
	for f := range inits {
		scan(f)
	}
	for g, n := range stores {
		if n != 1 {
			continue
		}
		v := val[g]
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				l := num(int64(len(constant.StringVal(x.Value))))
				b.consts[g] = &l
			}
		case *ssa.Slice:
			if k, ok := arrayLen(x.X.Type()); ok && x.Low == nil && x.High == nil {
				l := num(k)
				b.consts[g] = &l
			}
		}
	}
}

// segments: the list is what lies between the slashes of a cleaned rooted path.
func (b *bounder) segments(t *eng.Term) bool {
	t = bare(t)
	if t.Op == eng.OSlice {
		n, ok := t.Args[1].IntVal()
		return ok && n == 1 && t.Args[2].IsNil() && splitPath(t.Args[0])
	}
	if c, _, i := resultOf(t); c != nil && i == 0 && c == t {
		if o, ok := c.Obj.(*types.Func); ok && b.byObj[o] != nil {
			return b.segs[b.byObj[o]]
		}
	}
	return false
}

// splitPath: a cleaned rooted path, split at the slashes.
func splitPath(t *eng.Term) bool {
	c, name, _ := resultOf(t)
	if c == nil || name != "strings.Split" {
		return false
	}
	if v, ok := c.Args[1].StrVal(); !ok || v != "/" {
		return false
	}
	q, name, _ := resultOf(c.Args[0])
	return q != nil && name == "path.Clean" && startsWith(q.Args[0], "/")
}

// segment: the text is a segment of a cleaned path that has some.
func (b *bounder) segment(p *prover, x *eng.Term) bool {
	u := b.c.U
	base, idx, ok := index(noOld(u, x))
	if !ok {
		return false
	}
	first := int64(0)
	if splitPath(bare(base)) {
		first = 1
		if !p.proves(p.plus(p.neg(p.lin(idx)), 1)) {
			return false
		}
	} else if !b.segments(base) {
		return false
	}
	for _, f := range p.st.Facts() {
		if f.T.Op != eng.OBin || f.T.Sym != "eq" || !f.Neg {
			continue
		}
		for k := 0; k < 2; k++ {
			if v, ok := f.T.Args[k].StrVal(); !ok || v != "" {
				continue
			}
			b2, i2, ok := index(noOld(u, f.T.Args[1-k]))
			if ok && b2 == base && i2 != nil {
				if n, ok := i2.IntVal(); ok && n == first {
					return true
				}
			}
		}
	}
	return false
}

// fieldVar is the field a value was read from.
func fieldVar(t *eng.Term) (*types.Var, bool) {
	switch {
	case t.Op == eng.OLoad && t.Args[0].Op == eng.OFAddr:
		v, ok := t.Args[0].Obj.(*types.Var)
		return v, ok
	case t.Op == eng.OField:
		v, ok := t.Obj.(*types.Var)
		return v, ok
	}
	return nil, false
}

// run analyses one function and decides each site on every path.
func (b *bounder) run(f *ssa.Function, inline func(*ssa.Function) bool) (map[ssa.Instruction]string, *eng.Result) {
	c, u := b.c, b.c.U
	out := map[ssa.Instruction]string{}
	o := &eng.Options{Exact: true, CutAt: cutAll, Bounds: true, Inline: inline, Prog: c.P}
	o.Stable = func(v *types.Var) bool { return b.grow[v] }
	o.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
		if back {
			return
		}
		for ph, v := range vals {
			st.SetVar("start:"+ph.Parent().String()+":"+ph.Name(), v)
			has := false
			for _, x := range b.phis[ph] {
				has = has || x == v
			}
			if !has {
				b.phis[ph] = append(b.phis[ph], v)
			}
		}
	}
	o.Event = func(st *eng.State, e *eng.Event) bool {
		switch e.Kind {
		case "bounds":
			if n, ok := arrayLen(e.Args[0].Typ); ok && e.Name == "index" {
				if i, ok := e.Args[1].IntVal(); ok && i >= 0 && i < n {
					break // decided by the compiler
				}
			}
			why := b.prover(st).site(e)
			if old, ok := out[e.Instr]; !ok || old == "" {
				out[e.Instr] = why
			}
		case "call", "go", "defer":
			b.callSite(st, e)
			if why, ok := b.prover(st).library(e); ok {
				if old, had := out[e.Instr]; !had || old == "" {
					out[e.Instr] = why
				}
			}
		case "store":
			if e.Addr.Op != eng.OFAddr {
				break
			}
			v, ok := e.Addr.Obj.(*types.Var)
			if !ok || !b.field[v] {
				break
			}
			p := b.prover(st)
			x := p.lin(e.Val)
			p.load()
			if !p.proves(p.neg(x)) {
				delete(b.field, v)
				b.change = true
			}
		}
		return false
	}
	_ = u
	r := eng.Run(f, o)
	c.runs++
	c.paths += len(r.Exits)
	c.states += r.States
	c.steps += r.Steps
	if b.segs[f] {
		for _, x := range r.Exits {
			if x.Kind == "return" && !b.segments(x.Results[0]) {
				delete(b.segs, f)
				b.change = true
			}
		}
	}
	if post := b.post[f]; len(post) > 0 {
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			p := b.prover(x.St)
			type q struct {
				k contract
				l eng.Linear
			}
			var qs []q
			for k := range post {
				var y *eng.Term
				if k.j >= 0 {
					y = r.Params[k.j]
				}
				if l, ok := k.lin(p, x.Results[k.i], y); ok {
					qs = append(qs, q{k, l})
				}
			}
			p.load()
			for _, z := range qs {
				if !p.proves(z.l) {
					delete(post, z.k)
					b.change = true
				}
			}
		}
	}
	return out, r
}

// callSite checks what the callee relies on.
func (b *bounder) callSite(st *eng.State, e *eng.Event) {
	var gs []*ssa.Function
	if g := target(e); g != nil {
		gs = append(gs, g)
	} else if e.Callee != nil {
		if g := b.byObj[e.Callee]; g != nil {
			gs = append(gs, g)
		} else if r := e.Callee.Type().(*types.Signature).Recv(); r != nil && types.IsInterface(r.Type()) {
			gs = b.byName[e.Callee.Name()]
		}
	}
	for _, g := range gs {
		pre := b.pre[g]
		if len(pre) == 0 {
			continue
		}
		args := e.Args
		if g.Signature.Recv() != nil && e.Recv != nil {
			args = append([]*eng.Term{e.Recv}, e.Args...)
		}
		if len(args) != len(g.Params) {
			for k := range pre {
				delete(pre, k)
				b.change = true
			}
			continue
		}
		p := b.prover(st)
		type q struct {
			k contract
			l eng.Linear
		}
		var qs []q
		for k := range pre {
			var y *eng.Term
			if k.j >= 0 {
				y = args[k.j]
			}
			if l, ok := k.lin(p, args[k.i], y); ok {
				qs = append(qs, q{k, l})
			}
		}
		p.load()
		for _, z := range qs {
			if !p.proves(z.l) {
				delete(pre, z.k)
				b.change = true
			}
		}
	}
}

// site decides one access; the answer is what is missing.
func (p *prover) site(e *eng.Event) string {
	switch e.Name {
	case "index":
		b, i := e.Args[0], e.Args[1]
		if _, ok := b.Typ.Underlying().(*types.Map); ok {
			return ""
		}
		n, x := p.length(b), p.lin(i)
		for a := range n.Coeff {
			p.axioms(a)
		}
		p.load()
		if !p.proves(p.neg(x)) {
			return "index " + short(i) + " may be negative"
		}
		l := newLin()
		addLin(&l, x, 1)
		addLin(&l, n, -1)
		if !p.proves(p.plus(l, 1)) {
			return "index " + short(i) + " may be beyond the end of " + short(b)
		}
	case "slice":
		b, lo, hi, mx := e.Args[0], e.Args[1], e.Args[2], e.Args[3]
		n := p.length(b)
		for a := range n.Coeff {
			p.axioms(a)
		}
		x, y := num(0), n
		if !lo.IsNil() {
			x = p.lin(lo)
		}
		top := n
		if !hi.IsNil() {
			y = p.lin(hi)
		}
		z := newLin()
		if !mx.IsNil() {
			z = p.lin(mx)
		}
		p.load()
		if !mx.IsNil() {
			// at most the length, which is never more than the capacity
			l := newLin()
			addLin(&l, z, 1)
			addLin(&l, n, -1)
			if !p.proves(l) {
				return "capacity " + short(mx) + " may be beyond the length of " + short(b)
			}
			top = z
		}
		if !p.proves(p.neg(x)) {
			return "start " + short(lo) + " may be negative"
		}
		l := newLin()
		addLin(&l, x, 1)
		addLin(&l, y, -1)
		if !p.proves(l) {
			return "start " + short(lo) + " may be beyond the end " + short(hi)
		}
		l = newLin()
		addLin(&l, y, 1)
		addLin(&l, top, -1)
		if !p.proves(l) {
			return "end " + short(hi) + " may be beyond " + short(b)
		}
	case "make":
		a, b := p.lin(e.Args[0]), p.lin(e.Args[1])
		p.load()
		if !p.proves(p.neg(a)) {
			return "length " + short(e.Args[0]) + " may be negative"
		}
		l := newLin()
		addLin(&l, a, 1)
		addLin(&l, b, -1)
		if !p.proves(l) {
			return "length may be beyond the capacity"
		}
	case "div":
		if n, ok := e.Args[1].IntVal(); ok {
			if n == 0 {
				return "division by zero"
			}
			return ""
		}
		x := p.lin(e.Args[1])
		p.load()
		if p.proves(p.plus(p.neg(x), 1)) || p.proves(p.plus(x, 1)) {
			return ""
		}
		for _, d := range p.neq {
			if linKey(d) == linKey(x) && d.C == x.C || linKey(d) == linKey(p.neg(x)) && d.C == -x.C {
				return ""
			}
		}
		return "divisor " + short(e.Args[1]) + " may be zero"
	}
	return ""
}

// library decides what a library function asks of its arguments.
func (p *prover) library(e *eng.Event) (string, bool) {
	atLeast := func(l eng.Linear, n int64, what string) (string, bool) {
		p.load()
		if p.proves(p.plus(p.neg(l), n)) {
			return "", true
		}
		return fmt.Sprintf("%s of %s may be less than %d", what, e.Name, n), true
	}
	switch e.Name {
	case "strings.Repeat", "bytes.Repeat":
		return atLeast(p.lin(e.Args[1]), 0, "the count")
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "math/rand/v2.IntN", "math/rand/v2.N":
		return atLeast(p.lin(e.Args[0]), 1, "the range")
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate":
		return atLeast(p.lin(e.Args[0]), 0, "the length")
	}
	if strings.HasPrefix(e.Name, "(encoding/binary.") && len(e.Args) > 0 && listLike(e.Args[0].Typ) {
		m := e.Name[strings.LastIndex(e.Name, ".")+1:]
		switch strings.TrimPrefix(m, "Put") {
		case "Uint16":
			return atLeast(p.length(e.Args[0]), 2, "the length")
		case "Uint32":
			return atLeast(p.length(e.Args[0]), 4, "the length")
		case "Uint64":
			return atLeast(p.length(e.Args[0]), 8, "the length")
		}
	}
	return "", false
}

func short(t *eng.Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// assume states what users of the package are held to.
func (b *bounder) assume() {
	b.some, b.someT, b.enum = map[*types.Var]bool{}, map[string]bool{}, map[string][2]int64{}
	root := b.c.P.Pkg("")
	// a nested router carries its path, a method handler its controller
	if t, ok := root.Pkg.Scope().Lookup("routeArgs").(*types.TypeName); ok {
		if st, ok := t.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "strings" {
					b.some[st.Field(i)] = true
				}
			}
		}
	}
	b.someT[b.c.P.Mod+".methodParams"] = true
	// levels are the declared ones
	lo, hi, any := int64(0), int64(0), false
	for _, n := range root.Pkg.Scope().Names() {
		k, ok := root.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || typeKeyOf(k.Type()) != b.c.P.Mod+".Level" {
			continue
		}
		v, ok := constant.Int64Val(k.Val())
		if !ok {
			continue
		}
		if !any || v < lo {
			lo = v
		}
		if !any || v > hi {
			hi = v
		}
		any = true
	}
	if any {
		b.enum[b.c.P.Mod+".Level"] = [2]int64{lo, hi}
	}
	// what is found by the name of its result has one
	b.yields = map[*ssa.Function]bool{}
	for _, f := range b.byName["invoke"] {
		if f.Pkg == b.c.P.Pkg("inject") && f.Signature.Results().Len() == 2 {
			b.yields[f] = true
		}
	}
	for _, n := range []string{"RandomCreateBytes", "RandomCreateString", "MustRandomCreateBytes", "MustRandomCreateString"} {
		if f := b.c.FnOpt("utils", n); f != nil && len(f.Params) > 0 && isIntegerT(f.Params[0].Type()) {
			b.given[f] = map[contract]bool{{kind: "ge0", i: 0, j: -1}: true}
		}
	}
}

func init() {
	register("C24",
		"Range analysis of every index, slice, make and integer division of the module, on every path of every function: linear inequalities over lengths and integers, taken from the conditions passed, from what library functions guarantee and from inferred contracts of the module's own functions and fields (candidates are assumed together and dropped until the rest is inductive), must rule out a position outside the list or text, a negative length and a zero divisor. What stays open is tried again with callees entered and in the contexts of all callers. Assumed: a nested router carries its path, a method handler its controller, a found provider has a result, levels are the declared ones, asked lengths are not negative, the program has a name, package variables keep their lists.",
		"memory exhaustion by a length; overflow of int; lists changed by another goroutine meanwhile; positions inside reflection (Index, Field)",
		c24)
}

// bodies are all functions with code, the initialisers of the packages included.
func (b *bounder) bodies() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range b.c.P.Funcs {
		add(f)
	}
	for _, f := range b.c.P.Funcs {
		if f.Pkg != nil {
			add(f.Pkg.Func("init"))
		}
	}
	return out
}

// callersOf lists the functions calling f by name; ok is false when f is used
// otherwise.
func (b *bounder) callersOf(f *ssa.Function) (out []*ssa.Function, ok bool) {
	if f.Parent() == nil && (token.IsExported(f.Name()) || f.Name() == "init" || f.Name() == "main") {
		return nil, false
	}
	if f.Signature.Recv() != nil && len(b.byName[f.Name()]) > 1 {
		return nil, false
	}
	seen := map[*ssa.Function]bool{}
	for _, g := range b.bodies() {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				if call, is := in.(ssa.CallInstruction); is {
					com := call.Common()
					if com.IsInvoke() && com.Method.Name() == f.Name() {
						return nil, false
					}
				}
				for _, o := range in.Operands(nil) {
					h, is := (*o).(*ssa.Function)
					if !is {
						continue
					}
					if h != f {
						if h.Synthetic != "" && h.Object() != nil && h.Object() == f.Object() {
							return nil, false
						}
						continue
					}
					switch x := in.(type) {
					case *ssa.MakeClosure:
						for _, r := range *x.Referrers() {
							call, is := r.(ssa.CallInstruction)
							if !is || call.Common().Value != x {
								return nil, false
							}
						}
					case ssa.CallInstruction:
						if x.Common().Value != *o {
							return nil, false
						}
					default:
						return nil, false
					}
					if !seen[g] {
						seen[g] = true
						out = append(out, g)
					}
				}
			}
		}
	}
	return out, len(out) > 0
}

// retry decides a site left open, in richer contexts.
func (b *bounder) retry(in ssa.Instruction) bool {
	f := in.Parent()
	pkg := func(g *ssa.Function) *ssa.Package {
		for g.Parent() != nil {
			g = g.Parent()
		}
		return g.Pkg
	}
	near := func(g *ssa.Function) bool { return pkg(g) == pkg(f) }
	small := func(g *ssa.Function) bool { return near(g) && len(g.Blocks) <= 6 }
	try := func(root *ssa.Function, inline func(*ssa.Function) bool) bool {
		m, r := b.run(root, inline)
		why, ok := m[in]
		return !r.Truncated && ok && why == ""
	}
	if try(f, small) || try(f, near) {
		return true
	}
	chain := map[*ssa.Function]bool{f: true}
	var up func(g *ssa.Function, depth int) bool
	up = func(g *ssa.Function, depth int) bool {
		callers, ok := b.callersOf(g)
		if !ok || depth == 0 {
			return false
		}
		for _, h := range callers {
			if chain[h] {
				return false
			}
			if try(h, func(k *ssa.Function) bool { return chain[k] || small(k) }) {
				continue
			}
			chain[h] = true
			ok := up(h, depth-1)
			delete(chain, h)
			if !ok {
				return false
			}
		}
		return true
	}
	return up(f, 3)
}

// placeOf is the nearest place in the text.
func placeOf(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	var last token.Pos
	found := false
	for _, x := range in.Block().Instrs {
		if x == in {
			found = true
		}
		if x.Pos().IsValid() {
			last = x.Pos()
			if found {
				break
			}
		}
	}
	if last.IsValid() {
		return last
	}
	return in.Parent().Pos()
}

func c24(c *Ctx) {
	b := newBounder(c)
	b.assume()
	none := func(*ssa.Function) bool { return false }
	fns := b.bodies()
	var open map[ssa.Instruction]string
	var all map[ssa.Instruction]string
	cut := map[*ssa.Function]bool{}
	for {
		b.change = false
		c.runs, c.paths, c.states, c.steps = 0, 0, 0, 0
		open, all = map[ssa.Instruction]string{}, map[ssa.Instruction]string{}
		for _, f := range fns {
			m, r := b.run(f, none)
			if r.Truncated {
				cut[f] = true
			}
			for in, why := range m {
				all[in] = why
				if why != "" {
					open[in] = why
				}
			}
		}
		if !b.change {
			break
		}
	}
	for f := range cut {
		c.Check(false, "undecided", eng.FuncName(f), f.Pos(), "the analysis of this function did not reach a fixpoint within its budget")
	}
	b.change = false
	ord := make([]ssa.Instruction, 0, len(all))
	for in := range all {
		ord = append(ord, in)
	}
	sort.Slice(ord, func(i, j int) bool {
		a, d := ord[i], ord[j]
		if a.Parent() != d.Parent() {
			return eng.FuncName(a.Parent()) < eng.FuncName(d.Parent())
		}
		return a.Pos() < d.Pos()
	})
	tried := 0
	for _, in := range ord {
		c.funcs[eng.FuncName(in.Parent())] = true
		why := open[in]
		if why != "" && tried < 40 {
			tried++
			if b.retry(in) {
				why = ""
			}
		}
		c.Check(why == "", "range", eng.FuncName(in.Parent()), placeOf(in), "%s", why)
	}
	for f := range b.pre {
		for k := range b.pre[f] {
			c.Check(true, "contract", eng.FuncName(f)+" "+k.kind, f.Pos(), "")
		}
		for k := range b.post[f] {
			c.Check(true, "contract", eng.FuncName(f)+" "+k.kind, f.Pos(), "")
		}
	}
	c.Min("range", 300)
}
