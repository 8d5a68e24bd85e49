package main

import (
	"go/token"
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12",
		"Dataflow of the two sides of a signed value: a value is accepted only on a path on which the full HMAC under the key given, over exactly the value handed back, a separator and the text whose number is the creation time handed back, was found equal to the signature presented; nothing is handed back otherwise. What issuing puts where is what accepting takes from there: same encoding, separator, number and order of parts, escaping undone, same text under the signature. The separator cannot be part of a number, so that value and time cannot trade digits.",
		"strength of HMAC-SHA1; comparison in constant time",
		c12)
	register("C13",
		"Must-pass analysis of the readers of signed cookies: an id, or an identity, is handed back only on paths on which the last cookie of the configured name was found, its value verified under the configured key, and the creation time it proves was found to be within the configured lifetime; what is handed back is what was verified. The value of the identity cookie is put together and taken apart the same way.",
		"the clock; cookies stolen from a client",
		c13)
	register("C14",
		"Every cookie written by the session package is analysed as an object at the call that writes it: name, path, domain, HttpOnly, Secure, lifetime and value come from the configuration and the signed id, and the cookie that deletes has the name, path and domain of the one that was set; nothing is written when no value could be signed.",
		"what clients do with the attributes",
		c14)
}

// fld finds an exported field of a struct type.
func (c *Ctx) fld(pkg, typ, name string) *types.Var {
	s := structOf(c.Type(pkg, typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	c.Need(false, "field "+typ+"."+name)
	return nil
}

// bare is the value without conversions and interface wrapping.
func bare(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == eng.OIface || t.Op == eng.OConv) {
		t = t.Args[0]
	}
	return t
}

// parts splits a concatenation, without conversions between strings and bytes.
func parts(t *eng.Term) []*eng.Term {
	t = bare(t)
	var out []*eng.Term
	for _, p := range eng.ConcatParts(t) {
		p = bare(p)
		if p != t {
			out = append(out, parts(p)...)
		} else {
			out = append(out, p)
		}
	}
	// join constants
	var o2 []*eng.Term
	for _, p := range out {
		if s, ok := p.StrVal(); ok && s == "" {
			continue
		}
		o2 = append(o2, p)
	}
	return o2
}

func retOf(t *eng.Term, name string) bool {
	return t != nil && (t.Op == eng.ORet && strings.HasPrefix(t.Sym, name+"@") || t.Op == eng.OPure && t.Sym == name)
}

// macOf: t is the whole MAC h.Sum(nil), perhaps in hexadecimal: what was
// written to h, and the key.
func macOf(st *eng.State, t *eng.Term) (msg []*eng.Term, key *eng.Term, enc string, ok bool) {
	t = bare(t)
	if callTerm(t, "encoding/hex.EncodeToString") {
		enc = "hex"
		t = bare(t.Args[0])
	}
	sum := -1
	var h *eng.Term
	for i, e := range st.Trace {
		if e.Kind == "call" && e.Res == t && strings.HasSuffix(e.Name, ".Sum") && len(e.Args) == 1 && e.Args[0].IsNil() {
			sum, h = i, e.Recv
		}
	}
	if sum < 0 {
		return
	}
	for i, e := range st.Trace {
		if e.Kind != "call" {
			continue
		}
		if e.Res == h && e.Name == "crypto/hmac.New" {
			key = bare(e.Args[1])
			msg = nil
			continue
		}
		if i > sum {
			break
		}
		if e.Recv == h && strings.HasSuffix(e.Name, ".Reset") {
			msg = nil
		}
		if e.Recv == h && strings.HasSuffix(e.Name, ".Write") && len(e.Args) == 1 {
			msg = append(msg, parts(e.Args[0])...)
		}
		if e.Recv == nil && e.Name == "io.WriteString" && bare(e.Args[0]) == bare(h) {
			msg = append(msg, parts(e.Args[1])...)
		}
	}
	return msg, key, enc, key != nil
}

// joined merges neighbouring constants.
func joined(u *eng.Universe, ps []*eng.Term) []*eng.Term {
	var out []*eng.Term
	for _, p := range ps {
		if s, ok := p.StrVal(); ok && len(out) > 0 {
			if l, ok := out[len(out)-1].StrVal(); ok {
				out[len(out)-1] = u.Str(l + s)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

type layout struct {
	enc    *eng.Term // base64 encoding
	sep    string
	n      int
	raw    int // position of the value
	escape string
	time   int
	hash   int
	henc   string
	msgSep string
}

func c12(c *Ctx) {
	u := c.U
	dec, enc := c.Fn("sessions", "DecodeSecureValue"), c.Fn("sessions", "EncodeSecureValue")
	all := func(st *eng.State, e *eng.Event) bool { return e.Kind == "call" }
	isTrim := func(t *eng.Term) *eng.Term {
		if callTerm(t, "strings.TrimSpace") {
			return t.Args[0]
		}
		return t
	}
	var want *layout // what the verification reads
	okSep := func(s string) bool { return s != "" && strings.Trim(s, "+-0123456789_xXobOBabcdefABCDEF") != "" }
	// acceptance
	name := "verification"
	r := c.Run(dec, &eng.Options{Exact: true, CutAt: cutAll, Event: all})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		raw, at, ok := x.Results[0], x.Results[1], x.Results[2]
		if ok.IsFalse() {
			s, isS := raw.StrVal()
			c.On(st, isS && s == "" && at.Op == eng.OZero, "refused", name, x.Pos, "a refused value is handed back")
			continue
		}
		key := st.Params()[1]
		input := st.Params()[0]
		field := func(t *eng.Term) (int, *eng.Term) {
			b, i, ok := index(isTrim(t))
			if !ok || !callTerm(b, "strings.SplitN", "strings.Split") {
				return -1, nil
			}
			n, ok := i.IntVal()
			if !ok {
				return -1, nil
			}
			return int(n), b
		}
		l := &layout{raw: -1, time: -1, hash: -1}
		var msg []*eng.Term
		for _, f := range st.Facts() {
			t := f.T
			if f.Neg {
				continue
			}
			if t.Op == eng.OBin && t.Sym == "eq" || callTerm(t, "crypto/hmac.Equal", "bytes.Equal") {
				for i := 0; i < 2; i++ {
					m, k, e, ok := macOf(st, t.Args[i])
					if !ok {
						continue
					}
					other := bare(t.Args[1-i])
					henc := e
					if other.Op == eng.OExtract && callTerm(other.Args[0], "encoding/hex.DecodeString") || callTerm(other, "encoding/hex.DecodeString") {
						other, henc = bare(other.Args[0]), "hex"
						if callTerm(other, "encoding/hex.DecodeString") {
							other = bare(other.Args[0])
						}
					}
					if retOf(other, "encoding/hex.DecodeString") {
						continue
					}
					fi, b := field(other)
					if fi < 0 || k != key {
						continue
					}
					l.hash, l.henc = fi, henc
					msg = joined(u, m)
					l.sep, _ = b.Args[1].StrVal()
					if callTerm(b, "strings.SplitN") {
						n, _ := b.Args[2].IntVal()
						l.n = int(n)
					}
					src := bare(b.Args[0])
					eng.Any(src, func(y *eng.Term) bool {
						if (y.Op == eng.ORet || y.Op == eng.OPure) && strings.HasPrefix(y.Sym, "(*encoding/base64.Encoding).DecodeString") && len(y.Args) == 2 && y.Args[1] == input {
							l.enc = y.Args[0]
							return true
						}
						return false
					})
				}
			}
		}
		if !c.On(st, l.hash >= 0 && l.enc != nil, "verified", name, x.Pos, "a value is accepted although its signature under the key given was not found to be right") {
			continue
		}
		// what was signed is what is handed back
		good := len(msg) == 3
		if good {
			s, isS := msg[1].StrVal()
			l.msgSep = s
			good = isS && okSep(s) && bare(raw) == msg[0]
			// value
			v := msg[0]
			src := v
			if v.Op == eng.OExtract && len(v.Args) > 0 {
				src = v.Args[0]
			}
			if callTerm(src, "net/url.QueryUnescape", "net/url.PathUnescape") {
				l.escape = strings.TrimSuffix(src.Sym, "Unescape")
				errT := st.Ext(src, 1)
				c.On(st, st.IsNil(errT) == 1, "verified", name, x.Pos, "a value is accepted that could not be unescaped")
				l.raw, _ = field(src.Args[0])
			} else {
				l.raw, _ = field(v)
			}
			l.time, _ = field(msg[2])
		}
		if !c.On(st, good && l.raw >= 0 && l.time >= 0, "signed", name, x.Pos, "the signature does not cover exactly the value handed back, a separator and the time: %v", msg) {
			continue
		}
		// the time
		tt := at
		isNum := func(t *eng.Term) bool {
			if t.Op != eng.OExtract && t.Op != eng.OPure {
				return false
			}
			q := t
			if t.Op == eng.OExtract {
				q = t.Args[0]
			}
			if !callTerm(q, "strconv.ParseInt") || bare(q.Args[0]) != msg[2] {
				return false
			}
			b, _ := q.Args[1].IntVal()
			bits, _ := q.Args[2].IntVal()
			return b == 10 && bits == 64 && st.IsNil(st.Ext(q, 1)) == 1
		}
		zero := func(t *eng.Term) bool { v, ok := t.IntVal(); return ok && v == 0 }
		c.On(st, callTerm(tt, "time.Unix") && zero(tt.Args[0]) && isNum(tt.Args[1]), "signed", name, x.Pos, "the creation time handed back is not the one under the signature: %v", tt)
		want = l
	}
	// issuing
	name = "issuing"
	r = c.Run(enc, &eng.Options{Exact: true, CutAt: cutAll, Event: all})
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		val, ok := x.Results[0], x.Results[1]
		if ok.IsFalse() {
			s, isS := val.StrVal()
			c.On(st, isS && s == "", "refused", name, x.Pos, "a value that was not signed is handed out")
			continue
		}
		ps := st.Params()
		raw, key, at := ps[0], ps[1], ps[2]
		empty := func(t *eng.Term) int { return st.EqTerms(t, u.Str("")) }
		c.On(st, empty(raw) == 0 && empty(key) == 0, "refused", name, x.Pos, "an empty value is signed, or one under an empty key")
		v := bare(val)
		if !c.On(st, (v.Op == eng.ORet || v.Op == eng.OPure) && strings.HasPrefix(v.Sym, "(*encoding/base64.Encoding).EncodeToString") && len(v.Args) == 2, "layout", name, x.Pos, "the signed value is not encoded as a whole: %v", v) {
			continue
		}
		if want == nil {
			continue
		}
		fs := joined(u, parts(v.Args[1]))
		same := v.Args[0] == want.enc && len(fs) == 5
		var f [3]*eng.Term
		if same {
			for i := 0; i < 3; i++ {
				f[i] = fs[2*i]
			}
			for i := 1; i < 5; i += 2 {
				s, ok := fs[i].StrVal()
				same = same && ok && s == want.sep
			}
		}
		same = same && (want.n == 0 || want.n == 3) && want.raw != want.time && want.raw < 3 && want.time < 3 && want.hash < 3
		if !c.On(st, same, "layout", name, x.Pos, "a value is not put together the way it is taken apart: %v", fs) {
			continue
		}
		numOf := func(t *eng.Term) bool {
			if !callTerm(t, "strconv.FormatInt") {
				return false
			}
			b, _ := t.Args[1].IntVal()
			return b == 10 && callTerm(t.Args[0], "(time.Time).UnixNano") && t.Args[0].Args[0] == at
		}
		okRaw := f[want.raw] == raw && want.escape == ""
		if want.escape != "" {
			okRaw = callTerm(f[want.raw], want.escape+"Escape") && f[want.raw].Args[0] == raw
		}
		c.On(st, okRaw && want.escape != "", "layout", name, x.Pos, "the value is not escaped the way it is unescaped: %v", f[want.raw])
		c.On(st, numOf(f[want.time]), "layout", name, x.Pos, "the creation time is not written as it is read: %v", f[want.time])
		m, k, e, ok2 := macOf(st, f[want.hash])
		m = joined(u, m)
		good := ok2 && k == key && e == want.henc && len(m) == 3 && m[0] == raw && numOf(m[2])
		if good {
			s, _ := m[1].StrVal()
			good = s == want.msgSep
		}
		c.On(st, good, "layout", name, x.Pos, "the signature issued is not over what is verified: %v", m)
	}
	c.Min("verified", 1)
	c.Min("signed", 2)
	c.Min("layout", 4)
}

// sessModel: the parts the session properties speak about.
type sessModel struct {
	cfg      map[string]*types.Var
	cookie   map[*ssa.Function]bool // last cookie of a name
	pure     map[string]bool
	dec, enc string
	mgr      *types.Named
}

func (c *Ctx) sess() *sessModel {
	m := &sessModel{cfg: map[string]*types.Var{}, cookie: map[*ssa.Function]bool{}, pure: map[string]bool{}}
	for _, n := range []string{"CookieName", "CookieRememberName", "CookieSecure", "CookieDomain", "CookieExpire", "RememberExpire"} {
		m.cfg[n] = c.fld("sessions", "CookieConfig", n)
	}
	for _, n := range []string{"SecretKey", "SessionExpire"} {
		m.cfg[n] = c.fld("sessions", "Config", n)
	}
	m.mgr = c.Type("sessions", "SessionManager")
	m.dec = eng.FuncName(c.Fn("sessions", "DecodeSecureValue"))
	m.enc = eng.FuncName(c.Fn("sessions", "EncodeSecureValue"))
	m.pure[m.dec], m.pure[m.enc] = true, true
	for _, f := range c.topFuncs("sessions") {
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if ps.Len() == 2 && rs.Len() == 2 && ps.At(0).Type().String() == "[]*net/http.Cookie" && rs.At(0).Type().String() == "*net/http.Cookie" && basicT(rs.At(1).Type(), types.Bool) && basicT(ps.At(1).Type(), types.String) {
			m.cookie[f] = true
			m.pure[eng.FuncName(f)] = true
		}
	}
	return m
}

func (m *sessModel) opts(keep func(st *eng.State, e *eng.Event) bool, stay ...*ssa.Function) *eng.Options {
	return &eng.Options{Exact: true, CutAt: cutAll,
		Pure: func(n string) bool { return m.pure[n] },
		Inline: func(f *ssa.Function) bool {
			for _, g := range stay {
				if f == g {
					return false
				}
			}
			return !m.pure[eng.FuncName(f)]
		},
		Event: func(st *eng.State, e *eng.Event) bool {
			if keep != nil {
				return keep(st, e)
			}
			return e.Kind == "call"
		}}
}

// conf: t is the named field of the configuration.
func (m *sessModel) conf(t *eng.Term, name string) bool {
	t = bare(t)
	return fieldOf(t) == m.cfg[name] || t.Op == eng.OField && t.Obj == m.cfg[name]
}

// seconds: t is the configured number of seconds as a duration.
func (m *sessModel) seconds(t *eng.Term, name string) bool {
	l := eng.Lin(t)
	if l.C != 0 || len(l.Coeff) != 1 {
		return false
	}
	for k, v := range l.Coeff {
		return v == 1000000000 && m.conf(k, name)
	}
	return false
}

// fresh: the time was found to be within the configured lifetime.
func (m *sessModel) fresh(st *eng.State, at *eng.Term, name string) bool {
	now := func(t *eng.Term) bool { return retOf(t, "time.Now") }
	end := func(t *eng.Term) bool {
		return callTerm(t, "(time.Time).Add") && t.Args[0] == at && m.seconds(t.Args[1], name)
	}
	age := func(t *eng.Term) bool {
		return (callTerm(t, "time.Since") || retOf(t, "time.Since")) && t.Args[0] == at || callTerm(t, "(time.Time).Sub") && now(t.Args[0]) && t.Args[1] == at
	}
	start := func(t *eng.Term) bool { // now less the lifetime
		if !callTerm(t, "(time.Time).Add") || !now(t.Args[0]) {
			return false
		}
		l := eng.Lin(t.Args[1])
		for k, v := range l.Coeff {
			return len(l.Coeff) == 1 && l.C == 0 && v == -1000000000 && m.conf(k, name)
		}
		return false
	}
	for _, l := range st.Facts() {
		t := l.T
		switch {
		case callTerm(t, "(time.Time).Before"):
			a, b := t.Args[0], t.Args[1]
			if l.Neg && (end(a) && now(b) || a == at && start(b)) || !l.Neg && (now(a) && end(b) || start(a) && b == at) {
				return true
			}
		case callTerm(t, "(time.Time).After"):
			a, b := t.Args[0], t.Args[1]
			if l.Neg && (now(a) && end(b) || start(a) && b == at) || !l.Neg && (end(a) && now(b) || a == at && start(b)) {
				return true
			}
		case t.Op == eng.OBin && t.Sym == "lt":
			if l.Neg && m.seconds(t.Args[0], name) && age(t.Args[1]) || !l.Neg && age(t.Args[0]) && m.seconds(t.Args[1], name) {
				return true
			}
		}
	}
	return false
}

// lastCookie checks the search for the last cookie of a name.
func (c *Ctx) lastCookie(m *sessModel) {
	u := c.U
	for f := range m.cookie {
		name := "search for a cookie"
		named := func(st *eng.State, v *eng.Term) bool { // element whose name fits
			cs, want := st.Params()[0], st.Params()[1]
			b, _, ok := index(v)
			if !ok || noOld(u, b) != cs {
				return false
			}
			return eqFact(st, func(t *eng.Term) bool {
				cell := cellOf(t)
				return cell != nil && cell.Op == eng.OFAddr && cell.Args[0] == v && cell.Obj.(*types.Var).Name() == "Name"
			}, func(t *eng.Term) bool { return t == want }) == 1
		}
		over := map[*ssa.Phi]int{} // 1 overwritten by matches, 2 by something else
		r := c.Run(f, &eng.Options{Exact: true, CutAt: cutAll,
			Event: func(*eng.State, *eng.Event) bool { return false },
			Entry: func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
				for p, v := range vals {
					if p.Type().String() != "*net/http.Cookie" {
						continue
					}
					switch {
					case !back:
						if !v.IsNil() {
							over[p] = 2
						}
					case phiOf(v) == p:
						// kept: this one has another name
						bad := true
						for _, l := range st.Facts() {
							if l.Neg && l.T.Op == eng.OBin && l.T.Sym == "eq" && (l.T.Args[0] == st.Params()[1] || l.T.Args[1] == st.Params()[1]) {
								bad = false
							}
						}
						if bad {
							over[p] = 2
						}
					default:
						_, idx, _ := index(v)
						if !named(st, v) || !forward(u, idx) {
							over[p] = 2
						} else if over[p] == 0 {
							over[p] = 1
						}
					}
				}
			}})
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			v, ok := x.Results[0], x.Results[1]
			if ok.IsFalse() {
				continue
			}
			good := false
			if p := phiOf(v); p != nil {
				good = over[p] == 1
			} else if named(st, v) {
				_, idx, _ := index(v)
				d, ok := delta(idx)
				_, ind := phiIn(noOld(u, idx))
				good = ok && d == -1 && ind != nil && c.startsLast(ind, u)
			}
			c.On(st, good, "cookie", name, x.Pos, "the cookie found is not the last one of the name asked for: %v", v)
		}
		// nothing is found only after all were looked at
	}
}

// startsLast: the loop starts at the last element.
func (c *Ctx) startsLast(ind *eng.Induction, u *eng.Universe) bool {
	for _, v := range ind.Init {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.SUB {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Int64() != 1 {
			return false
		}
		call, ok := b.X.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" {
			return false
		}
	}
	return len(ind.Init) > 0
}

// cookieFound: v is the cookie of the configured name of the request.
func (m *sessModel) cookieFound(st *eng.State, v, req *eng.Term, isName func(t *eng.Term) bool) bool {
	q := v
	if q.Op == eng.OExtract {
		q = q.Args[0]
	}
	if q.Op == eng.OPure && m.pure[q.Sym] {
		cs := q.Args[0]
		if !isName(q.Args[1]) || !strings.HasPrefix(cs.Sym, "(*net/http.Request).Cookies") || len(cs.Args) == 0 || cs.Args[0] != req {
			return false
		}
		return st.EvalTerm(st.Ext(q, 1)) == 1
	}
	return false
}

// cookieValue: t is the (unescaped) value of the cookie.
func (m *sessModel) cookieValue(st *eng.State, t *eng.Term) *eng.Term {
	t = bare(t)
	if t.Op == eng.OExtract && callTerm(t.Args[0], "net/url.QueryUnescape", "net/url.PathUnescape") {
		if st.IsNil(st.Ext(t.Args[0], 1)) != 1 {
			return nil
		}
		t = bare(t.Args[0].Args[0])
	}
	cell := cellOf(t)
	if cell != nil && cell.Op == eng.OFAddr && cell.Obj.(*types.Var).Name() == "Value" {
		return cell.Args[0]
	}
	return nil
}

// verified finds the verification a path went through, with its inputs.
func (m *sessModel) verified(st *eng.State) []*eng.Term {
	var out []*eng.Term
	for _, l := range st.Facts() {
		t := l.T
		if !l.Neg && t.Op == eng.OExtract && t.Args[0].Op == eng.OPure && t.Args[0].Sym == m.dec {
			out = append(out, t.Args[0])
		}
	}
	return out
}

func c13(c *Ctx) {
	u := c.U
	m := c.sess()
	c.Need(len(m.cookie) > 0, "search for the cookie of a name")
	c.lastCookie(m)
	reader := func(fn, lifetime string, isName func(st *eng.State) func(*eng.Term) bool, oks int, given func(st *eng.State, x *eng.Exit, d *eng.Term) bool) {
		f := c.Meth(m.mgr, fn)
		name := fn
		r := c.Run(f, m.opts(nil))
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			if x.Results[oks].IsFalse() || st.EvalTerm(x.Results[oks]) == 0 {
				s, ok := x.Results[0].StrVal()
				c.On(st, ok && s == "", "refused", name, x.Pos, "something is handed back although nothing was verified")
				continue
			}
			good := false
			why := "no verified value"
			for _, d := range m.verified(st) {
				if !m.conf(d.Args[1], "SecretKey") {
					why = "verified under another key"
					continue
				}
				ck := m.cookieValue(st, d.Args[0])
				if ck == nil || !m.cookieFound(st, ck, st.Params()[argPos(f, "*net/http.Request")], isName(st)) {
					why = "not the value of the last cookie of the configured name"
					continue
				}
				if !m.fresh(st, st.Ext(d, 1), lifetime) {
					why = "its age is not checked"
					continue
				}
				if !given(st, x, d) {
					why = "it is not what was verified"
					continue
				}
				good = true
			}
			c.On(st, good, "verified", name, x.Pos, "a value is handed back although: %s", why)
		}
	}
	reader("ReadSidFromRequest", "SessionExpire", func(st *eng.State) func(*eng.Term) bool {
		return func(t *eng.Term) bool { return t == st.Params()[2] }
	}, 2, func(st *eng.State, x *eng.Exit, d *eng.Term) bool {
		return x.Results[0] == st.Ext(d, 0) && x.Results[1] == st.Ext(d, 1)
	})
	sepR, nR := "", int64(0)
	reader("HasRemember", "RememberExpire", func(st *eng.State) func(*eng.Term) bool {
		return func(t *eng.Term) bool { return m.conf(t, "CookieRememberName") }
	}, 2, func(st *eng.State, x *eng.Exit, d *eng.Term) bool {
		for i := 0; i < 2; i++ {
			t := x.Results[i]
			if t.Op != eng.OExtract || !callTerm(t.Args[0], "net/url.QueryUnescape") || st.IsNil(st.Ext(t.Args[0], 1)) != 1 {
				return false
			}
			b, k, ok := index(t.Args[0].Args[0])
			if !ok || !callTerm(b, "strings.SplitN", "strings.Split") || b.Args[0] != st.Ext(d, 0) {
				return false
			}
			v, ok := k.IntVal()
			if !ok || v != int64(i) {
				return false
			}
			sepR, _ = b.Args[1].StrVal()
			if len(b.Args) > 2 {
				nR, _ = b.Args[2].IntVal()
			} else {
				nR = 2
			}
		}
		return true
	})
	// identity presented
	f := c.Meth(m.mgr, "ValidRemember")
	name := "ValidRemember"
	r := c.Run(f, m.opts(nil))
	for _, x := range r.Exits {
		if x.Kind != "return" || x.Results[0].IsFalse() {
			continue
		}
		st := x.St
		if st.EvalTerm(x.Results[0]) == 0 {
			continue
		}
		// the result may be the last comparison itself
		res := x.Results[0]
		ps := st.Params()
		psk, salt, hash := ps[len(ps)-3], ps[len(ps)-2], ps[len(ps)-1]
		good := false
		for _, d := range m.verified(st) {
			key := parts(d.Args[1])
			if d.Args[0] != hash || len(key) != 2 || !m.conf(key[0], "SecretKey") || key[1] != salt {
				continue
			}
			same := st.EqTerms(st.Ext(d, 0), psk) == 1
			if !res.IsTrue() && res.Op == eng.OBin && res.Sym == "eq" {
				a, b := res.Args[0], res.Args[1]
				same = same || a == psk && b == st.Ext(d, 0) || b == psk && a == st.Ext(d, 0)
			}
			good = good || same && m.fresh(st, st.Ext(d, 1), "RememberExpire")
		}
		nonEmpty := true
		for _, t := range []*eng.Term{psk, salt, hash} {
			nonEmpty = nonEmpty && st.EqTerms(t, u.Str("")) == 0
		}
		c.On(st, good && nonEmpty, "verified", name, x.Pos, "an identity is taken as proved without its own signature, under the key and salt, having been found right and recent")
	}
	// the identity written
	f = c.Meth(m.mgr, "WriteRemember")
	name = "WriteRemember"
	r = c.Run(f, m.opts(nil))
	n := 0
	for _, x := range r.Exits {
		st := x.St
		for _, e := range st.Trace {
			if e.Kind != "call" || e.Name != m.enc {
				continue
			}
			// outer signature: over identity and inner signature
			ps := joined(u, parts(e.Args[0]))
			par := st.Params()
			psk, salt := par[len(par)-2], par[len(par)-1]
			key := parts(e.Args[1])
			inner := len(key) == 2 && m.conf(key[0], "SecretKey") && key[1] == salt && len(ps) == 1 && ps[0] == psk
			outer := false
			if len(ps) == 3 && len(key) == 1 && m.conf(key[0], "SecretKey") {
				s, ok := ps[1].StrVal()
				esc := func(t *eng.Term) *eng.Term {
					if callTerm(t, "net/url.QueryEscape") {
						return t.Args[0]
					}
					return nil
				}
				a, b := esc(ps[0]), esc(ps[2])
				if ok && s == sepR && nR == 2 && a == psk && b != nil && b.Op == eng.OExtract && b.Args[0].Op == eng.OPure && b.Args[0].Sym == m.enc && st.EvalTerm(st.Ext(b.Args[0], 1)) == 1 {
					outer = b.Args[0].Args[2] == e.Args[2]
					n++
				}
			}
			c.On(st, inner || outer, "layout", name, e.Pos, "what is signed is not what is verified: %v", ps)
			c.On(st, retOf(e.Args[2], "time.Now"), "layout", name, e.Pos, "the time signed is not the current one: %v", e.Args[2])
		}
	}
	c.Check(n > 0, "layout", name, f.Pos(), "the identity and its salted signature are not what is signed")
	c.Min("verified", 3)
	c.Min("cookie", 1)
}

// argPos: position of the parameter (counting the receiver) of the type.
func argPos(f *ssa.Function, typ string) int {
	for i, p := range f.Params {
		if p.Type().String() == typ {
			return i
		}
	}
	return 0
}

func c14(c *Ctx) {
	u := c.U
	m := c.sess()
	type shape struct{ name, path, domain string }
	set := map[string]shape{}
	del := map[string]shape{}
	cookieT := structOf(c.P.TPkg("net/http").Scope().Lookup("Cookie").Type())
	cf := map[string]*types.Var{}
	for i := 0; i < cookieT.NumFields(); i++ {
		cf[cookieT.Field(i).Name()] = cookieT.Field(i)
	}
	descr := func(t *eng.Term) string {
		t = bare(t)
		if s, ok := t.StrVal(); ok {
			return "=" + s
		}
		for n := range m.cfg {
			if m.conf(t, n) {
				return n
			}
		}
		if t.Op == eng.OZero {
			return "="
		}
		return "?"
	}
	entries := []string{"Start", "Regenerate", "Destroy", "WriteSessionCookie", "WriteRemember", "DestroyRemember"}
	wsc := c.Meth(m.mgr, "WriteSessionCookie")
	for _, n := range entries {
		f := c.Meth(m.mgr, n)
		stay := []*ssa.Function{}
		if f != wsc {
			stay = append(stay, wsc)
		}
		o := m.opts(func(st *eng.State, e *eng.Event) bool {
			if e.Kind != "call" {
				return false
			}
			header := strings.HasPrefix(e.Name, "(net/http.Header).") && (strings.HasSuffix(e.Name, ".Set") || strings.HasSuffix(e.Name, ".Add"))
			c.On(st, !header, "cookie", n, e.Pos, "a header is written directly")
			if e.Name != "net/http.SetCookie" {
				return true
			}
			ck := e.Args[1]
			get := func(name string) *eng.Term { return st.Load(u.FAddr(ck, cf[name])) }
			c.On(st, st.IsLocal(ck), "cookie", n, e.Pos, "the cookie written is shared")
			isTrue := func(t *eng.Term) bool { return t.IsTrue() }
			c.On(st, isTrue(get("HttpOnly")), "attributes", n, e.Pos, "a cookie is not HttpOnly: %v", get("HttpOnly"))
			c.On(st, m.conf(get("Secure"), "CookieSecure"), "attributes", n, e.Pos, "Secure does not come from the configuration: %v", get("Secure"))
			c.On(st, descr(get("Path")) == "=/", "attributes", n, e.Pos, "the path of a cookie is %v", get("Path"))
			nm := descr(get("Name"))
			c.On(st, nm == "CookieName" || nm == "CookieRememberName", "attributes", n, e.Pos, "the name of a cookie is %v", get("Name"))
			val := get("Value")
			age := get("MaxAge")
			dom := descr(get("Domain"))
			s, isConst := val.StrVal()
			if isConst && s == "" {
				v, ok := age.IntVal()
				c.On(st, ok && v < 0, "deletion", n, e.Pos, "an empty cookie does not delete the one the client has: %v", age)
				del[nm] = shape{nm, descr(get("Path")), dom}
				c.On(st, f != wsc && n != "WriteRemember", "value", n, e.Pos, "an empty value is written")
				return true
			}
			ext := val
			signed := ext.Op == eng.OExtract && ext.Args[0].Op == eng.OPure && ext.Args[0].Sym == m.enc
			if c.On(st, signed, "value", n, e.Pos, "a value is written that is not signed: %v", val) {
				q := ext.Args[0]
				c.On(st, st.EvalTerm(st.Ext(q, 1)) == 1, "value", n, e.Pos, "a cookie is written although no value could be signed")
				c.On(st, m.conf(q.Args[1], "SecretKey"), "value", n, e.Pos, "the value is signed under another key: %v", q.Args[1])
				if f == wsc {
					ps := st.Params()
					c.On(st, q.Args[0] == ps[len(ps)-2] && q.Args[2] == ps[len(ps)-1], "value", n, e.Pos, "something else is signed than the session id and the creation time given")
				}
			}
			if nm == "CookieName" {
				c.On(st, dom == "CookieDomain", "attributes", n, e.Pos, "the domain of the session cookie is %v", get("Domain"))
				zero := false
				if v, ok := age.IntVal(); ok && v == 0 {
					zero = true
				}
				exp := hasFact(st, func(t *eng.Term) bool {
					if t.Op != eng.OBin || t.Sym != "lt" {
						return false
					}
					v, ok := t.Args[1].IntVal()
					return m.conf(t.Args[0], "CookieExpire") && ok && v == 0
				})
				if exp < 0 { // 0 < expire and the like
					for _, l := range st.Facts() {
						if l.T.Op == eng.OBin && l.T.Sym == "lt" && m.conf(l.T.Args[1], "CookieExpire") {
							if v, ok := l.T.Args[0].IntVal(); ok && v >= -1 && !l.Neg {
								exp = 0
							} else if ok && v <= 0 && l.Neg {
								exp = 2 // at most zero: no lifetime
							}
						}
					}
				}
				c.On(st, m.conf(age, "CookieExpire") && exp != 1 || zero && exp >= 1, "attributes", n, e.Pos, "the lifetime of the session cookie is not the configured one: %v", age)
			} else if nm == "CookieRememberName" {
				c.On(st, m.conf(age, "RememberExpire"), "attributes", n, e.Pos, "the lifetime of the identity cookie is not the configured one: %v", age)
			}
			set[nm] = shape{nm, descr(get("Path")), dom}
			return true
		}, stay...)
		r := c.Run(f, o)
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			count := 0
			added := 0
			signedOk := -1
			var ck, ad *eng.Term
			for _, e := range st.Trace {
				if e.Kind != "call" {
					continue
				}
				switch e.Name {
				case "net/http.SetCookie":
					count++
					ck = e.Args[1]
				case "(*net/http.Request).AddCookie":
					added++
					ad = e.Args[0]
				case m.enc:
					signedOk = st.EvalTerm(st.Ext(e.Res, 1))
				}
			}
			switch n {
			case "WriteSessionCookie":
				if signedOk == 0 {
					c.On(st, count == 0, "value", n, x.Pos, "a cookie is written although no value could be signed")
				} else {
					c.On(st, count == 1 && added == 1 && ad == ck, "written", n, x.Pos, "the session cookie is not written to the response and the request once each")
				}
			case "WriteRemember":
				if x.Results[0].IsFalse() || st.EvalTerm(x.Results[0]) == 0 {
					c.On(st, count == 0, "written", n, x.Pos, "a cookie is written although this is said to have failed")
				} else {
					c.On(st, count == 1, "written", n, x.Pos, "the identity cookie is not written once")
				}
			case "DestroyRemember":
				c.On(st, count == 1, "written", n, x.Pos, "the identity cookie is not deleted")
			}
		}
	}
	for nm, s := range set {
		d, ok := del[nm]
		c.Check(ok && d == s, "deletion", nm, wsc.Pos(), "the cookie that deletes is not of the name, path and domain of the one that was set: %v, %v", s, d)
	}
	c.Check(len(set) == 2, "written", "cookies", wsc.Pos(), "not both cookies are written")
	c.Min("attributes", 12)
	c.Min("value", 4)
}
