package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34",
		"Case analysis of every way the address functions return: the value is the proxy's header exactly where this header is known not to be empty, and the value of the connection exactly where it is known to be empty, cut at the first port separator. The full URL is put together on the success path from the same values, the request is not written to and errors of the parser are returned.",
		"IPv6 addresses; whether the proxy is trusted; chains of proxies that write their names into the first entry",
		c34)
}

// firstOf: t is what stands before the first sep in base (all of it if there is
// none).
func firstOf(st *eng.State, u *eng.Universe, t *eng.Term, isBase func(*eng.Term) bool, sep string) bool {
	t = bare(t)
	isSep := func(x *eng.Term) bool {
		if isStr(x, sep) {
			return true
		}
		n, ok := x.IntVal()
		return ok && len(sep) == 1 && n == int64(sep[0])
	}
	split := func(t *eng.Term) bool {
		if callTerm(t, "strings.Split") && isBase(bare(t.Args[0])) && isSep(t.Args[1]) {
			return true
		}
		if callTerm(t, "strings.SplitN") && isBase(bare(t.Args[0])) && isSep(t.Args[1]) {
			n, ok := t.Args[2].IntVal()
			return ok && (n < 0 || n >= 2)
		}
		return false
	}
	cut := func(t *eng.Term) bool {
		return callTerm(t, "strings.Cut") && isBase(bare(t.Args[0])) && isSep(t.Args[1])
	}
	if b, i, ok := index(t); ok {
		return isZero(i) && split(bare(b))
	}
	if t.Op == eng.OExtract {
		return t.Sym == "0" && cut(t.Args[0])
	}
	idx := func(x *eng.Term) bool {
		return callTerm(x, "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny") && isBase(bare(x.Args[0])) && isSep(x.Args[1])
	}
	if t.Op == eng.OSlice && isBase(bare(t.Args[0])) {
		return (noBound(t.Args[1]) || isZero(t.Args[1])) && idx(t.Args[2])
	}
	if isBase(t) { // whole: no separator in it
		for _, l := range st.Facts() {
			x := l.T
			if l.Neg && callTerm(x, "strings.Contains", "strings.ContainsRune", "strings.ContainsAny") && isBase(bare(x.Args[0])) && isSep(x.Args[1]) {
				return true
			}
			if l.Neg && x.Op == eng.OExtract && x.Sym == "2" && cut(x.Args[0]) {
				return true
			}
			if x.Op == eng.OBin {
				for _, a := range x.Args {
					if idx(a) && (ltProved(st, u, a, u.Int(0), nil) || eqFact(st, func(t *eng.Term) bool { return t == a }, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == -1 }) == 1) {
						return true
					}
				}
			}
		}
		return emptyOf(st, u, isBase) == 1
	}
	return false
}

// emptyOf: whether the text is known to be empty on the path.
func emptyOf(st *eng.State, u *eng.Universe, is func(*eng.Term) bool) int {
	out := -1
	for _, l := range st.Facts() {
		eng.Any(l.T, func(t *eng.Term) bool {
			if is(bare(t)) {
				if n := emptyText(st, u, t); n >= 0 {
					out = n
				}
			}
			return false
		})
	}
	return out
}

func c34(c *Ctx) {
	u := c.U
	c.Type("params", "Params")
	isReq := func(st *eng.State, t *eng.Term) bool {
		p := st.Params()[0]
		t = bare(noOld(u, t))
		return typeName(t.Typ) == "*net/http.Request" && (t == p || t.Op == eng.OLoad && t.Args[0].Op == eng.OFAddr && t.Args[0].Args[0] == p)
	}
	reqField := func(st *eng.State, t *eng.Term, name string) bool {
		t = bare(noOld(u, t))
		v := fieldOf(t)
		return t.Op == eng.OLoad && v != nil && v.Name() == name && isReq(st, t.Args[0].Args[0])
	}
	hdr := func(st *eng.State, name string) func(*eng.Term) bool {
		return func(t *eng.Term) bool {
			t = bare(t)
			if !callTerm(t, "(net/http.Header).Get") || !reqField(st, t.Args[0], "Header") {
				return false
			}
			s, ok := t.Args[1].StrVal()
			return ok && canonical(s) == canonical(name)
		}
	}
	// either the header, known to hold something, or the other one
	hostOK := func(st *eng.State, t *eng.Term) bool {
		h := hdr(st, "X-Forwarded-Host")
		switch emptyOf(st, u, h) {
		case 0:
			return firstOf(st, u, t, h, ":")
		case 1:
			return firstOf(st, u, t, func(t *eng.Term) bool { return reqField(st, t, "Host") }, ":")
		}
		return false
	}
	urlField := func(st *eng.State, name string) func(*eng.Term) bool {
		return func(t *eng.Term) bool {
			t = bare(noOld(u, t))
			v := fieldOf(t)
			return t.Op == eng.OLoad && v != nil && v.Name() == name && reqField(st, t.Args[0].Args[0], "URL")
		}
	}
	protoOK := func(st *eng.State, t *eng.Term) bool {
		h, s := hdr(st, "X-Forwarded-Proto"), urlField(st, "Scheme")
		switch emptyOf(st, u, h) {
		case 0:
			return h(t)
		case 1:
			switch emptyOf(st, u, s) {
			case 0:
				return s(bare(t))
			case 1:
				return isStr(t, "http")
			}
		}
		return false
	}
	uriOK := func(st *eng.State, t *eng.Term) bool {
		h := hdr(st, "X-Original-URI")
		switch emptyOf(st, u, h) {
		case 0:
			return h(t)
		case 1:
			t = bare(t)
			return callTerm(t, "(*net/url.URL).RequestURI") && reqField(st, t.Args[0], "URL")
		}
		return false
	}
	ipOK := func(st *eng.State, t *eng.Term) bool {
		a, x := hdr(st, "X-Real-Ip"), hdr(st, "X-Forwarded-For")
		first := func(t *eng.Term) bool { return firstOf(st, u, t, x, ",") }
		remote := func(t *eng.Term) bool { return reqField(st, t, "RemoteAddr") }
		switch emptyOf(st, u, a) {
		case 0:
			return a(t)
		case -1:
			return false
		}
		none := emptyOf(st, u, x) == 1
		if !none {
			switch emptyOf(st, u, first) {
			case 0:
				return firstOf(st, u, t, first, ":")
			case -1:
				return false
			}
		}
		// not claimed: addresses in brackets
		for _, l := range st.Facts() {
			if !l.Neg && l.T.Op == eng.OBin && l.T.Sym == "eq" {
				for i, y := range l.T.Args {
					z := l.T.Args[1-i]
					if n, ok := z.IntVal(); ok && n == '[' && strings.Contains(y.String(), "RemoteAddr") || isStr(z, "[") && strings.Contains(y.String(), "RemoteAddr") {
						return true
					}
				}
			}
			if !l.Neg && callTerm(l.T, "strings.HasPrefix") && remote(l.T.Args[0]) && isStr(l.T.Args[1], "[") {
				return true
			}
		}
		return firstOf(st, u, t, remote, ":")
	}
	oracles := []struct {
		name string
		ok   func(*eng.State, *eng.Term) bool
		what string
	}{
		{"RealIp", ipOK, "address"}, {"RealHost", hostOK, "host"}, {"RealProto", protoOK, "scheme"}, {"RealURI", uriOK, "URI"},
	}
	var fs []*ssa.Function
	get := func(name string) []*ssa.Function {
		fs = fs[:0]
		fs = append(fs, c.Fn("params", name))
		for _, f := range c.FuncsOf("params") {
			if f.Parent() == nil && f.Signature.Recv() != nil && f.Name() == name && typeName(f.Signature.Recv().Type()) == "*"+c.P.Mod+"/params.Params" {
				fs = append(fs, f)
			}
		}
		return fs
	}
	opt := func() *eng.Options {
		return &eng.Options{Exact: true, Event: func(st *eng.State, e *eng.Event) bool { return true }, Inline: func(g *ssa.Function) bool { return outer(g).Pkg != nil && outer(g).Pkg == fs[0].Pkg }}
	}
	unchanged := func(st *eng.State, con string) {
		for _, e := range st.Trace {
			if e.Kind == "store" {
				c.On(st, base0(e.Addr) != st.Params()[0], "unchanged", con, e.Pos, "the request is changed")
			}
			if n, m := hdrCall(e); n != "" {
				c.On(st, m == "Get" || m == "Values", "unchanged", con, e.Pos, "a header of the request is changed")
			}
		}
	}
	for _, o := range oracles {
		n := 0
		for _, f := range get(o.name) {
			con := eng.FuncName(f)
			for _, x := range c.Run(f, opt()).Exits {
				st := x.St
				n++
				c.On(st, x.Kind == "return" && o.ok(st, x.Results[0]), "source", con, x.Pos, "the %s reported is %v", o.what, x.Results)
				unchanged(st, con)
			}
		}
		c.Need(n >= 4, "ways to find the "+o.what)
	}
	for _, f := range get("RealURL") {
		con := eng.FuncName(f)
		for _, x := range c.Run(f, opt()).Exits {
			st := x.St
			unchanged(st, con)
			var parse *eng.Term
			for _, e := range st.Trace {
				if e.Kind == "call" && (e.Name == "net/url.ParseRequestURI" || e.Name == "net/url.Parse") {
					parse = e.Res
					c.On(st, e.Name == "net/url.ParseRequestURI" && uriOK(st, e.Args[0]), "url", con, e.Pos, "%v is parsed as the URI", e.Args[0])
				}
			}
			if x.Kind != "return" || parse == nil {
				c.On(st, false, "url", con, x.Pos, "no URI is parsed")
				continue
			}
			perr := st.Ext(parse, 1)
			failed := 1 - st.IsNil(perr)
			if failed == 2 {
				failed = -1
			}
			if failed == 1 {
				c.On(st, bare(x.Results[1]) == perr, "url", con, x.Pos, "an URI that cannot be parsed is not reported")
				continue
			}
			c.On(st, failed == 0 || bare(x.Results[1]) == perr, "url", con, x.Pos, "it is not known whether the URI could be parsed")
			c.On(st, bare(x.Results[1]).IsNil() || bare(x.Results[1]) == perr, "url", con, x.Pos, "an error is reported for a good URI")
			r := bare(x.Results[0])
			c.On(st, r.Op == eng.OAlloc, "url", con, x.Pos, "%v is not a new URL", r)
			if r.Op != eng.OAlloc || parse == nil {
				continue
			}
			s := structOf(r.Typ)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				v := s.Field(i)
				val := bare(st.Load(st.FieldCell(r, v.Name())))
				fromParsed := func() bool {
					w := noOld(u, val)
					return w.Op == eng.OLoad && w.Args[0].Op == eng.OFAddr && w.Args[0].Obj == v && w.Args[0].Args[0].Op == eng.OExtract && w.Args[0].Args[0].Sym == "0" && w.Args[0].Args[0].Args[0] == parse
				}
				ok := true
				switch v.Name() {
				case "Host":
					ok = hostOK(st, val)
				case "Scheme":
					ok = protoOK(st, val)
				case "Path", "RawQuery", "Opaque":
					ok = fromParsed()
				}
				c.On(st, ok, "url", con, x.Pos, "the %s of the URL is %v", v.Name(), val)
			}
		}
	}
	c.Min("source", 20)
	c.Min("url", 40)
}

func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}
