package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"
)

func init() {
	register("C28",
		"Case analysis over every path of the filter that answers with what the controller returned: the values are asked for after the rest of the chain, an int in the last place becomes the status before any body, the body is the last value that is not that int, its case (result, handler, reader, text, bytes) decides the one way it is sent, nil is never sent, and no reflection call is made that its kind forbids.",
		"what results, handlers and readers write themselves; named int types in other places than the last",
		c28)
}

func c28(c *Ctx) {
	hs := c.handlers(c.Fn("", "GenericOutFilter"))
	c.Need(len(hs) == 1, "the handler of the filter for returned values")
	h := hs[0]
	con := "GenericOutFilter handler"
	u := c.U
	outT := c.Type("", "ActionOut")
	resT := c.Type("", "ActionResult")
	ctxT := c.Type("", "Context")
	handlerT := c.P.TPkg("net/http").Scope().Lookup("Handler").Type()
	rwT := c.P.TPkg("net/http").Scope().Lookup("ResponseWriter").Type()
	reqT := types.NewPointer(c.P.TPkg("net/http").Scope().Lookup("Request").Type())
	ioT := func(n string) types.Type { return c.P.TPkg("io").Scope().Lookup(n).Type() }
	bytesT := types.NewSlice(types.Typ[types.Byte])
	// the cases, in order of precedence
	cases := []types.Type{resT, handlerT, ioT("Reader"), types.Typ[types.String], bytesT}
	names := []string{"result", "handler", "reader", "text", "bytes"}
	nilable := map[int64]bool{18: true, 19: true, 20: true, 21: true, 22: true, 23: true, 26: true} // chan func interface map ptr slice unsafeptr
	rv := "(reflect.Value)."

	r := c.Run(h, &eng.Options{Exact: true, CutAt: cutAll,
		Pure: func(n string) bool { return strings.HasPrefix(n, rv) || n == "reflect.Indirect" },
		Event: func(st *eng.State, e *eng.Event) bool {
			return e.Kind == "call" || e.Kind == "go" || e.Kind == "panic"
		}})
	met := map[string]bool{}
	for _, x := range r.Exits {
		if x.Kind != "return" {
			c.Check(x.Kind == "panic" && len(events(x.St, func(e *eng.Event) bool { return e.Kind == "panic" })) == 0, "values", con, x.Pos, "the filter panics by itself")
			continue
		}
		st := x.St
		next, wrote, find := -1, -1, -1
		written := -1
		var outs *eng.Term
		var found []*eng.Term // cells asked for after the chain ran
		foundT := map[*eng.Term]bool{}
		for i, e := range st.Trace {
			if e.Kind != "call" || e.Callee == nil {
				continue
			}
			switch {
			case e.Callee.Name() == "Next" && e.Recv != nil && tid(e.Recv.Typ, ctxT):
				c.On(st, next < 0, "chain", con, e.Pos, "the rest of the chain runs twice")
				next = i
			case e.Callee.Name() == "Written":
				if next >= 0 {
					written = st.EvalTerm(e.Res)
				}
			case e.Callee.Name() == "Find" && len(e.Args) > 0:
				cell := bare(e.Args[0])
				p, ok := cell.Typ.(*types.Pointer)
				if ok && tid(p.Elem(), outT) {
					c.On(st, next >= 0, "values", con, e.Pos, "the returned values are asked for before the chain ran")
					find = i
					found = append(found, cell)
				}
				if ok && tid(p.Elem(), rwT) {
					foundT[cell] = true
				}
			case e.Callee.Name() == "Out" && e.Recv != nil && e.Recv.Op == eng.OLoad && len(found) > 0 && cellOf(e.Recv) == found[len(found)-1]:
				outs = e.Res
			}
		}
		c.On(st, next >= 0, "chain", con, x.Pos, "the rest of the chain is not run")
		// the last value and the one before it
		nth := func(k int64) func(t *eng.Term) bool {
			return func(t *eng.Term) bool {
				if outs == nil || t == nil {
					return false
				}
				b, i, ok := index(t)
				if !ok || b != outs {
					return false
				}
				l := eng.Lin(u.Bin("-", u.Bin("+", i, u.Int(k), i.Typ), u.Len(outs), i.Typ))
				return len(l.Coeff) == 0 && l.C == 0
			}
		}
		last, before := nth(1), nth(2)
		of := func(t *eng.Term, m string, v func(*eng.Term) bool) bool {
			return retOf(t, rv+m) && v(t.Args[0])
		}
		kindIs := func(v func(*eng.Term) bool, k int64) int {
			return eqFact(st, func(t *eng.Term) bool { return of(bare(t), "Kind", v) }, func(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == k })
		}
		// the status
		isInt := kindIs(last, 2)
		var status, bodies []int
		var closes []int
		body := last
		if isInt == 1 {
			body = before
		}
		intf := func(t *eng.Term) bool { // the body as a value
			for t != nil && (t.Op == eng.OIface || t.Op == eng.OConv || t.Op == eng.OTA) {
				t = t.Args[0]
			}
			return t != nil && (of(t, "Interface", body) || of(t, "String", body) || of(t, "Bytes", body))
		}
		isRW := func(t *eng.Term) bool {
			t = bare(t)
			if t.Op == eng.OTA {
				t = bare(t.Args[0])
			}
			if t.Op == eng.OParam {
				return tid(t.Typ, rwT)
			}
			return foundT[cellOf(t)]
		}
		param := func(t *eng.Term, T types.Type) bool { t = bare(t); return t.Op == eng.OParam && tid(t.Typ, T) }
		way := ""
		for i, e := range st.Trace {
			if e.Kind == "go" {
				c.On(st, false, "values", con, e.Pos, "the answer is sent at the same time as something else")
			}
			if e.Kind != "call" {
				continue
			}
			n := e.Name
			short := n[strings.LastIndex(n, ".")+1:]
			kind := ""
			switch {
			case e.Recv != nil && isRW(e.Recv) && short == "WriteHeader":
				status = append(status, i)
				ok := isInt == 1 && of(bare(e.Args[0]), "Int", last)
				c.On(st, ok, "status", con, e.Pos, "the status is not the int in the last place")
			case e.Recv != nil && isRW(e.Recv) && (short == "Write" || short == "WriteString"):
				kind = "raw"
				c.On(st, intf(e.Args[0]), "body", con, e.Pos, "something else than the returned value is written")
			case n == "io.Copy":
				kind = "reader"
				c.On(st, isRW(e.Args[0]) && intf(e.Args[1]), "body", con, e.Pos, "the reader returned is not copied to the answer")
			case n == "io.WriteString":
				kind = "raw"
				c.On(st, isRW(e.Args[0]) && intf(e.Args[1]), "body", con, e.Pos, "something else than the returned text is written")
			case e.Recv != nil && intf(e.Recv) && short == "ServeHTTP":
				kind = "handler"
				c.On(st, isRW(e.Args[0]) && param(e.Args[1], reqT), "body", con, e.Pos, "the handler returned does not get this answer and request")
			case e.Recv != nil && intf(e.Recv) && short == "Write" && len(e.Args) == 3:
				kind = "result"
				c.On(st, param(e.Args[0], ctxT) && isRW(e.Args[1]) && param(e.Args[2], reqT), "body", con, e.Pos, "the result returned does not get this context, answer and request")
			case e.Recv != nil && intf(e.Recv) && short == "Close":
				closes = append(closes, i)
			case e.Recv != nil && intf(e.Recv):
				c.On(st, false, "body", con, e.Pos, "the returned value is used in another way: %s", short)
			}
			if kind != "" {
				way = kind
				bodies = append(bodies, i)
			}
			// kinds the calls of reflection allow
			if strings.HasPrefix(n, rv) && e.Recv != nil {
				v := e.Recv
				is := func(t *eng.Term) bool { return t == v }
				switch short {
				case "IsNil":
					ok := false
					for k := range nilable {
						ok = ok || kindIs(is, k) == 1
					}
					c.On(st, ok, "kind", con, e.Pos, "a value whose kind has no nil is asked for nil")
				case "Int":
					c.On(st, kindIs(is, 2) == 1, "kind", con, e.Pos, "a value that may be no int is read as one")
				case "Interface":
					ok := hasFact(st, func(t *eng.Term) bool { return of(t, "CanInterface", is) }) == 1
					c.On(st, ok, "kind", con, e.Pos, "a value is read without knowing that it can be")
				case "Kind", "CanInterface", "IsValid", "Type", "String", "Bytes":
				default:
					c.On(st, false, "kind", con, e.Pos, "reflection call not known to be safe: %s", short)
				}
				if outs != nil {
					l := u.Len(outs)
					atLeast2 := leProved(st, u, u.Int(2), l, nil) || st.EqTerms(l, u.Int(0)) == 0 && st.EqTerms(l, u.Int(1)) == 0
					ok := last(v) && leProved(st, u, u.Int(1), u.Len(outs), nil) || before(v) && atLeast2
					c.On(st, ok, "place", con, e.Pos, "a returned value may be looked for where there is none")
				}
			}
		}
		wrote = len(status) + len(bodies)
		// nothing is sent twice, early or out of order
		c.On(st, wrote == 0 || written == 0, "written", con, x.Pos, "something is sent without knowing that nothing was written")
		c.On(st, len(status) <= 1, "status", con, x.Pos, "the status is set twice")
		c.On(st, len(bodies) <= 1, "body", con, x.Pos, "the returned value is sent twice")
		for _, b := range bodies {
			c.On(st, len(status) == 0 || status[0] < b, "status", con, st.Trace[b].Pos, "the status is set after the body")
			c.On(st, next < b, "written", con, st.Trace[b].Pos, "something is sent before the chain ran")
		}
		if written == 1 {
			met["written"] = true
			continue
		}
		if written < 0 {
			c.On(st, false, "written", con, x.Pos, "it is not known whether something was written")
			continue
		}
		if find < 0 || outs == nil {
			ok := len(found) > 0 && st.IsNil(st.Load(found[len(found)-1])) == 1
			c.On(st, ok, "values", con, x.Pos, "what the controller returned is not asked for")
			met["none"] = true
			continue
		}
		if leProved(st, u, u.Len(outs), u.Int(0), nil) {
			met["empty"] = true
			continue
		}
		c.On(st, isInt >= 0, "status", con, x.Pos, "the last value is not asked whether it is an int")
		c.On(st, (isInt == 1) == (len(status) == 1), "status", con, x.Pos, "an int in the last place does not become the status")
		if isInt == 1 {
			met["status"] = true
			if leProved(st, u, u.Len(outs), u.Int(1), nil) {
				met["status only"] = true
				continue
			}
		}
		// the case of the body
		isCase := func(T types.Type) int {
			return hasFact(st, func(t *eng.Term) bool { return t.Op == eng.OIs && tid(eng.IsType(t), T) && intf(t.Args[0]) })
		}
		can := hasFact(st, func(t *eng.Term) bool { return of(t, "CanInterface", body) })
		if can == 0 {
			met["hidden"] = true
			continue
		}
		isNil := hasFact(st, func(t *eng.Term) bool { return of(t, "IsNil", body) })
		if isNil == 1 {
			c.On(st, len(bodies) == 0, "nil", con, x.Pos, "nil is sent")
			met["nil"] = true
			continue
		}
		notNil := isNil == 0
		if !notNil {
			notNil = true
			for k := range nilable {
				if k != 26 {
					notNil = notNil && kindIs(body, k) == 0
				}
			}
			for _, k := range []int64{1, 2, 24, 25} {
				notNil = notNil || kindIs(body, k) == 1
			}
		}
		closer := isCase(ioT("ReadCloser"))
		if closer < 0 {
			closer = isCase(ioT("Closer"))
		}
		which := ""
		for i, T := range cases {
			is := isCase(T)
			if i == 2 && is < 0 && isCase(ioT("ReadCloser")) == 1 {
				is = 1
			}
			if is == 1 {
				which = names[i]
				break
			}
			c.On(st, is == 0 || (i == 3 || i == 4) && kindIs(body, map[int]int64{3: 24, 4: 23}[i]) == 0, "case", con, x.Pos, "a returned value is not asked whether it is a %s", names[i])
		}
		if which == "" {
			c.On(st, len(bodies) == 0, "case", con, x.Pos, "a value that can not be sent is sent")
			met["other"] = true
			continue
		}
		met[which] = true
		want := which
		if which == "text" || which == "bytes" {
			want = "raw"
		}
		c.On(st, len(bodies) == 1, "case", con, x.Pos, "a returned %s is not sent", which)
		c.On(st, len(bodies) == 0 || way == want, "case", con, x.Pos, "a returned %s is not sent as one", which)
		c.On(st, which == "text" || notNil, "nil", con, x.Pos, "a returned %s may be nil when it is sent", which)
		if which == "reader" {
			c.On(st, closer >= 0, "close", con, x.Pos, "a reader is not asked whether it has to be closed")
			c.On(st, len(closes) == b2i(closer == 1), "close", con, x.Pos, "a reader that can be closed is closed %d times", len(closes))
			c.On(st, len(closes) == 0 || len(bodies) == 0 || closes[0] > bodies[0], "close", con, x.Pos, "a reader is closed before it was copied")
			met["closed"] = met["closed"] || closer == 1
		} else {
			c.On(st, len(closes) == 0, "close", con, x.Pos, "something else than a reader is closed")
		}
	}
	for _, k := range []string{"written", "none", "empty", "status", "status only", "nil", "result", "handler", "reader", "closed", "text", "bytes", "other"} {
		c.Check(met[k], "met", con+" "+k, h.Pos(), "no path of the filter deals with: %s", k)
	}
}
