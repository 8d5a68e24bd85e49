package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20",
		"Path analysis of the handler the static file filter installs, with what it captured: every file is opened in the configured directory under a name derived from the request's path without the prefix, the index of that or the fallback; nothing is opened or sent unless method, prefix and skipped prefixes admit it; the file sent is the one opened and inspected last, every opened file is closed once after its last use, and every way out sends at most one answer, the right one for its failures.",
		"what the standard library sends for a file; links inside the directory",
		c20)
}

// scan proves that a loop looks at every element of a list and goes on only
// past elements that were refuted.
type scan struct {
	c     *Ctx
	list  func(base *eng.Term) bool
	fails func(st *eng.State, elem *eng.Term) bool // the element is refuted on the path
	good  map[*ssa.BasicBlock]bool
	bad   map[*ssa.BasicBlock]bool
}

func (c *Ctx) newScan(list func(*eng.Term) bool, fails func(*eng.State, *eng.Term) bool) *scan {
	return &scan{c: c, list: list, fails: fails, good: map[*ssa.BasicBlock]bool{}, bad: map[*ssa.BasicBlock]bool{}}
}

// elems lists the elements of the list that facts of the path speak about.
func (s *scan) elems(st *eng.State) []*eng.Term {
	var out []*eng.Term
	for _, l := range st.Facts() {
		eng.Any(l.T, func(t *eng.Term) bool {
			if b, _, ok := index(t); ok && t.Op != eng.OIAddr && s.list(b) {
				out = append(out, t)
			}
			return false
		})
	}
	return out
}

func (s *scan) back(st *eng.State, h *ssa.BasicBlock) {
	ok := false
	for _, e := range s.elems(st) {
		_, idx, _ := index(e)
		_, ind := phiIn(noOld(s.c.U, idx))
		if ind != nil && ind.Phi.Block() == h && forward(s.c.U, idx) && s.fails(st, e) {
			ok = true
		}
	}
	if ok {
		s.good[h] = true
	} else {
		s.bad[h] = true
	}
}

// done: the path went past the end of such a loop, or the list has nothing.
func (s *scan) done(st *eng.State) bool {
	for _, l := range st.Facts() {
		if b := exhausted(l); b != nil && s.list(b) {
			_, ind := phiIn(noOld(s.c.U, l.T))
			if ind == nil {
				if l.T.Sym == "eq" {
					return true // length zero
				}
				continue
			}
			h := ind.Phi.Block()
			if s.good[h] && !s.bad[h] {
				return true
			}
		}
	}
	return false
}

func c20(c *Ctx) {
	f := c.Fn("static-serve", "ServeFilter")
	anyF, tryF, skipF := c.fld("static-serve", "StaticOption", "AnyMethod"), c.fld("static-serve", "StaticOption", "TryFilesThen"), c.fld("static-serve", "StaticOption", "SkipPrefix")
	rwT := c.P.TPkg("net/http").Scope().Lookup("ResponseWriter").Type()
	reqT := types.NewPointer(c.P.TPkg("net/http").Scope().Lookup("Request").Type())
	con := "ServeFilter handler"
	u := c.U
	met := map[string]bool{}
	for _, m := range c.closures(f) {
		isReq := func(t *eng.Term) bool { t = bare(t); return t.Op == eng.OParam && tid(t.Typ, reqT) }
		isRW := func(t *eng.Term) bool { t = bare(t); return t.Op == eng.OParam && tid(t.Typ, rwT) }
		reqFld := func(t *eng.Term, names ...string) bool { // request field chain, innermost last
			for i := len(names) - 1; i >= 0; i-- {
				fv := fieldOf(t)
				if fv == nil || fv.Name() != names[i] {
					return false
				}
				t = cellOf(t).Args[0]
			}
			return isReq(t)
		}
		isPath := func(t *eng.Term) bool { return reqFld(t, "URL", "Path") }
		// what was configured
		var dirP, prefixP *eng.Term
		for _, t := range c.paramTerms(f) {
			if t.Op == eng.OParam && isString(t.Typ) {
				if prefixP == nil {
					prefixP = t
				} else if dirP == nil {
					dirP = t
				}
			}
		}
		isDir := func(t *eng.Term) bool {
			t = bare(t)
			if t.Op == eng.OExtract {
				t = t.Args[0]
			}
			return retOf(t, "path/filepath.Abs") && t.Args[0] == dirP
		}
		isPrefix := func(t *eng.Term) bool { // the prefix with a slash in front and none at the end
			if !callTerm(t, "strings.TrimRight") && !callTerm(t, "strings.TrimSuffix") {
				return false
			}
			if s, ok := t.Args[1].StrVal(); !ok || s != "/" {
				return false
			}
			ps := parts(t.Args[0])
			if len(ps) == 2 {
				s, ok := ps[0].StrVal()
				return ok && s == "/" && ps[1] == prefixP
			}
			slash := hasFact(m.st, func(t *eng.Term) bool {
				if t.Op == eng.OPure && t.Sym == "strings.HasPrefix" {
					s, ok := t.Args[1].StrVal()
					return ok && s == "/" && t.Args[0] == prefixP
				}
				if t.Op != eng.OBin || t.Sym != "eq" {
					return false
				}
				for i := 0; i < 2; i++ {
					b, idx, ok := index(t.Args[i])
					n, isN := t.Args[1-i].IntVal()
					if k, okI := int64(0), false; ok && isN {
						k, okI = idx.IntVal()
						if okI && k == 0 && b == prefixP && n == '/' {
							return true
						}
					}
				}
				return false
			})
			return len(ps) == 1 && ps[0] == prefixP && slash == 1
		}
		noPrefix := func(st *eng.State) bool {
			return eqFact(st, func(t *eng.Term) bool { return t == prefixP }, isStrFn("")) == 1 || eqFact(st, isPrefix, isStrFn("")) == 1
		}
		isRel := func(st *eng.State, t *eng.Term) bool {
			if noPrefix(st) {
				return isPath(t)
			}
			if t.Op == eng.OSlice && isPath(t.Args[0]) && (len(t.Args) < 3 || t.Args[2] == nil || t.Args[2].IsNil()) {
				lo := t.Args[1]
				return lo != nil && lo.Op == eng.OBuiltin && lo.Sym == "len" && isPrefix(lo.Args[0])
			}
			return callTerm(t, "strings.TrimPrefix") && isPath(t.Args[0]) && isPrefix(t.Args[1])
		}
		isSkip := func(b *eng.Term) bool { return fieldOf(b) == skipF }
		sc := c.newScan(isSkip, func(st *eng.State, e *eng.Term) bool {
			return hasFact(st, func(t *eng.Term) bool {
				return t.Op == eng.OPure && t.Sym == "strings.HasPrefix" && t.Args[1] == e && isRel(st, t.Args[0])
			}) == 0
		})
		r := c.Run(m.fn, &eng.Options{Exact: true, CutAt: cutAll, Closure: m.t, From: m.st,
			Back: sc.back,
			Event: func(st *eng.State, e *eng.Event) bool {
				if e.Name == "(*net/url.URL).String" && e.Recv.Op == eng.OAlloc {
					var vs []*eng.Term
					for _, n := range []string{"Path", "RawQuery", "Host", "Scheme", "Opaque"} {
						vs = append(vs, orNil(st.Load(st.FieldCell(e.Recv, n)), u))
					}
					e.Val = u.Opaque("url", nil, vs...)
				}
				return e.Kind == "call" || e.Kind == "go"
			}})
		noOpts := hasFact(m.st, func(t *eng.Term) bool {
			return t.Op == eng.OBin && t.Sym == "eq" && (isLenOfParam(t.Args[0]) && isZero(t.Args[1]) || isLenOfParam(t.Args[1]) && isZero(t.Args[0]))
		}) == 1 || hasFact(m.st, func(t *eng.Term) bool {
			return t.Op == eng.OBin && t.Sym == "lt" && isLenOfParam(t.Args[1]) && isZero(t.Args[0])
		}) == 0
		for _, x := range r.Exits {
			if x.Kind != "return" {
				c.Check(x.Kind == "cut", "answer", con, x.Pos, "the handler panics by itself")
				continue
			}
			st := x.St
			if ofNothing(st) {
				continue // an element of an empty list: no run gets here
			}
			// which of the conditions hold
			method := hasFact(st, func(t *eng.Term) bool { return fieldOf(t) == anyF }) == 1
			refused := hasFact(st, func(t *eng.Term) bool { return fieldOf(t) == anyF }) != 1
			for _, mth := range []string{"GET", "HEAD"} {
				k := eqFact(st, func(t *eng.Term) bool { return reqFld(t, "Method") }, isStrFn(mth))
				method = method || k == 1
				refused = refused && k == 0
			}
			pre := noPrefix(st)
			preNo := false
			if !pre {
				has := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OPure && t.Sym == "strings.HasPrefix" && isPath(t.Args[0]) && isPrefix(t.Args[1])
				})
				empty := hasFact(st, func(t *eng.Term) bool {
					if t.Op != eng.OBin || t.Sym != "eq" {
						return false
					}
					for i := 0; i < 2; i++ {
						if s, ok := t.Args[i].StrVal(); ok && s == "" && isRel(st, t.Args[1-i]) {
							return true
						}
						if n, ok := t.Args[i].IntVal(); ok && n == 0 && t.Args[1-i].Op == eng.OBuiltin && isRel(st, t.Args[1-i].Args[0]) {
							return true
						}
					}
					return false
				})
				slash := hasFact(st, func(t *eng.Term) bool {
					if t.Op == eng.OPure && t.Sym == "strings.HasPrefix" && isRel(st, t.Args[0]) && isStr(t.Args[1], "/") {
						return true
					}
					if t.Op != eng.OBin || t.Sym != "eq" {
						return false
					}
					for i := 0; i < 2; i++ {
						b, idx, ok := index(t.Args[i])
						n, isN := t.Args[1-i].IntVal()
						if ok && isN && n == '/' && isRel(st, b) && isZero(idx) {
							return true
						}
					}
					return false
				})
				pre = has == 1 && (empty == 1 || slash == 1)
				preNo = has == 0 || empty != 1 && slash == 0
			}
			skipHit := hasFact(st, func(t *eng.Term) bool {
				if t.Op != eng.OPure || t.Sym != "strings.HasPrefix" || !isRel(st, t.Args[0]) {
					return false
				}
				b, _, ok := index(t.Args[1])
				return ok && isSkip(b)
			}) == 1
			admitted := method && pre && !skipHit && (noOpts || sc.done(st))
			out := refused || preNo || skipHit
			// what is opened and sent
			type file struct {
				e                   *eng.Event
				name, f, err        *eng.Term
				stat                *eng.Event
				closed, at, closeAt int
				lastUse             int
			}
			var files []*file
			find := func(t *eng.Term) *file {
				for _, x := range files {
					if bare(t) == x.f {
						return x
					}
				}
				return nil
			}
			answers := 0
			answer := ""
			for i, e := range st.Trace {
				if e.Kind == "go" {
					c.On(st, false, "answer", con, e.Pos, "something goes on after the answer")
					continue
				}
				touches := false
				for _, a := range e.Args {
					touches = touches || isRW(a)
				}
				touches = touches || e.Recv != nil && isRW(e.Recv)
				switch {
				case e.Name == "(net/http.Dir).Open" || e.Name == "(net/http.FileSystem).Open":
					o := &file{e: e, name: e.Args[0], f: resAt(st, e, 0), err: resAt(st, e, 1), at: i, closeAt: -1}
					files = append(files, o)
					c.On(st, isDir(e.Recv), "contained", con, e.Pos, "a file is opened outside the configured directory")
					c.On(st, admitted, "admitted", con, e.Pos, "a file is opened for a request that may not be one for files")
				case strings.HasPrefix(e.Name, "os.") || strings.HasPrefix(e.Name, "io/ioutil.") || e.Name == "net/http.ServeFile" || strings.HasPrefix(e.Name, "path/filepath."):
					c.On(st, false, "contained", con, e.Pos, "files are reached without the directory: %s", e.Name)
				case strings.HasSuffix(e.Name, ").Stat") && e.Recv != nil:
					if o := find(e.Recv); o != nil {
						o.stat = e
						o.lastUse = i
					}
				case strings.HasSuffix(e.Name, ").Close") && e.Recv != nil:
					o := find(e.Recv)
					c.On(st, o != nil, "closed", con, e.Pos, "something else is closed")
					if o != nil {
						o.closed++
						o.closeAt = i
					}
				case e.Name == "net/http.ServeContent":
					answer = "content"
					answers++
					c.On(st, isRW(e.Args[0]) && isReq(e.Args[1]), "answer", con, e.Pos, "the file does not go to this request")
					o := find(e.Args[4])
					c.On(st, o != nil && o == files[len(files)-1], "answer", con, e.Pos, "the file sent is not the one opened last")
					if o == nil {
						continue
					}
					o.lastUse = i
					c.On(st, st.IsNil(o.err) == 1, "answer", con, e.Pos, "a file is sent that could not be opened")
					c.On(st, bare(e.Args[2]) == bare(o.name), "type", con, e.Pos, "the type of the file sent is taken from another name")
					fi := e.Args[3]
					for fi != nil && !callTerm(fi, "(io/fs.FileInfo).ModTime") && !callTerm(fi, "(os.FileInfo).ModTime") && len(fi.Args) > 0 {
						fi = fi.Args[0]
					}
					ok := o.stat != nil && len(fi.Args) > 0 && bare(fi.Args[0]) == resAt(st, o.stat, 0) && st.IsNil(resAt(st, o.stat, 1)) == 1
					c.On(st, ok, "answer", con, e.Pos, "the time of another file is sent")
					if fieldOf(bare(o.name)) != tryF && o.stat != nil {
						dir := hasFact(st, func(t *eng.Term) bool {
							return callTerm(t, "(io/fs.FileInfo).IsDir") && bare(t.Args[0]) == resAt(st, o.stat, 0)
						})
						c.On(st, dir == 0, "answer", con, e.Pos, "what is sent may be a directory")
					}
				case e.Name == "net/http.NotFound":
					answer = "not found"
					answers++
					c.On(st, isRW(e.Args[0]) && isReq(e.Args[1]), "answer", con, e.Pos, "another request is answered")
				case e.Name == "net/http.Redirect":
					answer = "redirect"
					answers++
					c.On(st, isRW(e.Args[0]) && isReq(e.Args[1]), "answer", con, e.Pos, "another request is answered")
					n, ok := e.Args[3].IntVal()
					c.On(st, ok && n >= 300 && n < 400 && n != 304, "redirect", con, e.Pos, "a directory is not redirected")
					c.On(st, c.sameHost(st, e, isPath, func(t *eng.Term) bool { return reqFld(t, "URL", "RawQuery") }), "redirect", con, e.Pos, "the redirect of a directory may lead elsewhere than to its name with a slash")
				case touches:
					c.On(st, false, "answer", con, e.Pos, "something else is sent: %s", shortName(e))
				}
			}
			c.On(st, answers <= 1, "answer", con, x.Pos, "two answers are sent")
			c.On(st, answers == 0 || admitted, "admitted", con, x.Pos, "something is sent for a request that may not be one for files")
			for _, o := range files {
				switch st.IsNil(o.err) {
				case 1:
					c.On(st, o.closed == 1, "closed", con, x.Pos, "a file that was opened is closed %d times", o.closed)
					c.On(st, o.closeAt > o.lastUse, "closed", con, x.Pos, "a file is closed before its last use")
				case 0:
					c.On(st, o.closed == 0, "closed", con, x.Pos, "a file that was not opened is closed")
				default:
					c.On(st, false, "closed", con, x.Pos, "it is not asked whether a file was opened")
				}
			}
			// the right one
			if len(files) == 0 {
				c.On(st, out, "admitted", con, x.Pos, "a request for a file is not looked at")
				met["out"] = true
				continue
			}
			c.On(st, isRel(st, bare(files[0].name)), "name", con, files[0].e.Pos, "the file opened is not the one of the request's path")
			ok := func(o *file) bool {
				return st.IsNil(o.err) == 1 && o.stat != nil && st.IsNil(resAt(st, o.stat, 1)) == 1
			}
			isDirF := func(o *file) int {
				return hasFact(st, func(t *eng.Term) bool {
					return callTerm(t, "(io/fs.FileInfo).IsDir") && o.stat != nil && bare(t.Args[0]) == resAt(st, o.stat, 0)
				})
			}
			last := files[len(files)-1]
			try := hasFact(st, func(t *eng.Term) bool {
				return t.Op == eng.OBin && t.Sym == "eq" && (fieldOf(t.Args[0]) == tryF && isStr(t.Args[1], "") || fieldOf(t.Args[1]) == tryF && isStr(t.Args[0], ""))
			}) // 1: no fallback
			if noOpts {
				try = 1
			}
			switch {
			case ok(files[0]) && isDirF(files[0]) == 1:
				slash := hasFact(st, func(t *eng.Term) bool {
					return t.Op == eng.OPure && t.Sym == "strings.HasSuffix" && isPath(t.Args[0]) && isStr(t.Args[1], "/")
				})
				if slash == 0 {
					c.On(st, answer == "redirect" && len(files) == 1, "redirect", con, x.Pos, "a directory without a slash is not redirected to itself with one")
					met["redirect"] = true
					continue
				}
				c.On(st, slash == 1, "redirect", con, x.Pos, "a directory may be sent without a slash")
				c.On(st, len(files) == 2, "index", con, x.Pos, "the index of a directory is not looked for")
				if len(files) < 2 {
					continue
				}
				c.On(st, c.indexOf(last.name, func(t *eng.Term) bool { return isRel(st, bare(t)) }), "index", con, last.e.Pos, "another file than the index of the directory is opened")
				switch {
				case !ok(last):
					c.On(st, answer == "not found", "index", con, x.Pos, "a directory without an index is not answered as missing")
					met["no index"] = true
				case isDirF(last) == 1:
					c.On(st, answer == "", "index", con, x.Pos, "a directory called like an index is sent")
				default:
					c.On(st, answer == "content", "index", con, x.Pos, "the index of a directory is not sent")
					met["index"] = true
				}
			case ok(files[0]):
				c.On(st, isDirF(files[0]) == 0 && answer == "content" && len(files) == 1, "sent", con, x.Pos, "a file that could be opened is not sent")
				met["sent"] = true
			case try == 1:
				c.On(st, answer == "not found" && len(files) == 1, "missing", con, x.Pos, "a missing file is not answered as missing")
				met["missing"] = true
			default:
				c.On(st, try == 0 && len(files) == 2 && fieldOf(bare(last.name)) == tryF, "fallback", con, x.Pos, "a missing file does not lead to the fallback")
				if len(files) != 2 {
					continue
				}
				if ok(last) {
					c.On(st, answer == "content", "fallback", con, x.Pos, "the fallback is not sent")
					met["fallback"] = true
				} else {
					c.On(st, answer == "not found", "fallback", con, x.Pos, "a missing fallback is not answered as missing")
					met["no fallback"] = true
				}
			}
		}
		c.Check(true, "configured", con, m.fn.Pos(), "")
		d := hasFact(m.st, func(t *eng.Term) bool {
			return t.Op == eng.OBin && t.Sym == "eq" && (isDir(t.Args[0]) && isStr(t.Args[1], "") || isDir(t.Args[1]) && isStr(t.Args[0], ""))
		})
		c.Check(d == 0, "contained", con, m.fn.Pos(), "an empty directory is accepted")
	}
	for _, k := range []string{"out", "redirect", "no index", "index", "sent", "missing", "fallback", "no fallback"} {
		c.Check(met[k], "met", con+" "+k, f.Pos(), "no path of the handler for: %s", k)
	}
}

// ofNothing: the path has looked at an element of the nil list.
func ofNothing(st *eng.State) bool {
	for _, l := range st.Facts() {
		if eng.Any(l.T, func(t *eng.Term) bool {
			b, _, ok := index(t)
			return ok && b.IsNil()
		}) {
			return true
		}
	}
	return false
}

func isZero(t *eng.Term) bool { n, ok := t.IntVal(); return ok && n == 0 }

func isLenOfParam(t *eng.Term) bool {
	return t.Op == eng.OBuiltin && t.Sym == "len" && t.Args[0].Op == eng.OParam
}

// paramTerms gives the parameters of a function as terms of a run.
func (c *Ctx) paramTerms(f *ssa.Function) []*eng.Term {
	return c.Run(f, &eng.Options{}).Params
}

// sameHost: the target of the redirect is the path with one slash in front and
// one at the end, with the query.
func (c *Ctx) sameHost(st *eng.State, e *eng.Event, isPath, isQuery func(*eng.Term) bool) bool {
	one := func(ps []*eng.Term) bool {
		switch len(ps) {
		case 3:
			return isStr(ps[0], "/") && isStr(ps[2], "/") && callTerm(ps[1], "strings.TrimLeft") && isPath(ps[1].Args[0]) && isStr(ps[1].Args[1], "/")
		case 2:
			return isStr(ps[1], "/") && callTerm(ps[0], "path.Clean") && isPath(ps[0].Args[0])
		}
		return false
	}
	t := bare(e.Args[2])
	if callTerm(t, "(*net/url.URL).String") {
		for _, x := range st.Trace {
			if x.Kind == "call" && x.Res == t {
				if x.Val == nil {
					return false
				}
				v := x.Val.Args // path, query, host, scheme, opaque
				return one(joined(c.U, parts(v[0]))) && isQuery(v[1]) && isStr(v[2], "") && isStr(v[3], "") && isStr(v[4], "")
			}
		}
	}
	return false
}

// indexOf: the name is that of the index in the directory.
func (c *Ctx) indexOf(t *eng.Term, rel func(*eng.Term) bool) bool {
	t = bare(t)
	if callTerm(t, "path.Join") {
		a := t.Args[0]
		if a.Op == eng.OBuiltin && a.Sym == "slicelit" && len(a.Args) == 2 {
			return rel(a.Args[0]) && isStr(a.Args[1], "index.html")
		}
		return false
	}
	ps := parts(t)
	return len(ps) == 2 && rel(ps[0]) && (isStr(ps[1], "/index.html") || isStr(ps[1], "index.html"))
}
