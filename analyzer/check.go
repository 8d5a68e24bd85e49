package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // the rule applied, for the evidence
	Not  string // what the rule does not cover
	Run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule, not string, run func(c *Ctx)) {
	checks[id] = &Check{ID: id, Rule: rule, Not: not, Run: run}
}

// Violation is one broken obligation.
type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Detail    string   `json:"detail"`
	Path      []string `json:"path,omitempty"`
}

func (v Violation) key() string { return v.Rule + "|" + v.Construct }

// Ctx collects what a check analysed and found.
type Ctx struct {
	P      *eng.Program
	U      *eng.Universe
	ID     string
	rules  map[string]int // obligations per rule
	failed map[string]bool
	viol   []Violation
	funcs  map[string]bool
	paths  int
	states int
	steps  int
	runs   int
	sites  []string
	siteOf map[string]bool
}

// Check records an obligation of rule about construct.
func (c *Ctx) Check(ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
	c.rules[rule]++
	site := rule + " @ " + construct
	if !c.siteOf[site] {
		c.siteOf[site] = true
		c.sites = append(c.sites, site+" ("+c.P.Pos(pos)+")")
	}
	if !ok {
		v := Violation{Rule: rule, Construct: construct, Pos: c.P.Pos(pos), Detail: fmt.Sprintf(format, a...)}
		if !c.failed[v.key()] {
			c.failed[v.key()] = true
			c.viol = append(c.viol, v)
		}
	}
	return ok
}

// On is Check with the facts and events of the path attached to a violation.
func (c *Ctx) On(st *eng.State, ok bool, rule, construct string, pos token.Pos, format string, a ...interface{}) bool {
	n := len(c.viol)
	c.Check(ok, rule, construct, pos, format, a...)
	if len(c.viol) > n && st != nil {
		v := &c.viol[len(c.viol)-1]
		for _, f := range st.Frames() {
			v.Path = append(v.Path, "in "+eng.FuncName(f))
		}
		for _, l := range st.Facts() {
			v.Path = append(v.Path, "assuming "+clip(l.String()))
		}
		for _, e := range st.Trace {
			v.Path = append(v.Path, c.P.Pos(e.Pos)+": "+clip(e.String()))
		}
		if len(v.Path) > 60 {
			v.Path = v.Path[:60]
		}
	}
	return ok
}

func clip(s string) string {
	if len(s) > 240 {
		return s[:240] + "…"
	}
	return s
}

type stop struct{}

// Need fails the check when an anchor cannot be resolved.
func (c *Ctx) Need(ok bool, what string) {
	if !ok {
		c.Check(false, "anchor", what, token.NoPos, "the construct this property is about was not found in the source: %s", what)
		panic(stop{})
	}
}

// Min requires at least n obligations of a rule (guards against vacuity).
func (c *Ctx) Min(rule string, n int) {
	if c.rules[rule] < n {
		c.Check(false, "vacuous", rule, token.NoPos, "rule %s matched %d places, at least %d are expected", rule, c.rules[rule], n)
	}
}

// Run analyses fn and accounts for it.
func (c *Ctx) Run(fn *ssa.Function, o *eng.Options) *eng.Result {
	o.Prog = c.P
	r := eng.Run(fn, o)
	c.runs++
	c.paths += len(r.Exits)
	c.states += r.States
	c.steps += r.Steps
	for f := range r.Funcs {
		c.funcs[eng.FuncName(f)] = true
	}
	if r.Truncated {
		c.Check(false, "undecided", eng.FuncName(fn), fn.Pos(), "the analysis of this function did not reach a fixpoint within its budget")
	}
	return r
}

// ---- lookup helpers ----

// Fn finds the package function pkg.name.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	p := c.P.Pkg(pkg)
	c.Need(p != nil, "package "+pkg)
	f := p.Func(name)
	c.Need(f != nil && c.P.HasBody(f), "function "+pkg+"."+name)
	return f
}

// FnOpt is Fn without the requirement.
func (c *Ctx) FnOpt(pkg, name string) *ssa.Function {
	p := c.P.Pkg(pkg)
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil || !c.P.HasBody(f) {
		return nil
	}
	return f
}

// Type finds the named type pkg.name.
func (c *Ctx) Type(pkg, name string) *types.Named {
	p := c.P.Pkg(pkg)
	c.Need(p != nil, "package "+pkg)
	o, _ := p.Pkg.Scope().Lookup(name).(*types.TypeName)
	c.Need(o != nil, "type "+pkg+"."+name)
	n, _ := types.Unalias(o.Type()).(*types.Named)
	c.Need(n != nil, "type "+pkg+"."+name)
	return n
}

// Meth finds a method of T or *T with a body in the module.
func (c *Ctx) Meth(t types.Type, name string) *ssa.Function {
	f := c.P.NamedMethod(t, name)
	if f == nil || !c.P.HasBody(f) {
		f = c.P.NamedMethod(types.NewPointer(t), name)
	}
	c.Need(f != nil && c.P.HasBody(f), "method "+t.String()+"."+name)
	return f
}

// Impls lists the named struct types of the package implementing the interface
// (through a pointer), without those that only embed it.
func (c *Ctx) Impls(pkg string, itf *types.Interface) []*types.Named {
	p := c.P.Pkg(pkg)
	c.Need(p != nil, "package "+pkg)
	var out []*types.Named
	sc := p.Pkg.Scope()
	names := sc.Names()
	for _, n := range names {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(types.NewPointer(nt), itf) {
			out = append(out, nt)
		}
	}
	return out
}

// FuncsOf lists module functions (with closures) of a package.
func (c *Ctx) FuncsOf(pkg string) []*ssa.Function {
	p := c.P.Pkg(pkg)
	c.Need(p != nil, "package "+pkg)
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == p || (f.Parent() != nil && outer(f).Pkg == p) {
			out = append(out, f)
		}
	}
	return out
}

func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// Iface finds an interface type of any loaded package.
func (c *Ctx) Iface(path, name string) *types.Interface {
	p := c.P.TPkg(path)
	c.Need(p != nil, "package "+path)
	o := p.Scope().Lookup(name)
	c.Need(o != nil, "type "+path+"."+name)
	i, _ := o.Type().Underlying().(*types.Interface)
	c.Need(i != nil, "interface "+path+"."+name)
	return i
}

// ---- driver ----

type known struct{ prop, key, what string }

func knownFindings(root string) []known {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> key=<rule|construct> :: <what fails>
		l = strings.TrimPrefix(l, "finding: ")
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		head, what := l[:i], l[i+4:]
		var k known
		k.what = what
		if j := strings.Index(head, " key="); j > 0 {
			k.prop = strings.TrimPrefix(head[:j], "property=")
			k.key = head[j+5:]
			out = append(out, k)
		}
	}
	return out
}

func runCheck(p *eng.Program, loadErr error, id, root string) int {
	start := time.Now()
	ck := checks[id]
	c := &Ctx{P: p, ID: id, rules: map[string]int{}, failed: map[string]bool{}, funcs: map[string]bool{}, siteOf: map[string]bool{}}
	if ck == nil {
		c.viol = append(c.viol, Violation{Rule: "driver", Construct: id, Detail: "no such check"})
		ck = &Check{ID: id}
	} else if loadErr != nil {
		c.viol = append(c.viol, Violation{Rule: "load", Construct: "module", Detail: loadErr.Error()})
	} else {
		c.U = p.U
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stop); ok {
						return
					}
					if os.Getenv("SC_DEBUG") != "" {
						panic(r)
					}
					c.viol = append(c.viol, Violation{Rule: "internal", Construct: id, Detail: fmt.Sprint("analysis failed: ", r)})
				}
			}()
			ck.Run(c)
		}()
		total := 0
		for _, n := range c.rules {
			total += n
		}
		if total == 0 && len(c.viol) == 0 {
			c.viol = append(c.viol, Violation{Rule: "vacuous", Construct: id, Detail: "no obligation was generated"})
		}
	}

	var real []Violation
	var knownHit []string
	kf := knownFindings(root)
	seen := map[string]bool{}
	for _, v := range c.viol {
		hit := false
		for _, k := range kf {
			if k.prop == id && k.key == v.key() {
				hit = true
				if !seen[k.key] {
					seen[k.key] = true
					knownHit = append(knownHit, k.what)
				}
			}
		}
		if !hit {
			real = append(real, v)
		}
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	total := 0
	for _, n := range c.rules {
		total += n
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	samples := c.sites
	if len(samples) > 40 {
		samples = samples[:40]
	}
	cov := map[string]interface{}{
		"explanation":          ck.Rule,
		"not_covered":          ck.Not,
		"obligations":          total,
		"obligations_per_rule": c.rules,
		"constructs":           len(c.sites),
		"construct_samples":    samples,
		"functions_analysed":   fns,
		"entry_points":         c.runs,
		"abstract_paths":       c.paths,
		"abstract_states":      c.states,
		"instructions_stepped": c.steps,
		"known_findings_hit":   knownHit,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations": len(real),
		"assumptions": []string{
			"code outside the module (standard library, redigo, mgo, gomemcache) behaves as its documentation says",
			"no use of unsafe or of reflection to write unexported fields",
		},
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	werr := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)

	sort.Strings(knownHit)
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	rp := filepath.Join(dir, "replay", id+".txt")
	if len(real) == 0 && werr == nil {
		os.Remove(rp)
		fmt.Printf("OK property=%s obligations=%d constructs=%d functions=%d paths=%d\n", id, total, len(c.sites), len(fns), c.paths)
		return 0
	}
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "%s: rule %s, %s: %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
		for _, l := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range real {
		if i < 20 {
			fmt.Printf("%s: rule %s, %s: %s\n", v.Pos, v.Rule, v.Construct, v.Detail)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}
