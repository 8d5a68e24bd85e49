package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func findFn(p *eng.Program, name string) *ssa.Function {
	for _, f := range p.Funcs {
		if strings.TrimPrefix(f.RelString(nil), p.Mod) == name || f.RelString(nil) == name {
			return f
		}
	}
	for _, f := range p.Funcs {
		if strings.HasSuffix(f.RelString(nil), name) {
			return f
		}
	}
	return nil
}

func dump(p *eng.Program, name string, exact bool) {
	f := findFn(p, name)
	if f == nil {
		fmt.Println("no function", name)
		for _, f := range p.Funcs {
			fmt.Println(f.RelString(nil))
		}
		return
	}
	o := &eng.Options{Prog: p, Exact: exact, Event: func(st *eng.State, e *eng.Event) bool {
		return e.Kind != "load" && e.Kind != "enter" && e.Kind != "make" && e.Kind != "append"
	}}
	if exact && os.Getenv("CLOSURE") != "" {
		r := eng.Run(f, &eng.Options{Prog: p, Exact: true})
		for i, x := range r.Exits {
			if strconv.Itoa(i) == os.Getenv("CLOSURE") {
				t := eng.Strip(x.Results[0])
				for t.Op == eng.OIface || t.Op == eng.OConv {
					t = t.Args[0]
				}
				f = t.Obj.(*ssa.Function)
				o.Closure, o.From = t, x.St
			}
		}
	}
	if os.Getenv("CUT") != "" {
		o.CutAt = cutAll
		n := 0
		o.Entry = func(st *eng.State, h *ssa.BasicBlock, vals map[*ssa.Phi]*eng.Term, back bool) {
			fmt.Printf("=== round %d of loop %d of %s, again %v\n", n, h.Index, h.Parent().Name(), back)
			n++
			for p, v := range vals {
				fmt.Println("   phi ", p.Comment, v)
			}
			for _, l := range st.Facts() {
				fmt.Println("   fact", l)
			}
			for _, e := range st.Trace {
				fmt.Println("   ev  ", e)
			}
		}
	}
	res := eng.Run(f, o)
	fmt.Println(f.RelString(nil), "exits", len(res.Exits), "steps", res.Steps, "states", res.States, "trunc", res.Truncated)
	for i, x := range res.Exits {
		fmt.Printf("--- exit %d %s %v\n", i, x.Kind, x.Results)
		for _, l := range x.St.Facts() {
			fmt.Println("   fact", l)
		}
		for _, e := range x.St.Trace {
			fmt.Println("   ev  ", e)
		}
	}
}

func main() {
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: stripcheck <property>... | all | dump <function>")
		os.Exit(1)
	}
	p, err := eng.Load(repo)
	switch os.Args[1] {
	case "dump":
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(p, os.Args[2], len(os.Args) > 3)
	case "list":
		for _, id := range ids() {
			fmt.Println(id)
		}
	case "all":
		rc := 0
		for _, id := range ids() {
			if p != nil {
				p, err = eng.Load(repo)
			}
			if runCheck(p, err, id, root) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	default:
		rc := 0
		for _, id := range os.Args[1:] {
			if runCheck(p, err, id, root) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
}

func ids() []string {
	var out []string
	for id := range checks {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}
