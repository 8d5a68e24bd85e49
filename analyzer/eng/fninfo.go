package eng

import (
	"golang.org/x/tools/go/ssa"
)

// fnInfo caches per-function structure: loops, liveness, numbering.
type fnInfo struct {
	fn      *ssa.Function
	header  map[*ssa.BasicBlock]bool    // loop headers
	back    map[[2]*ssa.BasicBlock]bool // back edges
	inLoop  map[*ssa.BasicBlock]bool    // block belongs to a cycle
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	num     map[ssa.Value]int
	lastUse map[*ssa.BasicBlock]map[ssa.Value]int
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn,
		header: map[*ssa.BasicBlock]bool{}, back: map[[2]*ssa.BasicBlock]bool{}, inLoop: map[*ssa.BasicBlock]bool{},
		liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, num: map[ssa.Value]int{},
		lastUse: map[*ssa.BasicBlock]map[ssa.Value]int{}, liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	n := 0
	reg := func(v ssa.Value) { n++; fi.num[v] = n }
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	// back edges by DFS (reducible graphs: target dominates source)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.back[[2]*ssa.BasicBlock{b, s}] = true
				fi.header[s] = true
				// natural loop
				body := map[*ssa.BasicBlock]bool{s: true}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x] {
						continue
					}
					body[x] = true
					st = append(st, x.Preds...)
				}
				for x := range body {
					fi.inLoop[x] = true
				}
			}
		}
	}
	// irreducible fallback: any retreating edge in a DFS order
	color := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			if color[s] == 0 {
				dfs(s)
			} else if color[s] == 1 && !s.Dominates(b) {
				fi.back[[2]*ssa.BasicBlock{b, s}] = true
				fi.header[s] = true
				for x, c := range color {
					if c == 1 {
						fi.inLoop[x] = true
					}
				}
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		lu := map[ssa.Value]int{}
		for i, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op == nil {
						continue
					}
					if !d[*op] {
						u[*op] = true
					}
					lu[*op] = i
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.lastUse[b] = lu
		fi.liveIn[b] = map[ssa.Value]bool{}
		fi.liveOut[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := fi.liveOut[b]
			succs := b.Succs
			for _, s := range succs {
				for v := range fi.liveIn[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 {
						// several edges from the same block share values closely enough
						for k, p := range s.Preds {
							if p == b {
								if e := phi.Edges[k]; !out[e] {
									out[e] = true
									changed = true
								}
							}
						}
					}
				}
			}
			if fn.Recover != nil {
				for v := range fi.liveIn[fn.Recover] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
			}
			in := fi.liveIn[b]
			for v := range use[b] {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
			for v := range out {
				if !def[b][v] && !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	return fi
}

// liveAfter: is v needed after instruction idx of block b?
func (fi *fnInfo) liveAfter(b *ssa.BasicBlock, idx int, v ssa.Value) bool {
	if fi.liveOut[b][v] {
		return true
	}
	if lu, ok := fi.lastUse[b][v]; ok && lu >= idx {
		return true
	}
	return false
}

// Induction describes a loop phi whose value moves by a constant step.
type Induction struct {
	Phi     *ssa.Phi
	Step    int64
	HasStep bool
	Lo, Hi  int64
	HasLo   bool
	HasHi   bool
	Init    []ssa.Value
}

func (fi *fnInfo) induction(phi *ssa.Phi) *Induction {
	b := phi.Block()
	ind := &Induction{Phi: phi}
	first := true
	ok := true
	var inits []ssa.Value
	for i, p := range b.Preds {
		e := phi.Edges[i]
		if fi.back[[2]*ssa.BasicBlock{p, b}] {
			st, k := stepOf(e, phi, 0)
			if !k || (!first && st != ind.Step) {
				ok = false
			}
			ind.Step = st
			first = false
		} else {
			inits = append(inits, e)
		}
	}
	ind.Init = inits
	if !ok || first {
		return nil
	}
	ind.HasStep = true
	allC := true
	for i, e := range inits {
		c, isC := e.(*ssa.Const)
		if !isC || c.Value == nil {
			allC = false
			break
		}
		v := c.Int64()
		if i == 0 || v < ind.Lo {
			ind.Lo = v
		}
		if i == 0 || v > ind.Hi {
			ind.Hi = v
		}
	}
	if allC && len(inits) > 0 {
		ind.HasLo = ind.Step >= 0
		ind.HasHi = ind.Step <= 0
	}
	return ind
}

func stepOf(e ssa.Value, phi *ssa.Phi, d int) (int64, bool) {
	if e == ssa.Value(phi) {
		return 0, true
	}
	if d > 4 {
		return 0, false
	}
	if bo, ok := e.(*ssa.BinOp); ok {
		if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && isInteger(bo.Type()) {
			s, k := stepOf(bo.X, phi, d+1)
			if !k {
				return 0, false
			}
			switch bo.Op.String() {
			case "+":
				return s + c.Int64(), true
			case "-":
				return s - c.Int64(), true
			}
		}
		if c, ok := bo.X.(*ssa.Const); ok && c.Value != nil && isInteger(bo.Type()) && bo.Op.String() == "+" {
			s, k := stepOf(bo.Y, phi, d+1)
			return s + c.Int64(), k
		}
	}
	if p, ok := e.(*ssa.Phi); ok { // continue-merge inside the body
		var st int64
		for i, x := range p.Edges {
			s, k := stepOf(x, phi, d+1)
			if !k || i > 0 && s != st {
				return 0, false
			}
			st = s
		}
		return st, true
	}
	return 0, false
}

// body lists the blocks of the natural loop with this header.
func (fi *fnInfo) body(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	return LoopBody(h)
}

// LoopBody lists the blocks of the natural loop with this header.
func LoopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if body[x] {
			continue
		}
		body[x] = true
		st = append(st, x.Preds...)
	}
	return body
}
