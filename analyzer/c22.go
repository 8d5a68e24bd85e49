package main

import (
	"go/types"
	"strings"

	"stripcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22",
		"Typestate analysis of the worker over every path of its methods and of the goroutines it starts: slots taken and given back, the count of running tasks, the lock held at each access of the shared state, the recording of the error before the task counts as done, and the order of these.",
		"tasks that never end; panics in tasks; a worker made for no tasks at all; the fairness of the scheduler",
		c22)
}

type wkModel struct {
	c                      *Ctx
	t                      *types.Named
	err, done, slots, lock *types.Var
	wg                     *types.Var
	rw                     bool
}

func (c *Ctx) worker() *wkModel {
	w := &wkModel{c: c, t: c.Type("utils", "Worker")}
	s := structOf(w.t)
	c.Need(s != nil, "fields of the worker")
	set := func(p **types.Var, f *types.Var, what string) {
		c.Need(*p == nil, "only one "+what+" of the worker")
		*p = f
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Type().String() == "sync.RWMutex" || f.Type().String() == "sync.Mutex":
			set(&w.lock, f, "lock")
			w.rw = f.Type().String() == "sync.RWMutex"
		case f.Type().String() == "sync.WaitGroup":
			set(&w.wg, f, "count of running tasks")
		case types.Identical(f.Type(), errorType):
			set(&w.err, f, "error")
		case types.Identical(f.Type(), types.Typ[types.Bool]):
			set(&w.done, f, "flag")
		default:
			if _, ok := f.Type().Underlying().(*types.Chan); ok {
				set(&w.slots, f, "slots")
			}
		}
	}
	c.Need(w.err != nil && w.done != nil && w.slots != nil && w.lock != nil && w.wg != nil, "error, flag, slots, lock and count of the worker")
	return w
}

// lockOp: +2 locks for writing, +1 for reading, -1 and -2 give it back.
func (w *wkModel) lockOp(e *eng.Event) int {
	if e.Kind != "call" || e.Recv == nil || fieldOf(e.Recv) != w.lock {
		return 0
	}
	switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
	case "Lock":
		return 2
	case "Unlock":
		return -2
	case "RLock":
		return 1
	case "RUnlock":
		return -1
	}
	return 0
}

func (w *wkModel) wgOp(e *eng.Event) string {
	if e.Kind != "call" || e.Recv == nil || fieldOf(e.Recv) != w.wg {
		return ""
	}
	return e.Name[strings.LastIndex(e.Name, ".")+1:]
}

func (w *wkModel) opts() *eng.Options {
	return &eng.Options{Exact: true, CutAt: cutAll, Event: func(st *eng.State, e *eng.Event) bool {
		switch e.Kind {
		case "load", "store":
			f := fieldOf(e.Addr)
			return f != nil && (f == w.err || f == w.done || f == w.slots)
		case "call", "go", "send", "recv", "close", "default":
			return true
		}
		return false
	}}
}

// steps walks over a path and checks the lock around each access of the shared
// state; f sees each event with the lock held then (0 none, 1 reading, 2 writing)
// and the number of the critical section.
func (w *wkModel) steps(st *eng.State, con string, x *eng.Exit, f func(i int, e *eng.Event, held, section int)) {
	c := w.c
	held, section := 0, 0
	for i, e := range st.Trace {
		if op := w.lockOp(e); op != 0 {
			if op > 0 {
				c.On(st, held == 0, "lock", con, e.Pos, "the lock is taken while it is held")
				held = op
				section++
			} else {
				c.On(st, held == -op, "lock", con, e.Pos, "the lock is given back as it was not taken")
				held = 0
			}
		}
		switch e.Kind {
		case "load":
			if fv := fieldOf(e.Addr); fv == w.err || fv == w.done {
				c.On(st, held > 0 || st.IsLocal(eng.Root(e.Addr)), "lock", con, e.Pos, "the shared state is read without the lock: %s", fv.Name())
			}
		case "store":
			fv := fieldOf(e.Addr)
			c.On(st, held == 2 || st.IsLocal(eng.Root(e.Addr)), "lock", con, e.Pos, "the shared state is written without the lock: %s", fv.Name())
			if fv == w.done && !st.IsLocal(eng.Root(e.Addr)) {
				c.On(st, e.Val.IsTrue(), "closing", con, e.Pos, "a closed worker is opened again")
			}
		}
		f(i, e, held, section)
	}
	c.On(st, held == 0, "lock", con, x.Pos, "the lock is still held at the end")
}

func (w *wkModel) closedFact(st *eng.State) int {
	return hasFact(st, func(t *eng.Term) bool {
		return fieldOf(t) == w.done && t.Op == eng.OLoad || t.Op == eng.OOpaque && len(t.Args) == 1 && fieldOf(t.Args[0]) == w.done
	})
}

// closes checks the closing on a path: once, only when it was open, with the
// flag set in the same critical section.
func (w *wkModel) closes(st *eng.State, con string, x *eng.Exit) (closed bool) {
	c := w.c
	seen, flag, chs := -1, -1, -1
	w.steps(st, con, x, func(i int, e *eng.Event, held, section int) {
		switch {
		case e.Kind == "load" && fieldOf(e.Addr) == w.done && seen < 0:
			seen = section
		case e.Kind == "store" && fieldOf(e.Addr) == w.done:
			flag = section
		case e.Kind == "close":
			c.On(st, chs < 0, "closing", con, e.Pos, "the slots are closed twice")
			chs = section
			c.On(st, held == 2 && seen == section && w.closedFact(st) == 0, "closing", con, e.Pos, "the slots are closed without knowing under the lock that they are open")
			closed = true
		}
	})
	c.On(st, chs < 0 || chs == flag, "closing", con, x.Pos, "the slots are closed without marking the worker closed")
	return closed || flag >= 0
}

func (w *wkModel) isSlots(t *eng.Term) bool { return fieldOf(bare(t)) == w.slots }

func c22(c *Ctx) {
	w := c.worker()
	u := c.U
	// starting a task
	start := c.Meth(w.t, "RunTask")
	con := eng.FuncName(start)
	bodies := map[*ssa.Function]*eng.Event{}
	heldAtSlot := false
	r := c.Run(start, w.opts())
	started := 0
	for _, x := range r.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		var gos, adds, sends []int
		var addSec, sendSec, readSec = -1, -1, -1
		w.steps(st, con, x, func(i int, e *eng.Event, held, section int) {
			switch {
			case e.Kind == "go":
				gos = append(gos, i)
			case w.wgOp(e) == "Add":
				adds = append(adds, i)
				n, ok := e.Args[0].IntVal()
				c.On(st, ok && n == 1, "count", con, e.Pos, "a task does not count as one")
				if held > 0 {
					addSec = section
				}
			case w.wgOp(e) != "":
				c.On(st, false, "count", con, e.Pos, "starting a task does something else with the count of tasks")
			case e.Kind == "send" && w.isSlots(e.Recv):
				sends = append(sends, i)
				if held > 0 {
					sendSec = section
					heldAtSlot = true
				}
			case e.Kind == "recv" && w.isSlots(e.Recv):
				c.On(st, false, "slot", con, e.Pos, "a slot is given back before the task ran")
			case e.Kind == "load" && fieldOf(e.Addr) == w.done:
				if held > 0 {
					readSec = section
				}
			case e.Kind == "call" && e.Callee == nil:
				c.On(st, false, "started", con, e.Pos, "the task is run by the caller")
			}
		})
		closed := w.closedFact(st)
		if len(gos) == 0 {
			c.On(st, closed == 1, "started", con, x.Pos, "a task is dropped although the worker was not closed")
			c.On(st, len(adds) == 0, "count", con, x.Pos, "a task that is not started is counted")
			c.On(st, len(sends) == 0, "slot", con, x.Pos, "a task that is not started takes a slot")
			continue
		}
		started++
		c.On(st, closed == 0 && readSec > 0, "started", con, x.Pos, "a task is started without knowing that the worker is not closed")
		c.On(st, len(gos) == 1, "started", con, x.Pos, "a task is started %d times", len(gos))
		c.On(st, len(adds) == 1 && adds[0] < gos[0], "count", con, x.Pos, "a task is not counted once before it starts")
		c.On(st, len(sends) == 1 && sends[0] < gos[0], "slot", con, x.Pos, "a task does not take one slot before it starts")
		c.On(st, sendSec == readSec, "closing", con, x.Pos, "a slot may be taken after the slots were closed")
		c.On(st, addSec == readSec, "count", con, x.Pos, "a task may start after everything else was waited for without being counted")
		g := st.Trace[gos[0]]
		if f, ok := g.Fn.Obj.(*ssa.Function); ok && (g.Fn.Op == eng.OFunc || g.Fn.Op == eng.OClosure) && c.P.HasBody(f) {
			bodies[f] = g
			task := st.Params()[1]
			has := g.Recv == task
			for _, a := range append(append([]*eng.Term{}, g.Args...), g.Fn.Args...) {
				has = has || a == task || a.Op == eng.OAlloc && st.Load(a) == task || eng.Any(a, func(t *eng.Term) bool { return t == task })
			}
			c.On(st, has, "started", con, g.Pos, "the goroutine does not get the task")
		} else {
			c.On(st, false, "started", con, g.Pos, "what runs the task is not known")
		}
	}
	c.Check(started > 0, "started", con, start.Pos(), "no task is ever started")

	// running a task
	kinds := map[bool]int{}
	for _, f := range c.bodiesOf(bodies) {
		con := eng.FuncName(f)
		r := c.Run(f, w.opts())
		for _, x := range r.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			var calls []*eng.Event
			ranAt, slotAt, doneAt, errAt, lockAt := -1, -1, -1, -1, -1
			var rec *eng.Term
			readSec, errSec := -1, -1
			var prev *eng.Term
			w.steps(st, con, x, func(i int, e *eng.Event, held, section int) {
				switch {
				case w.lockOp(e) > 0 && lockAt < 0:
					lockAt = i
				case e.Kind == "recv" && w.isSlots(e.Recv):
					c.On(st, slotAt < 0, "slot", con, e.Pos, "the slot is given back twice")
					slotAt = i
				case e.Kind == "send" && w.isSlots(e.Recv):
					c.On(st, false, "slot", con, e.Pos, "another slot is taken")
				case w.wgOp(e) == "Done":
					c.On(st, doneAt < 0, "count", con, e.Pos, "the task is counted as done twice")
					doneAt = i
				case w.wgOp(e) != "":
					c.On(st, false, "count", con, e.Pos, "the count of running tasks is changed otherwise")
				case e.Kind == "load" && fieldOf(e.Addr) == w.err && errAt < 0:
					readSec, prev = section, e.Val
				case e.Kind == "store" && fieldOf(e.Addr) == w.err:
					errAt, rec, errSec = i, e.Val, section
				case e.Kind == "call" && e.Callee == nil && e.Fn != nil && isTask(e.Fn):
					calls = append(calls, e)
					ranAt = i
				case e.Kind == "go":
					c.On(st, false, "ran", con, e.Pos, "the task is handed to yet another goroutine")
				}
			})
			plain := hasFact(st, func(t *eng.Term) bool { return t.Op == eng.OIs && taskSig(eng.IsType(t)) == 0 })
			failing := hasFact(st, func(t *eng.Term) bool { return t.Op == eng.OIs && taskSig(eng.IsType(t)) == 1 })
			switch {
			case plain == 1 || failing == 1:
				kinds[failing == 1] = 1
				c.On(st, len(calls) == 1, "ran", con, x.Pos, "a task is run %d times", len(calls))
			default:
				c.On(st, len(calls) == 0 && plain == 0 && failing == 0, "ran", con, x.Pos, "a task is not recognised")
			}
			c.On(st, slotAt >= 0 && slotAt > ranAt, "slot", con, x.Pos, "the slot of a task is not given back after it ran")
			c.On(st, doneAt >= 0 && doneAt > ranAt, "count", con, x.Pos, "a task is not counted as done after it ran")
			c.On(st, !heldAtSlot || lockAt < 0 || lockAt > slotAt, "slot", con, x.Pos, "the lock is waited for while holding a slot, which may be waited for holding the lock")
			c.On(st, errAt < doneAt, "error", con, x.Pos, "the error is recorded after the task counted as done")
			closing := w.closes(st, con, x)
			var err *eng.Term
			if len(calls) == 1 {
				err = errOf(st, calls[0])
			}
			switch {
			case err == nil || st.IsNil(err) == 1:
				c.On(st, rec == nil && !closing, "error", con, x.Pos, "a task that did not fail closes the worker")
			case st.IsNil(err) == 0:
				if prev != nil && st.IsNil(prev) == 0 {
					c.On(st, rec == nil, "error", con, x.Pos, "the first error is replaced")
					break
				}
				c.On(st, closing || w.closedFact(st) == 1, "error", con, x.Pos, "the worker is not closed after a task failed")
				c.On(st, prev != nil && st.IsNil(prev) == 1 && rec == err && errSec == readSec, "error", con, x.Pos, "the error of a task is not recorded as the first one: %v", rec)
			default:
				c.On(st, false, "error", con, x.Pos, "it is not looked at whether a task failed")
			}
		}
	}
	c.Check(len(bodies) > 0 && len(kinds) == 2, "ran", "tasks with and without an error", start.Pos(), "tasks of one kind are never run")

	// waiting
	wait := c.Meth(w.t, "Wait")
	con = eng.FuncName(wait)
	for _, x := range c.Run(wait, w.opts()).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		waited, read, sec, cleared := -1, -1, -1, false
		var val *eng.Term
		w.steps(st, con, x, func(i int, e *eng.Event, held, section int) {
			switch {
			case w.wgOp(e) == "Wait":
				c.On(st, held == 0, "wait", con, e.Pos, "tasks are waited for with the lock held, which they may need")
				if waited < 0 {
					waited = i
				}
			case w.wgOp(e) != "":
				c.On(st, false, "count", con, e.Pos, "waiting changes the count of tasks")
			case e.Kind == "load" && fieldOf(e.Addr) == w.err:
				read, sec, val = i, section, e.Val
			case e.Kind == "store" && fieldOf(e.Addr) == w.err:
				c.On(st, e.Val.IsNil() && section == sec && read >= 0, "wait", con, e.Pos, "an error is lost or made up")
				cleared = true
			}
		})
		c.On(st, waited >= 0 && read > waited, "wait", con, x.Pos, "the error is looked at before every task ended")
		c.On(st, val != nil && (x.Results[0] == val || st.IsNil(val) == 1 && st.IsNil(x.Results[0]) == 1), "wait", con, x.Pos, "what is reported is not the error of the tasks: %v", x.Results[0])
		c.On(st, cleared || val != nil && st.IsNil(val) == 1, "wait", con, x.Pos, "the error is reported again by the next wait")
	}
	// closing
	cl := c.Meth(w.t, "Close")
	con = eng.FuncName(cl)
	for _, x := range c.Run(cl, w.opts()).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		did := w.closes(st, con, x)
		c.On(st, did || w.closedFact(st) == 1, "closing", con, x.Pos, "the worker is not closed")
		for _, e := range st.Trace {
			c.On(st, e.Kind != "recv" && w.wgOp(e) == "" && !(e.Kind == "store" && fieldOf(e.Addr) == w.err), "closing", con, e.Pos, "closing does something else: %s", e.String())
		}
	}
	// making
	mk := c.Fn("utils", "NewWorker")
	con = eng.FuncName(mk)
	for _, x := range c.Run(mk, &eng.Options{Exact: true, Event: func(st *eng.State, e *eng.Event) bool { return e.Kind == "make" || e.Kind == "go" }}).Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		ch := bare(st.Load(u.FAddr(x.Results[0], w.slots)))
		ok := false
		for _, e := range st.Trace {
			if e.Kind == "make" && e.Res == ch && len(e.Args) == 1 {
				ok = bare(e.Args[0]) == st.Params()[0]
			}
		}
		c.On(st, ok, "limit", con, x.Pos, "the number of slots is not the number asked for: %v", ch)
		d := st.Load(u.FAddr(x.Results[0], w.done))
		c.On(st, d.IsFalse() || d.Op == eng.OZero, "limit", con, x.Pos, "a new worker is closed")
	}
	// nobody else
	for _, f := range c.FuncsOf("utils") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := structOf(fa.X.Type())
				if s == nil || s.Field(fa.Field) != w.slots {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == fa {
						c.Check(outer(f) == mk, "limit", eng.FuncName(f), st.Pos(), "the slots are replaced")
					}
				}
			}
		}
	}
	for rule, n := range map[string]int{"started": 4, "slot": 8, "count": 8, "ran": 4, "error": 8, "lock": 12, "wait": 3, "closing": 4, "limit": 2} {
		c.Min(rule, n)
	}
}

func (c *Ctx) bodiesOf(m map[*ssa.Function]*eng.Event) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if m[f] != nil {
			out = append(out, f)
		}
	}
	return out
}

// taskSig: 0 for func(), 1 for func() error, -1 for anything else.
func taskSig(t types.Type) int {
	if t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 0 {
		return -1
	}
	switch s.Results().Len() {
	case 0:
		return 0
	case 1:
		if types.Identical(s.Results().At(0).Type(), errorType) {
			return 1
		}
	}
	return -1
}

func isTask(t *eng.Term) bool {
	return t.Typ != nil && taskSig(t.Typ) >= 0 && t.Op != eng.OClosure && t.Op != eng.OFunc
}
