package main

// Exec: one symbolic path, re-executed from the start under a decision prefix.

import (
	"fmt"
	"sort"
	"strings"
)

type Dec struct {
	b bool
	v uint64
}

type WorkItem struct {
	prefix []Dec
	model  map[string]uint64
}

type inputRec struct {
	name string
	kind string // int, bool, byte, u64, float
	t    *Term
}

type obsRec struct {
	label string
	vals  []Value
}

type ViolKind string

type Violation struct {
	Harness string
	Kind    string // assert, panic, hang, alloc, deadlock
	Label   string
	Detail  string
	Tape    []TapeEnt
	Stack   string
	decs    int
}

type TapeEnt struct {
	Name string `json:"name"`
	V    uint64 `json:"v"`
}

type pathEnd struct {
	kind string // done, infeasible, limit, unsupported, violation, stop
	msg  string
}

type targetPanic struct {
	v     Value // *Iface
	msg   string
	stack string
}

type targetExit struct{}

type Exec struct {
	w      *Worker
	p      *Program
	tt     *TT
	sol    *Solver
	ev     *evaluator
	pc     []*Term
	known  map[uint32]bool // facts of the path, stated or implied
	stated map[uint32]bool // those handed to addPC
	pd     pathDom
	prefix []Dec
	decs   []Dec
	model  map[string]uint64

	nInstr  int64
	limit   int64
	depth   int
	stack   []*frame
	globals map[*GlobalInfo]Value
	inits   map[*PkgInfo]bool

	inputs   []inputRec
	obs      []obsRec
	nq       int
	viols    []*Violation
	reach    map[string]bool
	tick     int64
	stdInit  int // >0: running a persistent package initialiser
	allocMax int64
	heapUsed int64
	curFn    *Func
	regStack []Value
	nativeV  map[string]any
	soft     []string
	hook     map[string]*Closure
	pend     []pendAssert
	raw      []*Term
	failed   bool
}

type pendAssert struct {
	c     *Term
	label string
}

func (ex *Exec) replaying() bool { return len(ex.decs) < len(ex.prefix) }

func (ex *Exec) evalTerm(t *Term) uint64 { return ex.ev.eval(t, ex.model) }

// implied reports whether c is syntactically decided by the path condition.
func (ex *Exec) implied(c *Term) (val, ok bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if ex.known[c.id] {
		return true, true
	}
	n := ex.tt.Not(c)
	if !n.isConst() && ex.known[n.id] {
		return false, true
	}
	switch c.op {
	case OpAnd:
		v1, ok1 := ex.implied(c.a)
		v2, ok2 := ex.implied(c.b)
		if ok1 && !v1 || ok2 && !v2 {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OpOr:
		v1, ok1 := ex.implied(c.a)
		v2, ok2 := ex.implied(c.b)
		if ok1 && v1 || ok2 && v2 {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	return false, false
}

func mergeModel(base, upd map[string]uint64) map[string]uint64 {
	n := make(map[string]uint64, len(base)+len(upd))
	for k, v := range base {
		n[k] = v
	}
	for k, v := range upd {
		n[k] = v
	}
	return n
}

// Branch decides a condition, queueing the other side when it is feasible.
func (ex *Exec) Branch(raw *Term) bool {
	c := ex.simp(raw)
	if c.isConst() {
		return c.val == 1
	}
	if v, ok := ex.implied(c); ok {
		return v
	}
	if ex.stdInit > 0 {
		ex.unsupported("symbolic branch in package initialiser")
	}
	if ex.replaying() {
		d := ex.prefix[len(ex.decs)]
		ex.decs = append(ex.decs, d)
		side := c
		if !d.b {
			side, raw = ex.tt.Not(c), ex.tt.Not(raw)
		}
		if d.v == 2 {
			ex.addKnown(side)
		} else {
			ex.addPC(side)
			ex.addRaw(raw)
		}
		return d.b
	}
	b := ex.evalTerm(c) == 1
	side, other := c, ex.tt.Not(c)
	if !b {
		side, other = other, side
		raw = ex.tt.Not(raw)
	}
	res, m := ex.feasible(other)
	switch res {
	case sat:
		nd := make([]Dec, len(ex.decs)+1)
		copy(nd, ex.decs)
		nd[len(ex.decs)] = Dec{b: !b}
		ex.w.push(&WorkItem{prefix: nd, model: mergeModel(ex.model, m)})
	case unknown:
		ex.w.run.incomplete("solver gave no answer within its limit on a branch")
	}
	if res == unsat {
		// the side is implied: no decision needed, but remember it
		ex.decs = append(ex.decs, Dec{b: b, v: 2})
		ex.addKnown(side)
		return b
	}
	ex.decs = append(ex.decs, Dec{b: b})
	ex.addPC(side)
	ex.addRaw(raw)
	ex.checkStop()
	return b
}

// addRaw records a constraint as the program stated it, before substitution
// of fixed variables: assertions are decided against these.
func (ex *Exec) addRaw(c *Term) {
	if !c.isConst() {
		ex.raw = append(ex.raw, c)
	}
}

// addKnown remembers a fact implied by the path condition.
func (ex *Exec) addKnown(c *Term) {
	if c.isConst() || ex.known[c.id] {
		return
	}
	if c.op == OpAnd {
		ex.addKnown(c.a)
		ex.addKnown(c.b)
	}
	ex.known[c.id] = true
}

func (ex *Exec) checkStop() {
	if ex.w.run.stopped() {
		panic(pathEnd{kind: "stop"})
	}
}

// Assume restricts the path to c.
func (ex *Exec) Assume(raw *Term) {
	c := ex.simp(raw)
	if v, ok := ex.implied(c); ok && v {
		return
	}
	ex.flush()
	if v, ok := ex.implied(c); ok {
		if !v {
			panic(pathEnd{kind: "infeasible"})
		}
		return
	}
	if ex.replaying() {
		d := ex.prefix[len(ex.decs)]
		ex.decs = append(ex.decs, d)
		ex.addPC(c)
		ex.addRaw(raw)
		return
	}
	if ex.evalTerm(c) != 1 {
		res, m := ex.feasible(c)
		if res == unsat {
			panic(pathEnd{kind: "infeasible"})
		}
		if res == unknown {
			ex.w.run.incomplete("solver gave no answer on an assumption")
			panic(pathEnd{kind: "infeasible"})
		}
		ex.model = mergeModel(ex.model, m)
		ex.ev.reset()
	}
	ex.decs = append(ex.decs, Dec{b: true})
	ex.addPC(c)
	ex.addRaw(raw)
}

// Assert states that c holds under the path condition for all values. The
// assertions of a path are decided together by flush.
func (ex *Exec) Assert(c *Term, label string) {
	ex.w.run.countAssert(label, c.isTrue())
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		ex.flush()
		ex.violate("assert", label, "", ex.model)
		panic(pathEnd{kind: "violation"})
	}
	ex.pend = append(ex.pend, pendAssert{c, label})
}

// flush decides the pending assertions and continues under them.
func (ex *Exec) flush() {
	var pend []pendAssert
	for _, a := range ex.pend {
		if ex.known[a.c.id] {
			continue
		}
		pend = append(pend, a)
	}
	ex.pend = nil
	if len(pend) == 0 {
		return
	}
	all := tTrue
	for _, a := range pend {
		all = ex.tt.And(all, a.c)
	}
	if ex.replaying() { // decided by the path that queued this prefix
		if d := ex.prefix[len(ex.decs)]; d.v == 3 {
			ex.decs = append(ex.decs, d)
			ex.addPC(ex.simp(all))
			ex.addRaw(all)
			return
		}
		for _, a := range pend {
			ex.addKnown(a.c)
		}
		return
	}
	rest := pend
	bad := false
	for round := 0; round < 6 && len(rest) > 0; round++ {
		var nm map[string]uint64
		for _, a := range rest {
			if ex.evalTerm(a.c) != 1 {
				nm = ex.model
			}
		}
		if nm == nil {
			conj := tTrue
			for _, a := range rest {
				conj = ex.tt.And(conj, a.c)
			}
			res, um := ex.sol.Check(ex.raw, ex.tt.Not(conj))
			if res == unsat {
				break
			}
			if res == unknown {
				for _, a := range rest { // one by one
					res, um := ex.sol.Check(ex.raw, ex.tt.Not(a.c))
					if res == unknown {
						ex.w.run.incomplete("solver gave no answer on assertion " + a.label)
					} else if res == sat {
						ex.violate("assert", a.label, "", mergeModel(ex.model, um))
						bad = true
					}
				}
				break
			}
			nm = mergeModel(ex.model, um)
		}
		bad = true
		ex.w.ev2.reset()
		lab := ""
		for _, a := range rest {
			if lab == "" && ex.w.ev2.eval(a.c, nm) != 1 {
				lab = a.label
			}
		}
		if lab == "" {
			ex.w.run.incomplete("the solver's counterexample does not falsify an assertion")
			break
		}
		ex.violate("assert", lab, "", nm)
		var keep []pendAssert
		for _, a := range rest {
			if a.label != lab {
				keep = append(keep, a)
			}
		}
		rest = keep
	}
	if !bad {
		for _, a := range pend {
			ex.addKnown(a.c)
		}
		return
	}
	ex.failed = true
	if ex.evalTerm(all) != 1 {
		res, m := ex.sol.Check(ex.raw, all)
		if res != sat {
			panic(pathEnd{kind: "violation"})
		}
		ex.model = mergeModel(ex.model, m)
		ex.ev.reset()
	}
	ex.decs = append(ex.decs, Dec{b: true, v: 3})
	ex.addPC(ex.simp(all))
	ex.addRaw(all)
}

// Concretize forks over the feasible values of t and returns this path's value.
func (ex *Exec) Concretize(raw *Term) uint64 {
	for {
		t := ex.simp(raw)
		if t.isConst() {
			return t.val
		}
		if ex.stdInit > 0 {
			ex.unsupported("symbolic value in package initialiser")
		}
		if ex.replaying() {
			d := ex.prefix[len(ex.decs)]
			ex.decs = append(ex.decs, d)
			eq := ex.tt.Eq(t, K(t.w, d.v))
			if d.b {
				ex.addPC(eq)
				ex.addRaw(ex.tt.Eq(raw, K(t.w, d.v)))
				return d.v
			}
			ex.addPC(ex.tt.Not(eq))
			ex.addRaw(ex.tt.Not(ex.tt.Eq(raw, K(t.w, d.v))))
			continue
		}
		v := ex.evalTerm(t)
		eq := ex.tt.Eq(t, K(t.w, v))
		if iv, ok := ex.implied(eq); ok && iv {
			ex.decs = append(ex.decs, Dec{b: true, v: v})
			return v
		}
		ne := ex.tt.Not(eq)
		res, m := ex.feasible(ne)
		if res == sat {
			nd := make([]Dec, len(ex.decs)+1)
			copy(nd, ex.decs)
			nd[len(ex.decs)] = Dec{b: false, v: v}
			ex.w.push(&WorkItem{prefix: nd, model: mergeModel(ex.model, m)})
		} else if res == unknown {
			ex.w.run.incomplete("solver gave no answer on a value split")
		}
		ex.decs = append(ex.decs, Dec{b: true, v: v})
		ex.addPC(eq)
		ex.addRaw(ex.tt.Eq(raw, K(t.w, v)))
		ex.checkStop()
		return v
	}
}

func (ex *Exec) concInt(t *Term) int {
	return int(sext64(ex.Concretize(t), t.w))
}

func (ex *Exec) concStr(s *Str) string {
	if c, ok := s.concrete(); ok {
		return c
	}
	buf := make([]byte, s.n)
	for i := range buf {
		buf[i] = byte(ex.Concretize(s.at(i)))
	}
	return string(buf)
}

func (ex *Exec) tape(m map[string]uint64) []TapeEnt {
	var out []TapeEnt
	e := ex.w.ev2
	e.reset()
	for _, in := range ex.inputs {
		out = append(out, TapeEnt{in.name, e.eval(in.t, m)})
	}
	return out
}

func (ex *Exec) violate(kind, label, detail string, m map[string]uint64) {
	v := &Violation{Harness: ex.w.run.name, Kind: kind, Label: label, Detail: detail, Tape: ex.tape(m), Stack: ex.backtrace(), decs: len(ex.decs)}
	ex.viols = append(ex.viols, v)
	ex.w.run.violation(v)
}

func (ex *Exec) backtrace() string {
	var sb strings.Builder
	n := 0
	for i := len(ex.stack) - 1; i >= 0 && n < 14; i-- {
		sb.WriteString(ex.stack[i].fn.name)
		if i > 0 {
			sb.WriteString(" <- ")
		}
		n++
	}
	return sb.String()
}

func (ex *Exec) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(pathEnd{kind: "unsupported", msg: msg + " @ " + ex.backtrace()})
}

// tpanic raises a Go run-time panic in the target.
func (ex *Exec) tpanic(f string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	panic(&targetPanic{v: &Iface{t: ex.p.tRTErr, v: mkStr(msg)}, msg: msg, stack: ex.backtrace()})
}

func (ex *Exec) newInput(name, kind string, w uint8, lo, hi uint64) *Term {
	full := fmt.Sprintf("%d:%s", len(ex.inputs), name)
	t := ex.tt.Var(full, w, lo, hi)
	if lo == hi {
		t = K(w, lo)
	}
	ex.inputs = append(ex.inputs, inputRec{full, kind, t})
	if _, ok := ex.model[t.name]; !ok && t.op == OpVar {
		ex.model[t.name] = lo // model maps are private to the path
	}
	return t
}

func (ex *Exec) note(s string) {
	for _, x := range ex.soft {
		if x == s {
			return
		}
	}
	ex.soft = append(ex.soft, s)
	sort.Strings(ex.soft)
}
