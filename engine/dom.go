package main

// Path-local propagation: variables fixed by the path condition are
// substituted, and conditions over one variable with at most 256 values are
// decided by its domain. Everything else goes to the SMT solver.

import "math/bits"

type domSet [4]uint64

func (d *domSet) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *domSet) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d *domSet) first() int {
	for i, x := range d {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

type pathDom struct {
	fixed map[uint32]*Term
	memo  map[uint32]*Term
	dom   map[uint32]*domSet
	cons  map[uint32][]*Term // the conditions behind dom
}

func smallVar(v *Term) bool { return v.hi-v.lo <= 255 }

func (w *Worker) truth(c *Term, v *Term) *domSet {
	if d, ok := w.truths[c.id]; ok {
		return d
	}
	d := &domSet{}
	n := int(v.hi - v.lo)
	m := map[string]uint64{}
	for i := 0; i <= n; i++ {
		m[v.name] = v.lo + uint64(i)
		w.ev3.reset()
		if w.ev3.eval(c, m) == 1 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	w.truths[c.id] = d
	return d
}

func (ex *Exec) domOf(v *Term) *domSet {
	d := ex.pd.dom[v.id]
	if d == nil {
		d = &domSet{}
		for i := 0; i <= int(v.hi-v.lo); i++ {
			d[i>>6] |= 1 << (i & 63)
		}
		ex.pd.dom[v.id] = d
	}
	return d
}

// unary returns the only variable of c when its domain is small.
func (ex *Exec) unary(c *Term) *Term {
	vs := ex.tt.varSet(c)
	if len(vs) != 1 {
		return nil
	}
	v := ex.tt.terms[vs[0]]
	if !smallVar(v) {
		return nil
	}
	return v
}

// simp substitutes fixed variables.
func (ex *Exec) simp(t *Term) *Term {
	if len(ex.pd.fixed) == 0 || t.op == OpConst {
		return t
	}
	hit := false
	for _, v := range ex.tt.varSet(t) {
		if ex.pd.fixed[v] != nil {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if t.op == OpVar {
		return ex.pd.fixed[t.id]
	}
	if r := ex.pd.memo[t.id]; r != nil {
		return r
	}
	tt := ex.tt
	var a, b, c *Term
	a = ex.simp(t.a)
	var r *Term
	if t.op == OpIte && a.isConst() {
		if a.val == 1 {
			r = ex.simp(t.b)
		} else {
			r = ex.simp(t.c)
		}
		ex.pd.memo[t.id] = r
		return r
	}
	if t.op == OpAnd && a.isFalse() {
		ex.pd.memo[t.id] = tFalse
		return tFalse
	}
	if t.op == OpOr && a.isTrue() {
		ex.pd.memo[t.id] = tTrue
		return tTrue
	}
	if t.b != nil {
		b = ex.simp(t.b)
	}
	if t.c != nil {
		c = ex.simp(t.c)
	}
	r = tt.rebuild(t, a, b, c)
	ex.pd.memo[t.id] = r
	return r
}

func (tt *TT) rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case OpNot:
		return tt.Not(a)
	case OpAnd:
		return tt.And(a, b)
	case OpOr:
		return tt.Or(a, b)
	case OpEq:
		return tt.Eq(a, b)
	case OpIte:
		return tt.Ite(a, b, c)
	case OpAdd:
		return tt.Add(a, b)
	case OpMul:
		return tt.Mul(a, b)
	case OpUDiv, OpSDiv, OpURem, OpSRem:
		return tt.Div(t.op, a, b)
	case OpULt:
		return tt.ULt(a, b)
	case OpULe:
		return tt.ULe(a, b)
	case OpSLt:
		return tt.SLt(a, b)
	case OpSLe:
		return tt.SLe(a, b)
	case OpZExt:
		return tt.ZExt(a, t.w)
	case OpSExt:
		return tt.SExt(a, t.w)
	case OpExtract:
		return tt.Extract(a, uint8(t.val>>8), uint8(t.val))
	case OpBNot:
		return tt.BNot(a)
	case OpSToF:
		return tt.SToF(a)
	case OpUToF:
		return tt.UToF(a)
	case OpFToS:
		return tt.FToI(a, t.w, true)
	case OpFToU:
		return tt.FToI(a, t.w, false)
	case OpF64To32:
		return tt.F64To32(a)
	case OpF32To64:
		return tt.F32To64(a)
	case OpConcat:
		if a.isConst() && b.isConst() {
			return K(t.w, a.val<<b.w|b.val)
		}
		return tt.mk(OpConcat, t.w, 0, a, b, nil)
	}
	return tt.Bin(t.op, a, b)
}

// addPC adds a constraint to the path condition.
func (ex *Exec) addPC(c *Term) {
	c = ex.simp(c)
	if c.isConst() {
		if c.isFalse() {
			panic(pathEnd{kind: "infeasible"})
		}
		return
	}
	if c.op == OpAnd {
		ex.addPC(c.a)
		ex.addPC(c.b)
		return
	}
	// a fact that only follows from others has to be stated when one of them is restated
	if ex.stated[c.id] {
		return
	}
	ex.stated[c.id] = true
	ex.known[c.id] = true
	if v := ex.unary(c); v != nil {
		d := ex.domOf(v)
		tr := ex.w.truth(c, v)
		nd := &domSet{d[0] & tr[0], d[1] & tr[1], d[2] & tr[2], d[3] & tr[3]}
		ex.pd.dom[v.id] = nd
		if ex.pd.cons == nil {
			ex.pd.cons = map[uint32][]*Term{}
		}
		ex.pd.cons[v.id] = append(ex.pd.cons[v.id], c)
		switch nd.count() {
		case 0:
			panic(pathEnd{kind: "infeasible"})
		case 1:
			ex.fix(v, v.lo+uint64(nd.first()))
			return
		}
	} else if c.op == OpEq && c.a.op == OpVar && c.b.isConst() {
		ex.fix(c.a, c.b.val)
		return
	}
	ex.pc = append(ex.pc, c)
}

func (ex *Exec) fix(v *Term, val uint64) {
	ex.pd.fixed[v.id] = K(v.w, val)
	ex.pd.memo = map[uint32]*Term{}
	var redo []*Term
	k := 0
	for _, c := range ex.pc {
		hit := false
		for _, x := range ex.tt.varSet(c) {
			if x == v.id {
				hit = true
				break
			}
		}
		if hit {
			redo = append(redo, c)
		} else {
			ex.pc[k] = c
			k++
		}
	}
	ex.pc = ex.pc[:k]
	for _, c := range redo {
		ex.addPC(c)
	}
}

func (ex *Exec) inMulti(v *Term) bool {
	for _, c := range ex.pc {
		vs := ex.tt.varSet(c)
		if len(vs) < 2 {
			continue
		}
		for _, x := range vs {
			if x == v.id {
				return true
			}
		}
	}
	return false
}

// feasible decides pc ∧ c (c already simplified).
func (ex *Exec) feasible(c *Term) (satRes, map[string]uint64) {
	if c.isConst() {
		if c.val == 1 {
			return sat, nil
		}
		return unsat, nil
	}
	if v := ex.unary(c); v != nil {
		d := ex.domOf(v)
		tr := ex.w.truth(c, v)
		nd := domSet{d[0] & tr[0], d[1] & tr[1], d[2] & tr[2], d[3] & tr[3]}
		if nd.empty() {
			ex.w.stats.Domain++
			return ex.confirm(v, c), nil
		}
		if !ex.inMulti(v) {
			ex.w.stats.Domain++
			return sat, map[string]uint64{v.name: v.lo + uint64(nd.first())}
		}
	}
	return ex.sol.Check(ex.pc, c)
}

// domConfirm is the number of refutations by domain a worker has the solver
// confirm for each harness; behind it every 16th is.
const domConfirm = 1500

// confirm has the solver repeat a refutation found by domain propagation.
func (ex *Exec) confirm(v, c *Term) satRes {
	w := ex.w
	w.nConfirm++
	if w.nConfirm > domConfirm && w.nConfirm%16 != 0 {
		return unsat
	}
	res, _ := ex.sol.Check(ex.pd.cons[v.id], c)
	switch res {
	case unsat:
		w.stats.DomOK++
	case sat:
		w.stats.DomBad++
		ex.w.run.incomplete("the solver contradicts a refutation by domain propagation")
	}
	return res
}
