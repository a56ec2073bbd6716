package main

// Terms: hash-consed bit-vector / boolean expressions with on-the-fly
// simplification. Width 0 is Bool, 1..64 are bit-vectors. Floats are carried
// as their IEEE bit patterns (BV64/BV32).

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpExtract // val = hi<<8 | lo
	OpConcat
	OpFAdd // binary64 arithmetic on bit patterns
	OpFSub
	OpFMul
	OpFDiv
	OpSToF
	OpUToF
	OpFToS
	OpFToU
	OpF64To32
	OpF32To64
)

type Term struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Term
	id      uint32 // 0: constant that has not been interned
	name    string
	lo, hi  uint64 // unsigned range (bit-vectors)
	vars    []uint32
	varsOK  bool
	smt     uint8 // solver processes that know its definition
	fp      bool  // contains floating-point arithmetic
	size    uint32
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.val == 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

var smallConst [65][]*Term
var tTrue, tFalse *Term

func init() {
	for w := 0; w <= 64; w++ {
		n := 1024
		if w < 10 {
			n = 1 << uint(w)
		}
		if w == 0 {
			n = 2
		}
		smallConst[w] = make([]*Term, n)
		for i := range smallConst[w] {
			smallConst[w][i] = &Term{op: OpConst, w: uint8(w), val: uint64(i), lo: uint64(i), hi: uint64(i), varsOK: true, size: 1}
		}
	}
	tFalse, tTrue = smallConst[0][0], smallConst[0][1]
}

func K(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if v < uint64(len(smallConst[w])) {
		return smallConst[w][v]
	}
	return &Term{op: OpConst, w: w, val: v, lo: v, hi: v, varsOK: true, size: 1}
}

func KB(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

type termKey struct {
	op      Op
	w       uint8
	ca, cb  bool
	cc      bool
	val     uint64
	a, b, c uint64
}

// TT is a worker's term table.
type TT struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	terms  []*Term // by id (index id)
	nextID uint32
}

func newTT() *TT {
	return &TT{tab: map[termKey]*Term{}, vars: map[string]*Term{}, nextID: 1, terms: []*Term{nil}}
}

func kid(t *Term) (uint64, bool) {
	if t == nil {
		return 0, false
	}
	if t.op == OpConst {
		return t.val, true
	}
	return uint64(t.id), false
}

func (tt *TT) mk(op Op, w uint8, val uint64, a, b, c *Term) *Term {
	var k termKey
	k.op, k.w, k.val = op, w, val
	k.a, k.ca = kid(a)
	k.b, k.cb = kid(b)
	k.c, k.cc = kid(c)
	if op == OpEq || op == OpULt || op == OpULe || op == OpSLt || op == OpSLe || op == OpExtract || op == OpZExt || op == OpSExt || op == OpConcat {
		k.val |= uint64(a.w) << 32 // operand width is part of the identity
		if b != nil {
			k.val |= uint64(b.w) << 40
		}
	}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: c, id: tt.nextID}
	tt.nextID++
	sz := uint32(1)
	for _, x := range [3]*Term{a, b, c} {
		if x != nil {
			sz += x.size
			t.fp = t.fp || x.fp
			if sz > 1<<30 {
				sz = 1 << 30
			}
		}
	}
	t.size = sz
	t.fp = t.fp || fpTerm(t)
	t.lo, t.hi = 0, mask(w)
	tt.setRange(t)
	tt.tab[k] = t
	tt.terms = append(tt.terms, t)
	return t
}

func (tt *TT) Var(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s!%d!%d!%d", name, w, lo, hi)
	if t, ok := tt.vars[key]; ok {
		return t
	}
	t := &Term{op: OpVar, w: w, id: tt.nextID, name: key, lo: lo, hi: hi, size: 1}
	if w == 0 {
		t.lo, t.hi = 0, 1
	}
	t.vars = []uint32{t.id}
	t.varsOK = true
	tt.nextID++
	tt.vars[key] = t
	tt.terms = append(tt.terms, t)
	return t
}

func (tt *TT) varSet(t *Term) []uint32 {
	if t.varsOK {
		return t.vars
	}
	var out []uint32
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x == nil || x.op == OpConst {
			continue
		}
		v := tt.varSet(x)
		if len(out) == 0 {
			out = v
			continue
		}
		out = mergeU32(out, v)
	}
	t.vars = out
	t.varsOK = true
	return out
}

func mergeU32(a, b []uint32) []uint32 {
	// return a if b is a subset
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	out := make([]uint32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i >= len(a):
			out = append(out, b[j])
			j++
		case j >= len(b):
			out = append(out, a[i])
			i++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tt *TT) setRange(t *Term) {
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	m := mask(t.w)
	a, b := t.a, t.b
	switch t.op {
	case OpAdd:
		if b.isConst() {
			l, h := (a.lo+b.val)&m, (a.hi+b.val)&m
			if l <= h && h-l == a.hi-a.lo {
				t.lo, t.hi = l, h
			}
			return
		}
		h, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && h <= m {
			t.lo, t.hi = a.lo+b.lo, h
		}
	case OpMul:
		hh, hl := bits.Mul64(a.hi, b.hi)
		if hh == 0 && hl <= m {
			t.lo, t.hi = a.lo*b.lo, hl
		}
	case OpUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpURem:
		if b.lo > 0 {
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OpSDiv:
		if sgnPos(a) && sgnPos(b) && b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OpSRem:
		if sgnPos(a) && sgnPos(b) && b.lo > 0 {
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OpBAnd:
		t.hi = a.hi
		if b.hi < t.hi {
			t.hi = b.hi
		}
	case OpBOr, OpBXor:
		n := bits.Len64(a.hi | b.hi)
		t.hi = mask(uint8(n))
		if n == 0 {
			t.hi = 0
		}
	case OpLShr:
		if b.isConst() && b.val < 64 {
			t.lo, t.hi = a.lo>>b.val, a.hi>>b.val
		} else {
			t.hi = a.hi
		}
	case OpShl:
		if b.isConst() && b.val < 64 {
			if a.hi <= m>>b.val {
				t.lo, t.hi = a.lo<<b.val, a.hi<<b.val
			}
		}
	case OpZExt:
		t.lo, t.hi = a.lo, a.hi
	case OpSExt:
		if sgnPos(a) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpExtract:
		if t.val&0xff == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OpConcat:
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
	case OpIte:
		t.lo, t.hi = b.lo, b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
	}
}

func sgnPos(t *Term) bool { return t.hi <= mask(t.w)>>1 }

// ---------- boolean ----------

func (tt *TT) Not(a *Term) *Term {
	if a.isConst() {
		return KB(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	switch a.op {
	case OpULt:
		return tt.ULe(a.b, a.a)
	case OpULe:
		return tt.ULt(a.b, a.a)
	case OpSLt:
		return tt.SLe(a.b, a.a)
	case OpSLe:
		return tt.SLt(a.b, a.a)
	}
	return tt.mk(OpNot, 0, 0, a, nil, nil)
}

func (tt *TT) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpAnd, 0, 0, a, b, nil)
}

func (tt *TT) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return tTrue
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpOr, 0, 0, a, b, nil)
}

func (tt *TT) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b || (a.isConst() && b.isConst() && a.val == b.val) {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.val == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == OpNot {
		return tt.Ite(c.a, b, a)
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if a == b {
		return a
	}
	return tt.mk(OpIte, a.w, 0, c, a, b)
}

func (tt *TT) Eq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(a.val == b.val)
	}
	if a == b {
		return tTrue
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tt.mk(OpEq, 0, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				e1, e2 := a.b.val == b.val, a.c.val == b.val
				switch {
				case e1 && e2:
					return tTrue
				case e1:
					return a.a
				case e2:
					return tt.Not(a.a)
				default:
					return tFalse
				}
			}
			if a.b.isConst() || a.c.isConst() {
				return tt.Ite(a.a, tt.Eq(a.b, b), tt.Eq(a.c, b))
			}
		case OpZExt:
			if b.val > mask(a.a.w) {
				return tFalse
			}
			return tt.Eq(a.a, K(a.a.w, b.val))
		case OpSExt:
			if uint64(sext64(b.val&mask(a.a.w), a.a.w))&mask(a.w) != b.val {
				return tFalse
			}
			return tt.Eq(a.a, K(a.a.w, b.val))
		case OpAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, K(a.w, b.val-a.b.val))
			}
		case OpConcat:
			return tt.And(tt.Eq(a.a, K(a.a.w, b.val>>a.b.w)), tt.Eq(a.b, K(a.b.w, b.val)))
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OpAdd || b.op == OpAdd {
			d := tt.Sub(a, b)
			if d.isConst() {
				return KB(d.val == 0)
			}
			if l, r, ok := tt.cmpNorm(a, b, true); ok {
				return tt.Eq(l, r)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tt.mk(OpEq, 0, 0, a, b, nil)
}

func (tt *TT) ULt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(a.val < b.val)
	}
	if a == b || a.lo >= b.hi {
		if a == b || a.lo >= b.hi {
			return tFalse
		}
	}
	if a.hi < b.lo {
		return tTrue
	}
	if a.op == OpZExt && b.isConst() {
		if b.val > mask(a.a.w) {
			return tTrue
		}
		return tt.ULt(a.a, K(a.a.w, b.val))
	}
	if b.op == OpZExt && a.isConst() {
		if a.val >= mask(b.a.w) {
			return tFalse
		}
		return tt.ULt(K(b.a.w, a.val), b.a)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return tt.ULt(a.a, b.a)
	}
	if l, r, ok := tt.cmpNorm(a, b, false); ok {
		return tt.ULt(l, r)
	}
	return tt.mk(OpULt, 0, 0, a, b, nil)
}

func (tt *TT) ULe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(a.val <= b.val)
	}
	if a == b || a.hi <= b.lo {
		return tTrue
	}
	if a.lo > b.hi {
		return tFalse
	}
	if a.op == OpZExt && b.isConst() {
		if b.val >= mask(a.a.w) {
			return tTrue
		}
		return tt.ULe(a.a, K(a.a.w, b.val))
	}
	if b.op == OpZExt && a.isConst() {
		if a.val > mask(b.a.w) {
			return tFalse
		}
		return tt.ULe(K(b.a.w, a.val), b.a)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return tt.ULe(a.a, b.a)
	}
	if l, r, ok := tt.cmpNorm(a, b, false); ok {
		return tt.ULe(l, r)
	}
	return tt.mk(OpULe, 0, 0, a, b, nil)
}

func (tt *TT) SLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return tFalse
	}
	pa, pb := sgnPos(a), sgnPos(b)
	if pa && pb {
		return tt.ULt(a, b)
	}
	na, nb := a.lo > mask(a.w)>>1, b.lo > mask(b.w)>>1
	if na && pb {
		return tTrue
	}
	if pa && nb {
		return tFalse
	}
	if na && nb {
		return tt.ULt(a, b)
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return tt.SLt(a.a, b.a)
	}
	if l, r, ok := tt.cmpNorm(a, b, true); ok {
		return tt.ULt(l, r)
	}
	return tt.mk(OpSLt, 0, 0, a, b, nil)
}

func (tt *TT) SLe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if a == b {
		return tTrue
	}
	pa, pb := sgnPos(a), sgnPos(b)
	if pa && pb {
		return tt.ULe(a, b)
	}
	na, nb := a.lo > mask(a.w)>>1, b.lo > mask(b.w)>>1
	if na && pb {
		return tTrue
	}
	if pa && nb {
		return tFalse
	}
	if na && nb {
		return tt.ULe(a, b)
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return tt.SLe(a.a, b.a)
	}
	if l, r, ok := tt.cmpNorm(a, b, true); ok {
		return tt.ULe(l, r)
	}
	return tt.mk(OpSLe, 0, 0, a, b, nil)
}

// ---------- arithmetic ----------

type linItem struct {
	t *Term
	c uint64
}

func linAdd(items []linItem, t *Term, c uint64) []linItem {
	for i := range items {
		if items[i].t == t {
			items[i].c += c
			return items
		}
	}
	return append(items, linItem{t, c})
}

func (tt *TT) linCollect(items []linItem, k *uint64, t *Term, c uint64) []linItem {
	switch {
	case t.op == OpConst:
		*k += c * t.val
	case t.op == OpAdd:
		items = tt.linCollect(items, k, t.a, c)
		items = tt.linCollect(items, k, t.b, c)
	case t.op == OpMul && t.b.isConst():
		items = tt.linCollect(items, k, t.a, c*t.b.val)
	default:
		items = linAdd(items, t, c)
	}
	return items
}

func (tt *TT) linBuild(w uint8, items []linItem, k uint64) *Term {
	m := mask(w)
	k &= m
	n := 0
	for _, it := range items {
		if it.c&m != 0 {
			items[n] = linItem{it.t, it.c & m}
			n++
		}
	}
	items = items[:n]
	if n == 0 {
		return K(w, k)
	}
	if n > 1 {
		sort.Slice(items, func(i, j int) bool { return items[i].t.id < items[j].t.id })
	}
	var acc *Term
	for _, it := range items {
		x := it.t
		if it.c != 1 {
			x = tt.mk(OpMul, w, 0, it.t, K(w, it.c), nil)
		}
		if acc == nil {
			acc = x
		} else {
			acc = tt.mk(OpAdd, w, 0, acc, x, nil)
		}
	}
	if k != 0 {
		acc = tt.mk(OpAdd, w, 0, acc, K(w, k), nil)
	}
	return acc
}

func (tt *TT) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return K(a.w, a.val+b.val)
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a.isConst() && a.val == 0 {
		return b
	}
	var buf [8]linItem
	var k uint64
	items := tt.linCollect(buf[:0], &k, a, 1)
	items = tt.linCollect(items, &k, b, 1)
	if len(items) > 24 {
		return tt.mk(OpAdd, a.w, 0, a, b, nil)
	}
	return tt.linBuild(a.w, items, k)
}

func (tt *TT) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return K(a.w, a.val-b.val)
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a == b {
		return K(a.w, 0)
	}
	var buf [8]linItem
	var k uint64
	items := tt.linCollect(buf[:0], &k, a, 1)
	items = tt.linCollect(items, &k, b, ^uint64(0))
	return tt.linBuild(a.w, items, k)
}

func (tt *TT) Neg(a *Term) *Term { return tt.Sub(K(a.w, 0), a) }

func (tt *TT) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return K(a.w, a.val*b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		var buf [8]linItem
		var k uint64
		items := tt.linCollect(buf[:0], &k, a, b.val)
		return tt.linBuild(a.w, items, k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, 0, a, b, nil)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		fx, fy := math.Float64frombits(x), math.Float64frombits(y)
		if w == 32 {
			gx, gy := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
			var r float32
			switch op {
			case OpFAdd:
				r = gx + gy
			case OpFSub:
				r = gx - gy
			case OpFMul:
				r = gx * gy
			default:
				r = gx / gy
			}
			return uint64(math.Float32bits(r))
		}
		var r float64
		switch op {
		case OpFAdd:
			r = fx + fy
		case OpFSub:
			r = fx - fy
		case OpFMul:
			r = fx * fy
		default:
			r = fx / fy
		}
		return math.Float64bits(r)
	}
	panic(fmt.Sprintf("evalBin %d", op))
}

func (tt *TT) Bin(op Op, a, b *Term) *Term {
	switch op {
	case OpAdd:
		return tt.Add(a, b)
	case OpMul:
		return tt.Mul(a, b)
	}
	if a.isConst() && b.isConst() {
		return K(a.w, evalBin(op, a.w, a.val, b.val))
	}
	m := mask(a.w)
	switch op {
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if b.val&(b.val+1) == 0 && a.hi <= b.val { // low mask covering the range
				return a
			}
			if b.val&(b.val+1) == 0 { // low-bits mask: cut high bits of the computation
				n := uint8(bits.Len64(b.val))
				x := tt.Extract(a, n-1, 0)
				return tt.ZExt(x, a.w)
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val == m {
			return b
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return K(a.w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && b.val >= uint64(a.w) && op != OpAShr {
			return K(a.w, 0)
		}
		if op == OpShl && b.isConst() {
			return tt.Mul(a, K(a.w, uint64(1)<<b.val))
		}
		if op == OpAShr && sgnPos(a) {
			return tt.Bin(OpLShr, a, b)
		}
		if op == OpLShr && b.isConst() && a.hi>>b.val == 0 {
			return K(a.w, 0)
		}
	case OpUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val > a.hi {
			return K(a.w, 0)
		}
	case OpURem:
		if b.isConst() && b.val > a.hi {
			return a
		}
		if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
			return tt.Bin(OpBAnd, a, K(a.w, b.val-1))
		}
	case OpSDiv:
		if sgnPos(a) && sgnPos(b) {
			return tt.Bin(OpUDiv, a, b)
		}
	case OpSRem:
		if sgnPos(a) && sgnPos(b) {
			return tt.Bin(OpURem, a, b)
		}
	}
	if a.isConst() && (op == OpBAnd || op == OpBOr || op == OpBXor) {
		a, b = b, a
	}
	return tt.mk(op, a.w, 0, a, b, nil)
}

func (tt *TT) BNot(a *Term) *Term {
	if a.isConst() {
		return K(a.w, ^a.val)
	}
	// ~x = -x - 1
	return tt.Sub(K(a.w, ^uint64(0)), a)
}

func (tt *TT) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return K(w, a.val)
	}
	if a.op == OpZExt {
		return tt.ZExt(a.a, w)
	}
	return tt.mk(OpZExt, w, 0, a, nil, nil)
}

func (tt *TT) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return K(w, uint64(sext64(a.val, a.w)))
	}
	if sgnPos(a) {
		return tt.ZExt(a, w)
	}
	return tt.mk(OpSExt, w, 0, a, nil, nil)
}

func (tt *TT) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return K(w, a.val>>lo)
	}
	if lo == 0 {
		switch a.op {
		case OpZExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w < w {
				return tt.ZExt(a.a, w)
			}
			return tt.Extract(a.a, hi, 0)
		case OpSExt:
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tt.Extract(a.a, hi, 0)
			}
		case OpAdd:
			return tt.Add(tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		case OpMul:
			return tt.Mul(tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		case OpBAnd, OpBOr, OpBXor:
			return tt.Bin(a.op, tt.Extract(a.a, hi, 0), tt.Extract(a.b, hi, 0))
		case OpIte:
			if a.b.isConst() || a.c.isConst() {
				return tt.Ite(a.a, tt.Extract(a.b, hi, 0), tt.Extract(a.c, hi, 0))
			}
		case OpExtract:
			l0 := uint8(a.val & 0xff)
			return tt.Extract(a.a, l0+hi, l0)
		}
	}
	return tt.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), a, nil, nil)
}

// ---------- floats ----------

const (
	f64Sign = uint64(1) << 63
	f64Inf  = uint64(0x7FF0000000000000)
)

func (tt *TT) fIsNaN(a *Term) *Term {
	if a.w == 32 {
		return tt.ULt(K(32, 0x7F800000), tt.Bin(OpBAnd, a, K(32, 0x7FFFFFFF)))
	}
	return tt.ULt(K(64, f64Inf), tt.Bin(OpBAnd, a, K(64, f64Sign-1)))
}

func (tt *TT) fIsZero(a *Term) *Term {
	if a.w == 32 {
		return tt.Eq(tt.Bin(OpBAnd, a, K(32, 0x7FFFFFFF)), K(32, 0))
	}
	return tt.Or(tt.Eq(a, K(64, 0)), tt.Eq(a, K(64, f64Sign)))
}

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

// intOfFloat recognises int->float64 conversions that are exact.
func exactInt(t *Term) (x *Term, ok bool) {
	if t.w == 64 && (t.op == OpSToF || t.op == OpUToF) && t.a.hi < 1<<53 && (t.op == OpUToF || sgnPos(t.a)) {
		return t.a, true
	}
	return nil, false
}

func (tt *TT) FEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(fval(a) == fval(b))
	}
	if a.isConst() {
		a, b = b, a
	}
	if x, ok := exactInt(a); ok {
		if b.isConst() {
			f := fval(b)
			if f != math.Trunc(f) || f < 0 || f >= 1<<53 {
				return tFalse
			}
			if uint64(f) > mask(x.w) {
				return tFalse
			}
			return tt.Eq(x, K(x.w, uint64(f)))
		}
		if y, ok := exactInt(b); ok && y.w == x.w {
			return tt.Eq(x, y)
		}
	}
	nn := tt.And(tt.Not(tt.fIsNaN(a)), tt.Not(tt.fIsNaN(b)))
	return tt.And(nn, tt.Or(tt.Eq(a, b), tt.And(tt.fIsZero(a), tt.fIsZero(b))))
}

// fKey maps the bit pattern to an unsigned key that orders like the float (non-NaN), with -0 < +0.
func (tt *TT) fKey(a *Term) *Term {
	s := uint64(1) << (a.w - 1)
	neg := tt.ULe(K(a.w, s), a)
	return tt.Ite(neg, tt.BNot(a), tt.Bin(OpBXor, a, K(a.w, s)))
}

func (tt *TT) FLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return KB(fval(a) < fval(b))
	}
	if x, ok := exactInt(a); ok {
		if b.isConst() { // x < f  <=>  x < ceil(f)
			f := math.Ceil(fval(b))
			if math.IsNaN(f) || f <= 0 {
				return tFalse
			}
			if f > float64(x.hi) {
				return tTrue
			}
			return tt.ULt(x, K(x.w, uint64(f)))
		}
		if y, ok := exactInt(b); ok && x.w == y.w {
			return tt.ULt(x, y)
		}
	}
	if y, ok := exactInt(b); ok && a.isConst() { // f < y <=> floor(f) < y
		f := math.Floor(fval(a))
		if math.IsNaN(f) {
			return tFalse
		}
		if f < 0 {
			return tTrue
		}
		if f >= float64(y.hi) {
			return tFalse
		}
		return tt.ULt(K(y.w, uint64(f)), y)
	}
	nn := tt.And(tt.Not(tt.fIsNaN(a)), tt.Not(tt.fIsNaN(b)))
	lt := tt.ULt(tt.fKey(a), tt.fKey(b))
	bothZero := tt.And(tt.fIsZero(a), tt.fIsZero(b))
	return tt.And(nn, tt.And(lt, tt.Not(bothZero)))
}

func (tt *TT) FLe(a, b *Term) *Term { return tt.Or(tt.FLt(a, b), tt.FEq(a, b)) }

func (tt *TT) SToF(a *Term) *Term {
	if a.isConst() {
		return K(64, math.Float64bits(float64(sext64(a.val, a.w))))
	}
	return tt.mk(OpSToF, 64, 0, a, nil, nil)
}
func (tt *TT) UToF(a *Term) *Term {
	if a.isConst() {
		return K(64, math.Float64bits(float64(a.val)))
	}
	return tt.mk(OpUToF, 64, 0, a, nil, nil)
}
func (tt *TT) FToI(a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		if signed {
			return K(w, uint64(int64(fval(a))))
		}
		return K(w, uint64(fval(a)))
	}
	if x, ok := exactInt(a); ok {
		if x.w == w {
			return x
		}
		if x.w < w {
			return tt.ZExt(x, w)
		}
		return tt.Extract(x, w-1, 0)
	}
	if signed {
		return tt.mk(OpFToS, w, 0, a, nil, nil)
	}
	return tt.mk(OpFToU, w, 0, a, nil, nil)
}
func (tt *TT) FNeg(a *Term) *Term {
	return tt.Bin(OpBXor, a, K(a.w, uint64(1)<<(a.w-1)))
}
func (tt *TT) F64To32(a *Term) *Term {
	if a.isConst() {
		return K(32, uint64(math.Float32bits(float32(fval(a)))))
	}
	return tt.mk(OpF64To32, 32, 0, a, nil, nil)
}
func (tt *TT) F32To64(a *Term) *Term {
	if a.isConst() {
		return K(64, math.Float64bits(fval(a)))
	}
	return tt.mk(OpF32To64, 64, 0, a, nil, nil)
}

// ---------- evaluation ----------

type Model struct {
	m   map[string]uint64
	gen uint32
}

type evaluator struct {
	val []uint64
	gen []uint32
	cur uint32
}

func newEvaluator() *evaluator { return &evaluator{cur: 1} }

func (e *evaluator) reset() { e.cur++ }

func (e *evaluator) eval(t *Term, m map[string]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if int(t.id) < len(e.gen) && e.gen[t.id] == e.cur {
		return e.val[t.id]
	}
	var r uint64
	switch t.op {
	case OpVar:
		v, ok := m[t.name]
		if !ok {
			v = t.lo
		}
		r = v
	case OpNot:
		r = 1 - e.eval(t.a, m)
	case OpAnd:
		r = e.eval(t.a, m)
		if r == 1 {
			r = e.eval(t.b, m)
		}
	case OpOr:
		r = e.eval(t.a, m)
		if r == 0 {
			r = e.eval(t.b, m)
		}
	case OpEq:
		r = b2u(e.eval(t.a, m) == e.eval(t.b, m))
	case OpIte:
		if e.eval(t.a, m) == 1 {
			r = e.eval(t.b, m)
		} else {
			r = e.eval(t.c, m)
		}
	case OpULt:
		r = b2u(e.eval(t.a, m) < e.eval(t.b, m))
	case OpULe:
		r = b2u(e.eval(t.a, m) <= e.eval(t.b, m))
	case OpSLt:
		r = b2u(sext64(e.eval(t.a, m), t.a.w) < sext64(e.eval(t.b, m), t.a.w))
	case OpSLe:
		r = b2u(sext64(e.eval(t.a, m), t.a.w) <= sext64(e.eval(t.b, m), t.a.w))
	case OpZExt:
		r = e.eval(t.a, m)
	case OpSExt:
		r = uint64(sext64(e.eval(t.a, m), t.a.w)) & mask(t.w)
	case OpExtract:
		r = (e.eval(t.a, m) >> (t.val & 0xff)) & mask(t.w)
	case OpConcat:
		r = e.eval(t.a, m)<<t.b.w | e.eval(t.b, m)
	case OpBNot:
		r = ^e.eval(t.a, m) & mask(t.w)
	case OpSToF:
		r = math.Float64bits(float64(sext64(e.eval(t.a, m), t.a.w)))
	case OpUToF:
		r = math.Float64bits(float64(e.eval(t.a, m)))
	case OpFToS:
		r = uint64(int64(math.Float64frombits(e.eval(t.a, m)))) & mask(t.w)
	case OpFToU:
		r = uint64(math.Float64frombits(e.eval(t.a, m))) & mask(t.w)
	case OpF64To32:
		r = uint64(math.Float32bits(float32(math.Float64frombits(e.eval(t.a, m)))))
	case OpF32To64:
		r = math.Float64bits(float64(math.Float32frombits(uint32(e.eval(t.a, m)))))
	default:
		r = evalBin(t.op, t.w, e.eval(t.a, m), e.eval(t.b, m))
	}
	for int(t.id) >= len(e.gen) {
		n := 2*len(e.gen) + 1024
		ng, nv := make([]uint32, n), make([]uint64, n)
		copy(ng, e.gen)
		copy(nv, e.val)
		e.gen, e.val = ng, nv
	}
	e.gen[t.id] = e.cur
	e.val[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// linRange is the exact range of a linear combination whose coefficients are
// taken as signed, false when it may leave [-2^61, 2^61].
func linRange(items []linItem, k uint64, w uint8) (lo, hi int64, ok bool) {
	const lim = 1 << 61
	x := int64(sext64(k&mask(w), w))
	if x < -lim || x > lim {
		return
	}
	lo, hi = x, x
	for _, it := range items {
		c := int64(sext64(it.c&mask(w), w))
		if c < -lim || c > lim || it.t.hi > lim {
			return 0, 0, false
		}
		m := uint64(c)
		if c < 0 {
			m = uint64(-c)
		}
		ph, p := bits.Mul64(m, it.t.hi)
		if ph != 0 || p > lim {
			return 0, 0, false
		}
		q := m * it.t.lo
		if c >= 0 {
			lo += int64(q)
			hi += int64(p)
		} else {
			lo -= int64(p)
			hi -= int64(q)
		}
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// cmpNorm rewrites a comparison of two linear combinations that do not wrap:
// common parts cancel, negative coefficients change sides, and what remains is
// expressed in as few bits as its values need.
func (tt *TT) cmpNorm(a, b *Term, signed bool) (l, r *Term, ok bool) {
	lin := func(t *Term) bool { return t.op == OpAdd || t.op == OpMul }
	w := a.w
	if w < 9 || !lin(a) && !lin(b) {
		return
	}
	var ba, bb [8]linItem
	var ka, kb uint64
	ia := tt.linCollect(ba[:0], &ka, a, 1)
	ib := tt.linCollect(bb[:0], &kb, b, 1)
	if len(ia)+len(ib) > 24 {
		return
	}
	for _, p := range []struct {
		items []linItem
		k     uint64
	}{{ia, ka}, {ib, kb}} {
		lo, hi, ok := linRange(p.items, p.k, w)
		if !ok {
			return nil, nil, false
		}
		if signed {
			if w < 62 && (lo < -(1<<(w-1)) || hi >= 1<<(w-1)) {
				return nil, nil, false
			}
		} else if lo < 0 || w < 62 && hi >= 1<<w {
			return nil, nil, false
		}
	}
	d := append([]linItem(nil), ia...)
	for _, it := range ib {
		d = linAdd(d, it.t, -it.c)
	}
	k := int64(sext64(ka&mask(w), w)) - int64(sext64(kb&mask(w), w))
	var pos, neg []linItem
	var kp, kn uint64
	if k > 0 {
		kp = uint64(k)
	} else {
		kn = uint64(-k)
	}
	for _, it := range d {
		c := int64(sext64(it.c&mask(w), w))
		if c > 0 {
			pos = append(pos, linItem{it.t, uint64(c)})
		} else if c < 0 {
			neg = append(neg, linItem{it.t, uint64(-c)})
		}
	}
	top := func(items []linItem, k uint64) (uint64, bool) {
		s := k
		for _, it := range items {
			h, p := bits.Mul64(it.c, it.t.hi)
			if h != 0 || p > 1<<61 {
				return 0, false
			}
			s += p
			if s > 1<<61 {
				return 0, false
			}
		}
		return s, true
	}
	hp, ok1 := top(pos, kp)
	hn, ok2 := top(neg, kn)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	n := uint8(bits.Len64(hp|hn)) + 1 // all coefficients stay positive
	if n >= w {                       // every rewriting narrows, so they end
		return nil, nil, false
	}
	build := func(items []linItem, k uint64) *Term {
		acc := K(n, k)
		for _, it := range items {
			x := it.t
			if x.w > n {
				x = tt.Extract(x, n-1, 0)
			}
			acc = tt.Add(acc, tt.Mul(x, K(n, it.c)))
		}
		return acc
	}
	return build(pos, kp), build(neg, kn), true
}

// linear decomposition with exact (non-wrapping) upper bound
func (tt *TT) linExact(a *Term) ([]linItem, uint64, bool) {
	var k uint64
	var buf [8]linItem
	items := tt.linCollect(buf[:0], &k, a, 1)
	k &= mask(a.w)
	sum := k
	for _, it := range items {
		c := it.c & mask(a.w)
		hh, hl := bits.Mul64(c, it.t.hi)
		if hh != 0 {
			return nil, 0, false
		}
		s, cy := bits.Add64(sum, hl, 0)
		if cy != 0 || s > mask(a.w) {
			return nil, 0, false
		}
		sum = s
	}
	return items, k, true
}

// Div simplifies divisions and remainders by constants.
func (tt *TT) Div(op Op, a, b *Term) *Term {
	if op == OpSDiv && sgnPos(a) && sgnPos(b) {
		op = OpUDiv
	}
	if op == OpSRem && sgnPos(a) && sgnPos(b) {
		op = OpURem
	}
	if (op == OpUDiv || op == OpURem) && b.isConst() && b.val > 1 && !a.isConst() {
		if items, k, ok := tt.linExact(a); ok {
			c := b.val
			var q []linItem
			var r []linItem
			qk, rk := k/c, k%c
			rmax := rk
			for _, it := range items {
				ic := it.c & mask(a.w)
				if ic/c > 0 {
					q = append(q, linItem{it.t, ic / c})
				}
				if ic%c > 0 {
					r = append(r, linItem{it.t, ic % c})
					rmax += (ic % c) * it.t.hi // bounded by linExact
				}
			}
			if rmax < c {
				if op == OpUDiv {
					return tt.linBuild(a.w, q, qk)
				}
				return tt.linBuild(a.w, r, rk)
			}
		}
		// narrow the circuit to the bits that matter
		n := uint8(bits.Len64(a.hi | b.val))
		if n > 0 && n < a.w {
			x := tt.Extract(a, n-1, 0)
			return tt.ZExt(tt.Div(op, x, K(n, b.val)), a.w)
		}
	}
	return tt.Bin(op, a, b)
}
