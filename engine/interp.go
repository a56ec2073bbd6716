package main

// Compilation of SSA functions to closures over a register file, and the
// execution loop.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type GlobalInfo struct {
	g       *ssa.Global
	ti      *TypeInfo // element type
	pkg     *PkgInfo
	perPath bool
	idx     int
}

type PkgInfo struct {
	pkg     *ssa.Package
	path    string
	perPath bool
	init    *Func
	partial bool // its initialisation is not (wholly) executed
}

type instr func(fr *frame)

type block struct {
	phiDst []int
	phiSrc [][]int // per predecessor
	ins    []instr
	term   func(fr *frame) int // next block, -1 return
	n      int64
}

type Func struct {
	fn       *ssa.Function
	p        *Program
	name     string
	once     sync.Once
	ready    bool
	intr     func(ex *Exec, args []Value) Value
	blocks   []*block
	nregs    int
	nparams  int
	consts   []Value
	hasDefer bool
	recover_ int
	resZero  Value
	std      bool
	user     bool // metis code (counted in evidence)
	err      string
}

type deferred struct {
	run func(fr *frame)
}

type frame struct {
	ex       *Exec
	fn       *Func
	regs     []Value
	prev     int
	defers   []deferred
	panicV   *targetPanic
	deferOf  *frame
	result   Value
	recov    bool
	deferred bool
}

func (fr *frame) get(o int) Value {
	if o >= 0 {
		return fr.regs[o]
	}
	c := fr.fn.consts[-1-o]
	if g, ok := c.(*GlobalInfo); ok {
		return fr.ex.global(g)
	}
	return c
}

func (fr *frame) term(o int) *Term { return fr.get(o).(*Term) }

// ---------- globals ----------

func (ex *Exec) global(g *GlobalInfo) Value {
	if g.perPath {
		if v, ok := ex.globals[g]; ok {
			return v
		}
	} else if v, ok := ex.w.globals[g]; ok {
		if g.pkg.partial && ex.stdInit == 0 {
			ex.untouched(g, v)
		}
		return v
	}
	v := ex.initGlobal(g)
	if g.pkg.partial && ex.stdInit == 0 {
		ex.untouched(g, v)
	}
	return v
}

// untouched stops at the use of a variable whose initialisation was not executed.
func (ex *Exec) untouched(g *GlobalInfo, v Value) {
	c, ok := v.(*Cell)
	if !ok || c.v != g.ti.zero {
		return
	}
	ex.unsupported("the variable %s.%s, whose initialisation is not executed", g.pkg.path, g.g.Name())
}

func newStorage(ti *TypeInfo) Value {
	if ti.agg {
		return ti.mkZero()
	}
	return &Cell{v: ti.zero}
}

func (ex *Exec) initGlobal(g *GlobalInfo) Value {
	store := func() Value {
		v := newStorage(g.ti)
		if g.perPath {
			ex.globals[g] = v
		} else {
			ex.w.globals[g] = v
		}
		return v
	}
	pi := g.pkg
	inits := ex.w.inits
	if pi.perPath {
		inits = ex.inits
	}
	if !inits[pi] {
		inits[pi] = true
		v := store()
		ex.runInit(pi)
		return v
	}
	return store()
}

func (ex *Exec) runInit(pi *PkgInfo) {
	f := pi.pkg.Func("init")
	if f == nil {
		return
	}
	if !pi.perPath {
		if skipInit[pi.path] {
			pi.partial = true
			return
		}
		ex.stdInit++
		depth, sn := ex.depth, len(ex.stack)
		old := ex.nInstr
		defer func() {
			ex.stdInit--
			ex.nInstr = old
			if r := recover(); r != nil {
				ex.depth = depth
				ex.stack = ex.stack[:sn]
				if pe, ok := r.(pathEnd); ok && pe.kind == "unsupported" {
					pi.partial = true
					logv("init of %s incomplete: %s", pi.path, pe.msg)
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					pi.partial = true
					logv("init of %s panicked: %s (%s)", pi.path, tp.msg, tp.stack)
					return
				}
				panic(r)
			}
		}()
	}
	ex.callFn(ex.p.funcOf(f), nil, nil)
}

// ---------- calls ----------

func (ex *Exec) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		ex.tpanic("invalid memory address or nil pointer dereference")
	}
	if c.in != nil {
		return c.in(ex, args)
	}
	return ex.callFn(c.fn, args, c.env)
}

func (ex *Exec) callFn(fn *Func, args []Value, env []Value) Value {
	return ex.callFrame(fn, args, env, nil)
}

func (ex *Exec) callFrame(fn *Func, args []Value, env []Value, deferOf *frame) Value {
	if !fn.ready {
		fn.prepare()
	}
	if fn.intr != nil {
		return fn.intr(ex, args)
	}
	if fn.blocks == nil {
		ex.unsupported("no code for %s %s", fn.name, fn.err)
	}
	if fn.user {
		ex.w.coverFn(fn)
	}
	if len(ex.stack) > 4000 {
		ex.unsupported("call stack too deep")
	}
	n := fn.nregs
	base := len(ex.regStack)
	var regs []Value
	if base+n <= cap(ex.regStack) {
		ex.regStack = ex.regStack[:base+n]
		regs = ex.regStack[base : base+n : base+n]
	} else {
		regs = make([]Value, n)
		base = -1
	}
	copy(regs, args)
	copy(regs[len(args):], env)
	fr := &frame{ex: ex, fn: fn, regs: regs, prev: -1, deferOf: deferOf}
	ex.stack = append(ex.stack, fr)
	if fn.hasDefer {
		ex.runDeferring(fr)
	} else {
		ex.runBlocks(fr, 0)
	}
	ex.stack = ex.stack[:len(ex.stack)-1]
	if base >= 0 {
		clear(regs)
		ex.regStack = ex.regStack[:base]
	}
	return fr.result
}

func (ex *Exec) runBlocks(fr *frame, b int) {
	blocks := fr.fn.blocks
	for b >= 0 {
		blk := blocks[b]
		if len(blk.phiDst) > 0 {
			src := blk.phiSrc[fr.prev]
			if len(src) == 1 {
				fr.regs[blk.phiDst[0]] = fr.get(src[0])
			} else {
				var tmp [16]Value
				t := tmp[:0]
				for _, s := range src {
					t = append(t, fr.get(s))
				}
				for i, d := range blk.phiDst {
					fr.regs[d] = t[i]
				}
			}
		}
		ex.nInstr += blk.n
		if ex.nInstr > ex.limit {
			ex.hitLimit()
		}
		for _, in := range blk.ins {
			in(fr)
		}
		b = blk.term(fr)
	}
}

func (ex *Exec) hitLimit() {
	if ex.stdInit > 0 {
		ex.limit += 50_000_000
		return
	}
	panic(pathEnd{kind: "limit"})
}

func (ex *Exec) runDeferring(fr *frame) {
	sn, rn := len(ex.stack), len(ex.regStack)
	protect := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				for i := sn; i < len(ex.stack); i++ {
					ex.stack[i] = nil
				}
				ex.stack = ex.stack[:sn]
				clear(ex.regStack[rn:])
				ex.regStack = ex.regStack[:rn]
				fr.panicV = tp
			}
		}()
		f()
	}
	protect(func() { ex.runBlocks(fr, 0) })
	if fr.panicV == nil {
		return
	}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		protect(func() { d.run(fr) })
	}
	if fr.panicV != nil {
		panic(fr.panicV)
	}
	if fr.fn.recover_ >= 0 {
		ex.runBlocks(fr, fr.fn.recover_)
	} else {
		fr.result = fr.fn.resZero
	}
}

// ---------- memory ----------

func (ex *Exec) nilDeref() {
	ex.tpanic("invalid memory address or nil pointer dereference")
}

func (ex *Exec) load(p Value) Value {
	switch x := p.(type) {
	case *Cell:
		return x.v
	case *Struct, *Arr:
		return copyVal(x)
	case FieldPtr:
		return loadSlot(x.s.f[x.i], x.s.ti.fields[x.i])
	case ElemPtr:
		return loadSlot(x.a.get(x.i), x.a.et)
	case nilPtrT:
		ex.nilDeref()
	}
	ex.unsupported("load through %T", p)
	return nil
}

func loadSlot(v Value, ti *TypeInfo) Value {
	if ti.agg {
		return copyVal(v)
	}
	return v
}

func (ex *Exec) store(p, v Value) {
	switch x := p.(type) {
	case *Cell:
		x.v = v
	case *Struct, *Arr:
		assignInto(x, v)
	case FieldPtr:
		if x.s.ti.fields[x.i].agg {
			assignInto(x.s.f[x.i], v)
		} else {
			x.s.f[x.i] = v
		}
	case ElemPtr:
		x.a.assign(x.i, v)
	case nilPtrT:
		ex.nilDeref()
	default:
		ex.unsupported("store through %T", p)
	}
}

func (ex *Exec) fieldAddr(p Value, i int) Value {
	s, ok := p.(*Struct)
	if !ok {
		if _, n := p.(nilPtrT); n {
			ex.nilDeref()
		}
		ex.unsupported("field address of %T", p)
	}
	if s.ti.fields[i].agg {
		return s.f[i]
	}
	return FieldPtr{s, i}
}

func (ex *Exec) sliceIndex(s *Slice, idx *Term, signed bool) (off int, sym *Term) {
	w := idx.w
	var n *Term
	if s.slen != nil {
		n = s.slen
		if !ex.Branch(ex.tt.ULt(ex.toIdx(idx, signed), n)) {
			ex.tpanic("index out of range")
		}
		return ex.concInt(idx), nil
	}
	if idx.isConst() {
		i := sext64(idx.val, w)
		if !signed {
			i = int64(idx.val)
		}
		if i < 0 || i >= int64(s.len) {
			ex.tpanic("index out of range [%d] with length %d", i, s.len)
		}
		return s.off + int(i), nil
	}
	if !ex.Branch(ex.tt.ULt(ex.toIdx(idx, signed), K(64, uint64(s.len)))) {
		ex.tpanic("index out of range [%s] with length %d", "sym", s.len)
	}
	return 0, idx
}

func (ex *Exec) toIdx(t *Term, signed bool) *Term {
	if t.w == 64 {
		return t
	}
	if signed {
		return ex.tt.SExt(t, 64)
	}
	return ex.tt.ZExt(t, 64)
}

// loadIndexed merges the candidates of a symbolic index when they are scalars.
func (ex *Exec) loadIndexed(at func(int) Value, n int, idx *Term, signed bool) Value {
	i64 := ex.toIdx(idx, signed)
	lo, hi := int(i64.lo), n-1
	if i64.lo > uint64(n) {
		lo = 0
	}
	if i64.hi < uint64(hi) {
		hi = int(i64.hi)
	}
	if hi-lo < 64 {
		var acc *Term
		ok := true
		for i := hi; i >= lo; i-- {
			t, is := at(i).(*Term)
			if !is {
				ok = false
				break
			}
			if acc == nil {
				acc = t
			} else {
				acc = ex.tt.Ite(ex.tt.Eq(i64, K(64, uint64(i))), t, acc)
			}
		}
		if ok {
			return acc
		}
	}
	if hi-lo < 1024 {
		// tables: mostly the index itself, or mostly one value
		w, ok := uint8(0), true
		var vals []uint64
		cnt := map[uint64]int{}
		ident := 0
		var best uint64
		for i := lo; i <= hi && ok; i++ {
			t, is := at(i).(*Term)
			if ok = is && t.isConst(); ok {
				w = uint8(t.w)
				vals = append(vals, t.val)
				cnt[t.val]++
				if cnt[t.val] > cnt[best] {
					best = t.val
				}
				if t.val == uint64(i) {
					ident++
				}
			}
		}
		if ok && w > 1 && len(vals)-max(ident, cnt[best]) <= 64 {
			acc := K(w, best)
			useIdent := ident >= cnt[best]
			if useIdent {
				acc = i64
				if w < 64 {
					acc = ex.tt.Extract(i64, w-1, 0)
				}
			}
			for j, v := range vals {
				if useIdent && v != uint64(lo+j) || !useIdent && v != best {
					acc = ex.tt.Ite(ex.tt.Eq(i64, K(64, uint64(lo+j))), K(w, v), acc)
				}
			}
			return acc
		}
	}
	return at(ex.concInt(i64))
}

// ---------- compilation ----------

type comp struct {
	p      *Program
	f      *Func
	fn     *ssa.Function
	regs   map[ssa.Value]int
	consts map[ssa.Value]int
	skip   map[ssa.Instruction]bool
}

func (p *Program) funcOf(fn *ssa.Function) *Func {
	p.fmu.RLock()
	f := p.funcs[fn]
	p.fmu.RUnlock()
	if f != nil {
		return f
	}
	p.fmu.Lock()
	defer p.fmu.Unlock()
	if f = p.funcs[fn]; f != nil {
		return f
	}
	f = &Func{fn: fn, p: p, name: fn.String(), recover_: -1}
	p.funcs[fn] = f
	return f
}

func (f *Func) prepare() {
	f.once.Do(func() {
		f.p.buildMu.Lock()
		defer f.p.buildMu.Unlock()
		name := f.name
		origin := f.fn
		if o := f.fn.Origin(); o != nil {
			origin = o
			name = o.String()
		}
		var pkgPath string
		if origin.Pkg != nil {
			pkgPath = origin.Pkg.Pkg.Path()
		}
		f.user = f.p.isMetis(pkgPath)
		if in, ok := intrinsics[name]; ok {
			f.intr = in
			f.ready = true
			return
		}
		for _, pr := range intrinsicPrefixes {
			if strings.HasPrefix(name, pr.prefix) {
				if in := pr.mk(f); in != nil {
					f.intr = in
					f.ready = true
					return
				}
			}
		}
		if nf, ok := natives[name]; ok {
			f.compileBody()
			f.intr = mkNative(f, nf)
			f.ready = true
			return
		}
		f.compileBody()
		f.ready = true
	})
}

func (f *Func) compileBody() {
	fn := f.fn
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			f.blocks = nil
			f.err = fmt.Sprint(r)
		}
	}()
	c := &comp{p: f.p, f: f, fn: fn, regs: map[ssa.Value]int{}, consts: map[ssa.Value]int{}, skip: map[ssa.Instruction]bool{}}
	c.compile()
}

func (c *comp) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := len(c.regs)
	c.regs[v] = r
	return r
}

func (c *comp) addConst(v Value) int {
	c.f.consts = append(c.f.consts, v)
	return -len(c.f.consts)
}

func (c *comp) op(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.Const:
		if o, ok := c.consts[v]; ok {
			return o
		}
		o := c.addConst(constVal(x))
		c.consts[v] = o
		return o
	case *ssa.Global:
		if o, ok := c.consts[v]; ok {
			return o
		}
		o := c.addConst(c.p.globalOf(x))
		c.consts[v] = o
		return o
	case *ssa.Function:
		if o, ok := c.consts[v]; ok {
			return o
		}
		o := c.addConst(c.p.closureOf(x))
		c.consts[v] = o
		return o
	case *ssa.Builtin:
		panic("builtin as value")
	}
	return c.reg(v)
}

func constVal(x *ssa.Const) Value {
	ti := tinfo(x.Type())
	if x.Value == nil {
		return ti.mkZero()
	}
	switch ti.kind {
	case kBool:
		return KB(constant.BoolVal(x.Value))
	case kInt:
		if ti.signed {
			i, _ := constant.Int64Val(constant.ToInt(x.Value))
			return K(ti.w, uint64(i))
		}
		u, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return K(ti.w, u)
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if ti.w == 32 {
			return K(32, uint64(math.Float32bits(float32(f))))
		}
		return K(64, math.Float64bits(f))
	case kString:
		if x.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(x.Value))
		}
		i, _ := constant.Int64Val(x.Value)
		return mkStr(string(rune(i)))
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return complex(re, im)
	case kUnsafe:
		return nilPtr
	}
	panic(fmt.Sprintf("constant of type %s", x.Type()))
}

// onlyMem reports whether every use of an address value is a direct load or store.
func onlyMem(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if x.Addr != v || x.Val == v {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (c *comp) compile() {
	fn := c.fn
	for _, p := range fn.Params {
		c.reg(p)
	}
	for _, fv := range fn.FreeVars {
		c.reg(fv)
	}
	c.f.nparams = len(fn.Params)
	if fn.Recover != nil {
		c.f.hasDefer = true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				c.f.hasDefer = true
			}
		}
	}
	sig := fn.Signature.Results()
	switch sig.Len() {
	case 0:
		c.f.resZero = nil
	case 1:
		c.f.resZero = tinfo(sig.At(0).Type()).mkZero()
	default:
		c.f.resZero = tinfo(sig).mkZero()
	}
	all := fn.Blocks
	rec := -1
	if fn.Recover != nil {
		found := false
		for i, b := range all {
			if b == fn.Recover {
				rec = i
				found = true
			}
		}
		if !found {
			rec = len(all)
			all = append(append([]*ssa.BasicBlock(nil), all...), fn.Recover)
		}
	}
	c.f.recover_ = rec
	blocks := make([]*block, len(all))
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range all {
		idx[b] = i
	}
	for i, b := range all {
		blk := &block{}
		blocks[i] = blk
		var srcs []map[int]int
		_ = srcs
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				blk.phiDst = append(blk.phiDst, c.reg(x))
			case *ssa.DebugRef:
			case *ssa.Jump:
				to := idx[b.Succs[0]]
				me := i
				blk.term = func(fr *frame) int { fr.prev = me; return to }
			case *ssa.If:
				co := c.op(x.Cond)
				t, f := idx[b.Succs[0]], idx[b.Succs[1]]
				me := i
				blk.term = func(fr *frame) int {
					fr.prev = me
					if fr.ex.Branch(fr.term(co)) {
						return t
					}
					return f
				}
			case *ssa.Return:
				var ops []int
				for _, r := range x.Results {
					ops = append(ops, c.op(r))
				}
				switch len(ops) {
				case 0:
					blk.term = func(fr *frame) int { return -1 }
				case 1:
					o := ops[0]
					blk.term = func(fr *frame) int { fr.result = fr.get(o); return -1 }
				default:
					blk.term = func(fr *frame) int {
						t := make(Tuple, len(ops))
						for i, o := range ops {
							t[i] = fr.get(o)
						}
						fr.result = t
						return -1
					}
				}
			case *ssa.Panic:
				o := c.op(x.X)
				blk.term = func(fr *frame) int {
					v := fr.get(o).(*Iface)
					panic(&targetPanic{v: v, msg: fr.ex.panicString(v), stack: fr.ex.backtrace()})
				}
			default:
				f := c.instr(in)
				if f != nil {
					blk.ins = append(blk.ins, f)
				}
			}
		}
		blk.n = int64(len(blk.ins)) + 1
		if blk.term == nil {
			panic("block without terminator")
		}
	}
	// phi sources, indexed by predecessor block index
	for i, b := range all {
		blk := blocks[i]
		if len(blk.phiDst) == 0 {
			continue
		}
		blk.phiSrc = make([][]int, len(all))
		for pi, pred := range b.Preds {
			var src []int
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					src = append(src, c.op(ph.Edges[pi]))
				}
			}
			blk.phiSrc[idx[pred]] = src
		}
	}
	c.f.nregs = len(c.regs)
	c.f.blocks = blocks
}

func (c *comp) instr(in ssa.Instruction) instr {
	switch x := in.(type) {
	case *ssa.Alloc:
		ti := tinfo(x.Type().Underlying().(*types.Pointer).Elem())
		d := c.reg(x)
		return func(fr *frame) { fr.regs[d] = newStorage(ti) }
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		d := c.reg(x)
		call := c.call(&x.Call)
		return func(fr *frame) { fr.regs[d] = call(fr, nil) }
	case *ssa.ChangeInterface:
		d, o := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(o) }
	case *ssa.ChangeType:
		d, o := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.get(o) }
	case *ssa.Convert:
		d, o := c.reg(x), c.op(x.X)
		from, to := tinfo(x.X.Type()), tinfo(x.Type())
		return func(fr *frame) { fr.regs[d] = fr.ex.convert(fr.get(o), from, to) }
	case *ssa.MultiConvert:
		d, o := c.reg(x), c.op(x.X)
		from, to := tinfo(x.X.Type()), tinfo(x.Type())
		return func(fr *frame) { fr.regs[d] = fr.ex.convert(fr.get(o), from, to) }
	case *ssa.Defer:
		prep := c.deferCall(&x.Call)
		if x.DeferStack != nil {
			so := c.op(x.DeferStack)
			return func(fr *frame) {
				target, ok := fr.get(so).(*frame)
				if !ok {
					target = fr
				}
				target.defers = append(target.defers, deferred{prep(fr)})
			}
		}
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{prep(fr)}) }
	case *ssa.Extract:
		d, o, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = fr.get(o).(Tuple)[i] }
	case *ssa.Field:
		d, o, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = fr.get(o).(*Struct).f[i] }
	case *ssa.FieldAddr:
		if onlyMem(x) {
			return nil
		}
		d, o, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = fr.ex.fieldAddr(fr.get(o), i) }
	case *ssa.Go:
		prep := c.deferCall(&x.Call)
		return func(fr *frame) {
			run := prep(fr)
			_ = run
			fr.ex.unsupported("go statement")
		}
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.Phi:
		panic("terminator")
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		if onlyMem(x) {
			return nil
		}
		d := c.reg(x)
		xo, io := c.op(x.X), c.op(x.Index)
		signed := tinfo(x.Index.Type()).signed
		return func(fr *frame) {
			a, i := fr.ex.elemAt(fr.get(xo), fr.term(io), signed)
			if a.et.agg {
				fr.regs[d] = a.get(i)
			} else {
				fr.regs[d] = ElemPtr{a, i}
			}
		}
	case *ssa.Lookup:
		d, xo, io := c.reg(x), c.op(x.X), c.op(x.Index)
		xt := tinfo(x.X.Type())
		if xt.kind == kString {
			signed := tinfo(x.Index.Type()).signed
			return func(fr *frame) {
				s := fr.get(xo).(*Str)
				fr.regs[d] = fr.ex.strIndex(s, fr.term(io), signed)
			}
		}
		comma := x.CommaOk
		vt := xt.elem
		return func(fr *frame) {
			m := fr.get(xo).(*MapV)
			e := fr.ex.mapFind(m, fr.get(io))
			if comma {
				if e == nil {
					fr.regs[d] = Tuple{vt.mkZero(), tFalse}
				} else {
					fr.regs[d] = Tuple{copyIf(e.v, vt), tTrue}
				}
				return
			}
			if e == nil {
				fr.regs[d] = vt.mkZero()
			} else {
				fr.regs[d] = copyIf(e.v, vt)
			}
		}
	case *ssa.MakeChan:
		d, so := c.reg(x), c.op(x.Size)
		et := tinfo(x.Type()).elem
		return func(fr *frame) { fr.regs[d] = &ChanV{cap_: fr.ex.concInt(fr.term(so)), et: et} }
	case *ssa.MakeClosure:
		d := c.reg(x)
		f := c.p.funcOf(x.Fn.(*ssa.Function))
		var ops []int
		for _, b := range x.Bindings {
			ops = append(ops, c.op(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(ops))
			for i, o := range ops {
				env[i] = fr.get(o)
			}
			fr.regs[d] = &Closure{fn: f, env: env}
		}
	case *ssa.MakeInterface:
		d, o := c.reg(x), c.op(x.X)
		ti := tinfo(x.X.Type())
		if _, isC := x.X.(*ssa.Const); isC && !ti.agg {
			co := c.addConst(&Iface{t: ti, v: constVal(x.X.(*ssa.Const))})
			return func(fr *frame) { fr.regs[d] = fr.get(co) }
		}
		return func(fr *frame) { fr.regs[d] = &Iface{t: ti, v: fr.get(o)} }
	case *ssa.MakeMap:
		d := c.reg(x)
		ti := tinfo(x.Type())
		return func(fr *frame) { fr.regs[d] = newMap(ti) }
	case *ssa.MakeSlice:
		d, lo, co := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := tinfo(x.Type()).elem
		lti, cti := tinfo(x.Len.Type()), tinfo(x.Cap.Type())
		return func(fr *frame) {
			fr.regs[d] = fr.ex.makeSlice(et, fr.term(lo), lti, fr.term(co), cti)
		}
	case *ssa.MapUpdate:
		mo, ko, vo := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) {
			m := fr.get(mo).(*MapV)
			if m == nil {
				panic(&targetPanic{v: &Iface{t: fr.ex.p.tRTErr, v: mkStr("assignment to entry in nil map")}, msg: "assignment to entry in nil map", stack: fr.ex.backtrace()})
			}
			fr.ex.mapSet(m, fr.get(ko), fr.get(vo))
		}
	case *ssa.Next:
		d, o := c.reg(x), c.op(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := fr.get(o).(*strIter)
				if it.pos >= it.s.len() {
					fr.regs[d] = Tuple{tFalse, K(64, 0), K(32, 0)}
					return
				}
				p := it.pos
				r, n := fr.ex.decodeRune(it.s, p)
				it.pos += n
				fr.regs[d] = Tuple{tTrue, K(64, uint64(p)), r}
			}
		}
		tt := x.Type().(*types.Tuple)
		kz, vz := tinfo(tt.At(1).Type()), tinfo(tt.At(2).Type())
		return func(fr *frame) {
			it := fr.get(o).(*mapIter)
			for it.m != nil && it.pos < len(it.m.ents) {
				e := it.m.ents[it.pos]
				it.pos++
				if e.dead {
					continue
				}
				var k, v Value = e.k, e.v
				if kz.kind == kInvalid {
					k = nil
				}
				if vz.kind == kInvalid {
					v = nil
				}
				fr.regs[d] = Tuple{tTrue, k, v}
				return
			}
			fr.regs[d] = Tuple{tFalse, kz.zero, vz.zero}
		}
	case *ssa.Range:
		d, o := c.reg(x), c.op(x.X)
		return func(fr *frame) {
			switch v := fr.get(o).(type) {
			case *Str:
				fr.regs[d] = &strIter{s: v.snapshot()}
			case *MapV:
				fr.regs[d] = &mapIter{m: v}
			}
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			for len(fr.defers) > 0 {
				df := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				df.run(fr)
			}
		}
	case *ssa.Select:
		return c.selectInstr(x)
	case *ssa.Send:
		co, vo := c.op(x.Chan), c.op(x.X)
		return func(fr *frame) { fr.ex.chanSend(fr.get(co).(*ChanV), fr.get(vo)) }
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, o := c.reg(x), c.op(x.X)
		n := tinfo(x.Type().Underlying().(*types.Pointer).Elem()).n
		readOnly := true
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				readOnly = false
			}
		}
		return func(fr *frame) {
			s := fr.get(o).(*Slice)
			if s.len < n {
				fr.ex.tpanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
			}
			if s.a == nil {
				fr.regs[d] = nilPtr
				return
			}
			if s.off == 0 && s.a.n == n {
				fr.regs[d] = s.a
				return
			}
			if !readOnly {
				fr.ex.unsupported("pointer to an array inside a slice")
			}
			na := newArr(s.a.et, n)
			for i := 0; i < n; i++ {
				na.set(i, s.a.get(s.off+i))
			}
			fr.regs[d] = na
		}
	case *ssa.Store:
		return c.storeInstr(x)
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	}
	panic(fmt.Sprintf("unsupported instruction %T", in))
}

func copyIf(v Value, ti *TypeInfo) Value {
	if ti.agg {
		return copyVal(v)
	}
	return v
}

func (c *comp) storeInstr(x *ssa.Store) instr {
	vo := c.op(x.Val)
	switch a := x.Addr.(type) {
	case *ssa.FieldAddr:
		if onlyMem(a) {
			o, i := c.op(a.X), a.Field
			return func(fr *frame) {
				s, ok := fr.get(o).(*Struct)
				if !ok {
					fr.ex.fieldAddr(fr.get(o), i)
				}
				if s.ti.fields[i].agg {
					assignInto(s.f[i], fr.get(vo))
				} else {
					s.f[i] = fr.get(vo)
				}
			}
		}
	case *ssa.IndexAddr:
		if onlyMem(a) {
			xo, io := c.op(a.X), c.op(a.Index)
			signed := tinfo(a.Index.Type()).signed
			return func(fr *frame) {
				arr, i := fr.ex.elemAt(fr.get(xo), fr.term(io), signed)
				arr.assign(i, fr.get(vo))
			}
		}
	}
	ao := c.op(x.Addr)
	return func(fr *frame) { fr.ex.store(fr.get(ao), fr.get(vo)) }
}

// elemAt resolves an element address of a slice or pointer-to-array (index made concrete).
func (ex *Exec) elemAt(base Value, idx *Term, signed bool) (*Arr, int) {
	switch b := base.(type) {
	case *Slice:
		off, sym := ex.sliceIndex(b, idx, signed)
		if sym != nil {
			off = b.off + ex.concInt(ex.toIdx(sym, signed))
		}
		return b.a, off
	case *Arr:
		if idx.isConst() {
			i := int64(ex.toIdx(idx, signed).val)
			if i < 0 || i >= int64(b.n) {
				ex.tpanic("index out of range [%d] with length %d", i, b.n)
			}
			return b, int(i)
		}
		i64 := ex.toIdx(idx, signed)
		if !ex.Branch(ex.tt.ULt(i64, K(64, uint64(b.n)))) {
			ex.tpanic("index out of range with length %d", b.n)
		}
		return b, ex.concInt(i64)
	case nilPtrT:
		ex.nilDeref()
	}
	ex.unsupported("element address of %T", base)
	return nil, 0
}

func (ex *Exec) loadElem(base Value, idx *Term, signed bool) Value {
	switch b := base.(type) {
	case *Slice:
		off, sym := ex.sliceIndex(b, idx, signed)
		if sym == nil {
			return loadSlot(b.a.get(off), b.a.et)
		}
		return ex.loadIndexed(func(i int) Value { return loadSlot(b.a.get(b.off+i), b.a.et) }, b.len, sym, signed)
	case *Arr:
		if idx.isConst() {
			a, i := ex.elemAt(b, idx, signed)
			return loadSlot(a.get(i), a.et)
		}
		i64 := ex.toIdx(idx, signed)
		if !ex.Branch(ex.tt.ULt(i64, K(64, uint64(b.n)))) {
			ex.tpanic("index out of range with length %d", b.n)
		}
		return ex.loadIndexed(func(i int) Value { return loadSlot(b.get(i), b.et) }, b.n, i64, false)
	case nilPtrT:
		ex.nilDeref()
	}
	ex.unsupported("element of %T", base)
	return nil
}

func (ex *Exec) strIndex(s *Str, idx *Term, signed bool) Value {
	if idx.isConst() {
		i := int64(ex.toIdx(idx, signed).val)
		if i < 0 || i >= int64(s.len()) {
			ex.tpanic("index out of range [%d] with length %d", i, s.len())
		}
		return s.at(int(i))
	}
	i64 := ex.toIdx(idx, signed)
	if !ex.Branch(ex.tt.ULt(i64, K(64, uint64(s.len())))) {
		ex.tpanic("index out of range with length %d", s.len())
	}
	if s.len() <= 256 {
		// table lookup: merge
		lo, hi := int(i64.lo), s.len()-1
		if i64.hi < uint64(hi) {
			hi = int(i64.hi)
		}
		acc := s.at(hi)
		for i := hi - 1; i >= lo; i-- {
			acc = ex.tt.Ite(ex.tt.Eq(i64, K(64, uint64(i))), s.at(i), acc)
		}
		return acc
	}
	return s.at(ex.concInt(i64))
}

func (c *comp) index(x *ssa.Index) instr {
	d, xo, io := c.reg(x), c.op(x.X), c.op(x.Index)
	signed := tinfo(x.Index.Type()).signed
	if tinfo(x.X.Type()).kind == kString {
		return func(fr *frame) { fr.regs[d] = fr.ex.strIndex(fr.get(xo).(*Str), fr.term(io), signed) }
	}
	return func(fr *frame) { fr.regs[d] = fr.ex.loadElem(fr.get(xo), fr.term(io), signed) }
}

func (c *comp) unop(x *ssa.UnOp) instr {
	d := c.reg(x)
	switch x.Op {
	case token.MUL:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if onlyMem(a) {
				o, i := c.op(a.X), a.Field
				return func(fr *frame) {
					s, ok := fr.get(o).(*Struct)
					if !ok {
						fr.ex.fieldAddr(fr.get(o), i)
					}
					fr.regs[d] = loadSlot(s.f[i], s.ti.fields[i])
				}
			}
		case *ssa.IndexAddr:
			if onlyMem(a) {
				xo, io := c.op(a.X), c.op(a.Index)
				signed := tinfo(a.Index.Type()).signed
				return func(fr *frame) { fr.regs[d] = fr.ex.loadElem(fr.get(xo), fr.term(io), signed) }
			}
		}
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.ex.load(fr.get(o)) }
	case token.NOT:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.ex.tt.Not(fr.term(o)) }
	case token.SUB:
		o := c.op(x.X)
		if tinfo(x.X.Type()).kind == kFloat {
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FNeg(fr.term(o)) }
		}
		return func(fr *frame) { fr.regs[d] = fr.ex.tt.Neg(fr.term(o)) }
	case token.XOR:
		o := c.op(x.X)
		return func(fr *frame) { fr.regs[d] = fr.ex.tt.BNot(fr.term(o)) }
	case token.ARROW:
		o := c.op(x.X)
		comma := x.CommaOk
		return func(fr *frame) {
			v, ok := fr.ex.chanRecv(fr.get(o).(*ChanV))
			if comma {
				fr.regs[d] = Tuple{v, KB(ok)}
			} else {
				fr.regs[d] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (c *comp) binop(x *ssa.BinOp) instr {
	d, ao, bo := c.reg(x), c.op(x.X), c.op(x.Y)
	ti := tinfo(x.X.Type())
	yt := tinfo(x.Y.Type())
	op := x.Op
	switch ti.kind {
	case kInt:
		signed := ti.signed
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Add(fr.term(ao), fr.term(bo)) }
		case token.SUB:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Sub(fr.term(ao), fr.term(bo)) }
		case token.MUL:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Mul(fr.term(ao), fr.term(bo)) }
		case token.QUO, token.REM:
			var sop Op
			switch {
			case op == token.QUO && signed:
				sop = OpSDiv
			case op == token.QUO:
				sop = OpUDiv
			case signed:
				sop = OpSRem
			default:
				sop = OpURem
			}
			return func(fr *frame) {
				b := fr.term(bo)
				if b.isConst() && b.val == 0 || !b.isConst() && fr.ex.Branch(fr.ex.tt.Eq(b, K(b.w, 0))) {
					fr.ex.tpanic("integer divide by zero")
				}
				fr.regs[d] = fr.ex.tt.Div(sop, fr.term(ao), b)
			}
		case token.AND:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Bin(OpBAnd, fr.term(ao), fr.term(bo)) }
		case token.OR:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Bin(OpBOr, fr.term(ao), fr.term(bo)) }
		case token.XOR:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Bin(OpBXor, fr.term(ao), fr.term(bo)) }
		case token.AND_NOT:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Bin(OpBAnd, fr.term(ao), fr.ex.tt.BNot(fr.term(bo))) }
		case token.SHL, token.SHR:
			sop := OpShl
			if op == token.SHR {
				sop = OpLShr
				if signed {
					sop = OpAShr
				}
			}
			ysigned := yt.signed
			return func(fr *frame) {
				fr.regs[d] = fr.ex.shift(sop, fr.term(ao), fr.term(bo), ysigned)
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(fr *frame) {
				a, b := fr.term(ao), fr.term(bo)
				tt := fr.ex.tt
				o := op
				if o == token.GTR {
					a, b, o = b, a, token.LSS
				} else if o == token.GEQ {
					a, b, o = b, a, token.LEQ
				}
				switch {
				case o == token.LSS && signed:
					fr.regs[d] = tt.SLt(a, b)
				case o == token.LSS:
					fr.regs[d] = tt.ULt(a, b)
				case signed:
					fr.regs[d] = tt.SLe(a, b)
				default:
					fr.regs[d] = tt.ULe(a, b)
				}
			}
		}
	case kFloat:
		var sop Op
		switch op {
		case token.ADD:
			sop = OpFAdd
		case token.SUB:
			sop = OpFSub
		case token.MUL:
			sop = OpFMul
		case token.QUO:
			sop = OpFDiv
		case token.LSS:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FLt(fr.term(ao), fr.term(bo)) }
		case token.LEQ:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FLe(fr.term(ao), fr.term(bo)) }
		case token.GTR:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FLt(fr.term(bo), fr.term(ao)) }
		case token.GEQ:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FLe(fr.term(bo), fr.term(ao)) }
		case token.EQL:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.FEq(fr.term(ao), fr.term(bo)) }
		case token.NEQ:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Not(fr.ex.tt.FEq(fr.term(ao), fr.term(bo))) }
		}
		return func(fr *frame) { fr.regs[d] = fr.ex.tt.Bin(sop, fr.term(ao), fr.term(bo)) }
	case kString:
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = concatStr(fr.get(ao).(*Str), fr.get(bo).(*Str)) }
		case token.LSS:
			return func(fr *frame) { fr.regs[d] = fr.ex.strLess(fr.get(ao).(*Str), fr.get(bo).(*Str), false) }
		case token.LEQ:
			return func(fr *frame) { fr.regs[d] = fr.ex.strLess(fr.get(ao).(*Str), fr.get(bo).(*Str), true) }
		case token.GTR:
			return func(fr *frame) { fr.regs[d] = fr.ex.strLess(fr.get(bo).(*Str), fr.get(ao).(*Str), false) }
		case token.GEQ:
			return func(fr *frame) { fr.regs[d] = fr.ex.strLess(fr.get(bo).(*Str), fr.get(ao).(*Str), true) }
		}
	case kBool:
		switch op {
		case token.AND:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.And(fr.term(ao), fr.term(bo)) }
		case token.OR:
			return func(fr *frame) { fr.regs[d] = fr.ex.tt.Or(fr.term(ao), fr.term(bo)) }
		}
	case kComplex:
		panic("complex arithmetic")
	}
	if op == token.EQL || op == token.NEQ {
		neg := op == token.NEQ
		return func(fr *frame) {
			t := fr.ex.equal(fr.get(ao), fr.get(bo), ti)
			if neg {
				t = fr.ex.tt.Not(t)
			}
			fr.regs[d] = t
		}
	}
	panic(fmt.Sprintf("binop %s on %s", op, x.X.Type()))
}

func (ex *Exec) shift(op Op, a, n *Term, nsigned bool) *Term {
	tt := ex.tt
	if nsigned {
		if n.isConst() {
			if sext64(n.val, n.w) < 0 {
				ex.tpanic("negative shift amount")
			}
		} else if ex.Branch(tt.SLt(n, K(n.w, 0))) {
			ex.tpanic("negative shift amount")
		}
	}
	if n.isConst() {
		v := n.val
		if v >= uint64(a.w) {
			v = uint64(a.w)
			if op != OpAShr {
				return K(a.w, 0)
			}
			v = uint64(a.w) - 1
		}
		return tt.Bin(op, a, K(a.w, v))
	}
	if n.w <= a.w {
		return tt.Bin(op, a, tt.ZExt(n, a.w))
	}
	big := tt.ULe(K(n.w, uint64(a.w)), n)
	small := tt.Bin(op, a, tt.Extract(n, a.w-1, 0))
	over := K(a.w, 0)
	if op == OpAShr {
		over = tt.Bin(op, a, K(a.w, uint64(a.w-1)))
	}
	return tt.Ite(big, over, small)
}

func concatStr(a, b *Str) *Str {
	if a.len() == 0 {
		return b.snapshot()
	}
	if b.len() == 0 {
		return a.snapshot()
	}
	if a.b == nil && a.arr == nil && b.b == nil && b.arr == nil {
		return mkStr(a.s + b.s)
	}
	out := make([]*Term, 0, a.len()+b.len())
	for i := 0; i < a.len(); i++ {
		out = append(out, a.at(i))
	}
	for i := 0; i < b.len(); i++ {
		out = append(out, b.at(i))
	}
	return strFromTerms(out)
}

func (ex *Exec) strEq(a, b *Str) *Term {
	if a.len() != b.len() {
		return tFalse
	}
	if a.b == nil && a.arr == nil && b.b == nil && b.arr == nil {
		return KB(a.s == b.s)
	}
	acc := tTrue
	for i := 0; i < a.len(); i++ {
		acc = ex.tt.And(acc, ex.tt.Eq(a.at(i), b.at(i)))
		if acc.isFalse() {
			return acc
		}
	}
	return acc
}

func (ex *Exec) strLess(a, b *Str, orEq bool) *Term {
	if a.b == nil && a.arr == nil && b.b == nil && b.arr == nil {
		if orEq {
			return KB(a.s <= b.s)
		}
		return KB(a.s < b.s)
	}
	n := a.len()
	if b.len() < n {
		n = b.len()
	}
	acc := KB(a.len() < b.len() || orEq && a.len() == b.len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(i), b.at(i)
		acc = ex.tt.Or(ex.tt.ULt(x, y), ex.tt.And(ex.tt.Eq(x, y), acc))
	}
	return acc
}

// equal implements == for two values of static type ti.
func (ex *Exec) equal(a, b Value, ti *TypeInfo) *Term {
	switch ti.kind {
	case kBool, kInt:
		return ex.tt.Eq(a.(*Term), b.(*Term))
	case kFloat:
		return ex.tt.FEq(a.(*Term), b.(*Term))
	case kString:
		return ex.strEq(a.(*Str), b.(*Str))
	case kStruct:
		x, y := a.(*Struct), b.(*Struct)
		acc := tTrue
		for i, f := range ti.fields {
			acc = ex.tt.And(acc, ex.equal(x.f[i], y.f[i], f))
		}
		return acc
	case kArray:
		x, y := a.(*Arr), b.(*Arr)
		acc := tTrue
		for i := 0; i < x.n; i++ {
			acc = ex.tt.And(acc, ex.equal(x.get(i), y.get(i), ti.elem))
		}
		return acc
	case kIface:
		x, xo := a.(*Iface)
		y, yo := b.(*Iface)
		if !xo || !yo {
			ex.unsupported("interface compared with %T %T", a, b)
		}
		if x.t == nil || y.t == nil {
			return KB(x.t == nil && y.t == nil)
		}
		if x.t != y.t {
			return tFalse
		}
		switch x.t.kind {
		case kSlice, kMap, kFunc:
			ex.tpanic("comparing uncomparable type %s", x.t.t)
		}
		return ex.equal(x.v, y.v, x.t)
	case kSlice:
		return KB(a.(*Slice).a == nil && b.(*Slice).a == nil) // only nil comparisons exist
	case kMap:
		return KB(a.(*MapV) == b.(*MapV))
	case kFunc:
		return KB(a.(*Closure) == nil && b.(*Closure) == nil)
	case kChan:
		return KB(a.(*ChanV) == b.(*ChanV))
	}
	return KB(a == b)
}

func (ex *Exec) convert(v Value, from, to *TypeInfo) Value {
	tt := ex.tt
	switch to.kind {
	case kInt:
		switch from.kind {
		case kInt:
			t := v.(*Term)
			if to.w <= from.w {
				return tt.Extract(t, to.w-1, 0)
			}
			if from.signed {
				return tt.SExt(t, to.w)
			}
			return tt.ZExt(t, to.w)
		case kFloat:
			t := v.(*Term)
			if t.w == 32 {
				t = tt.F32To64(t)
			}
			return tt.FToI(t, to.w, to.signed)
		case kUnsafe, kPtr:
			return K(64, 0x1000)
		}
	case kFloat:
		t := v.(*Term)
		switch from.kind {
		case kInt:
			var r *Term
			if from.signed {
				r = tt.SToF(t)
			} else {
				r = tt.UToF(t)
			}
			if to.w == 32 {
				r = tt.F64To32(r)
			}
			return r
		case kFloat:
			if from.w == to.w {
				return t
			}
			if to.w == 32 {
				return tt.F64To32(t)
			}
			return tt.F32To64(t)
		}
	case kString:
		switch from.kind {
		case kString:
			return v
		case kInt:
			t := v.(*Term)
			r := ex.concInt(t)
			return mkStr(string(rune(r)))
		case kSlice:
			s := ex.concLen(v.(*Slice))
			if from.elem.w == 8 {
				return ex.bytesToStr(s)
			}
			var rs []rune
			for i := 0; i < s.len; i++ {
				rs = append(rs, rune(ex.concInt(s.a.get(s.off+i).(*Term))))
			}
			return mkStr(string(rs))
		}
	case kSlice:
		if from.kind == kString {
			s := v.(*Str)
			if to.elem.w == 8 {
				return ex.strToBytes(s, to.elem)
			}
			rs := []rune(ex.concStr(s))
			a := newArr(to.elem, len(rs))
			for i, r := range rs {
				a.set(i, K(32, uint64(uint32(r))))
			}
			return &Slice{a: a, len: len(rs), cap_: len(rs)}
		}
		return v
	case kPtr, kUnsafe:
		return v
	case kComplex:
		return v
	}
	if to.kind == from.kind {
		return v
	}
	ex.unsupported("conversion %s -> %s", from.t, to.t)
	return nil
}

func (ex *Exec) bytesToStr(s *Slice) *Str {
	if s.len == 0 {
		return emptyStr
	}
	b := make([]*Term, s.len)
	for i := range b {
		b[i] = s.a.get(s.off + i).(*Term)
	}
	return strFromTerms(b)
}

func (ex *Exec) strToBytes(s *Str, et *TypeInfo) *Slice {
	n := s.len()
	if n == 0 {
		return &Slice{a: newArr(et, 0)}
	}
	c := roundupsize(int64(n))
	a := newArr(et, int(c))
	for i := 0; i < n; i++ {
		a.set(i, s.at(i))
	}
	return &Slice{a: a, len: n, cap_: int(c)}
}

func (ex *Exec) decodeRune(s *Str, p int) (*Term, int) {
	t := s.at(p)
	if !t.isConst() {
		if ex.Branch(ex.tt.ULt(t, K(8, 0x80))) {
			return ex.tt.ZExt(t, 32), 1
		}
	} else if t.val < 0x80 {
		return K(32, t.val), 1
	}
	// utf8.DecodeRune, one branch per class of lead byte and of continuation bytes
	tt := ex.tt
	bad := K(32, uint64(uint32(utf8.RuneError)))
	in := func(b *Term, lo, hi uint64) bool {
		if b.isConst() {
			return lo <= b.val && b.val <= hi
		}
		return ex.Branch(tt.And(tt.ULe(K(8, lo), b), tt.ULe(b, K(8, hi))))
	}
	cont := func(i int, lo, hi uint64) bool { return i < s.len() && in(s.at(i), lo, hi) }
	bits := func(b *Term, mask uint64, sh int) *Term {
		return tt.Bin(OpShl, tt.ZExt(tt.Bin(OpBAnd, b, K(8, mask)), 32), K(32, uint64(sh)))
	}
	or := func(ts ...*Term) *Term {
		r := ts[0]
		for _, x := range ts[1:] {
			r = tt.Bin(OpBOr, r, x)
		}
		return r
	}
	switch {
	case in(t, 0xC2, 0xDF):
		if cont(p+1, 0x80, 0xBF) {
			return or(bits(t, 0x1F, 6), bits(s.at(p+1), 0x3F, 0)), 2
		}
	case in(t, 0xE0, 0xEF):
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(t, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(t, 0xED, 0xED) {
			hi = 0x9F
		}
		if cont(p+1, lo, hi) && cont(p+2, 0x80, 0xBF) {
			return or(bits(t, 0x0F, 12), bits(s.at(p+1), 0x3F, 6), bits(s.at(p+2), 0x3F, 0)), 3
		}
	case in(t, 0xF0, 0xF4):
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(t, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(t, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if cont(p+1, lo, hi) && cont(p+2, 0x80, 0xBF) && cont(p+3, 0x80, 0xBF) {
			return or(bits(t, 0x07, 18), bits(s.at(p+1), 0x3F, 12), bits(s.at(p+2), 0x3F, 6), bits(s.at(p+3), 0x3F, 0)), 4
		}
	}
	return bad, 1
}

func (c *comp) typeAssert(x *ssa.TypeAssert) instr {
	d, o := c.reg(x), c.op(x.X)
	to := tinfo(x.AssertedType)
	comma := x.CommaOk
	isI := to.kind == kIface
	return func(fr *frame) {
		v := fr.get(o).(*Iface)
		ok := false
		var r Value
		if isI {
			ok = v.t != nil && fr.ex.p.implements(v.t, to)
			r = v
		} else {
			ok = v.t == to
			r = v.v
		}
		if comma {
			if ok {
				fr.regs[d] = Tuple{copyIf(r, to), tTrue}
			} else {
				fr.regs[d] = Tuple{to.mkZero(), tFalse}
			}
			return
		}
		if !ok {
			if v.t == nil {
				fr.ex.tpanic("interface conversion: interface is nil, not %s", to.t)
			}
			fr.ex.tpanic("interface conversion: interface is %s, not %s", v.t.t, to.t)
		}
		fr.regs[d] = copyIf(r, to)
	}
}

func (c *comp) slice(x *ssa.Slice) instr {
	d, xo := c.reg(x), c.op(x.X)
	opt := func(v ssa.Value) (int, bool, bool) {
		if v == nil {
			return 0, false, false
		}
		return c.op(v), tinfo(v.Type()).signed, true
	}
	lo, ls, hasL := opt(x.Low)
	hi, hs, hasH := opt(x.High)
	mx, ms, hasM := opt(x.Max)
	return func(fr *frame) {
		ex := fr.ex
		base := fr.get(xo)
		var a *Arr
		var off, length, capn int
		var str *Str
		switch b := base.(type) {
		case *Str:
			str = b
			length, capn = b.len(), b.len()
		case *Slice:
			b = ex.concLen(b)
			a, off, length, capn = b.a, b.off, b.len, b.cap_
		case *Arr:
			a, length, capn = b, b.n, b.n
		case nilPtrT:
			ex.nilDeref()
		default:
			ex.unsupported("slice of %T", base)
		}
		l, h, m := 0, length, capn
		// bounds are checked on the terms first, so that the out-of-range side stays symbolic
		var lt, ht, mt *Term = K(64, 0), K(64, uint64(length)), K(64, uint64(capn))
		if hasM {
			mt = ex.toIdx(fr.term(mx), ms)
			if !ex.Branch(ex.tt.ULe(mt, K(64, uint64(capn)))) {
				ex.tpanic("slice bounds out of range [::%s] with capacity %d", termStr(mt), capn)
			}
		}
		if hasH {
			ht = ex.toIdx(fr.term(hi), hs)
			if !ex.Branch(ex.tt.ULe(ht, mt)) {
				ex.tpanic("slice bounds out of range [:%s] with capacity %d", termStr(ht), capn)
			}
		}
		if hasL {
			lt = ex.toIdx(fr.term(lo), ls)
		}
		if !ex.Branch(ex.tt.ULe(lt, ht)) {
			ex.tpanic("slice bounds out of range [%s:%s]", termStr(lt), termStr(ht))
		}
		l, h, m = ex.concInt(lt), ex.concInt(ht), ex.concInt(mt)
		if str != nil {
			fr.regs[d] = str.sub(l, h)
			return
		}
		if a == nil {
			fr.regs[d] = nilSlice
			return
		}
		fr.regs[d] = &Slice{a: a, off: off + l, len: h - l, cap_: m - l}
	}
}

func termStr(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(int64(t.val))
	}
	return "?"
}

func (ex *Exec) concLen(s *Slice) *Slice {
	if s.slen == nil {
		return s
	}
	n := ex.concInt(s.slen)
	if n < 0 || n > 1<<24 {
		ex.unsupported("slice length %d", n)
	}
	a := newArr(s.a.et, n)
	for i := 0; i < n && i>>chunkBits < len(s.a.ch); i++ {
		if s.a.ch[i>>chunkBits] != nil && s.a.ch[i>>chunkBits][i&(chunkSize-1)] != nil {
			a.set(i, s.a.get(i))
		}
	}
	s.a, s.slen, s.len, s.cap_ = a, nil, n, n
	return s
}

func (ex *Exec) makeSlice(et *TypeInfo, l *Term, lti *TypeInfo, cp *Term, cti *TypeInfo) Value {
	l64, c64 := ex.toIdx(l, lti.signed), ex.toIdx(cp, cti.signed)
	esz := et.size
	if esz == 0 {
		esz = 1
	}
	maxN := uint64((int64(1)<<47 - 1) / esz)
	if !ex.Branch(ex.tt.ULe(l64, K(64, maxN))) {
		ex.tpanic("makeslice: len out of range")
	}
	if cp != l {
		if !ex.Branch(ex.tt.And(ex.tt.ULe(c64, K(64, maxN)), ex.tt.ULe(l64, c64))) {
			ex.tpanic("makeslice: cap out of range")
		}
	}
	if ex.allocMax > 0 {
		ex.Assert(ex.tt.ULe(c64, K(64, uint64(ex.allocMax/esz))), "allocation stays within the fixed limit")
	}
	if !l64.isConst() && (cp == l || l64 == c64) {
		a := &Arr{et: et, grow: true, n: 1 << 40}
		return &Slice{a: a, slen: l64}
	}
	if !ex.Branch(ex.tt.ULe(c64, K(64, uint64(int64(1)<<34/esz)))) {
		ex.flush()
		ex.violate("panic", "no panic", "out of memory: more than 16 GiB allocated at once", ex.model)
		panic(pathEnd{kind: "violation"})
	}
	if !c64.isConst() && !ex.Branch(ex.tt.ULe(c64, K(64, 16))) {
		ex.note("capacities above 16 of one allocation are not distinguished")
		return &Slice{a: &Arr{et: et, grow: true, n: 1 << 40}, len: ex.concInt(l64), cap_: 1 << 40}
	}
	n, m := ex.concInt(l64), ex.concInt(c64)
	if m > 1<<28 {
		ex.unsupported("allocation of %d elements", m)
	}
	return &Slice{a: newArr(et, m), len: n, cap_: m}
}
