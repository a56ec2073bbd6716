package main

// Calls, builtins, maps, channels, append.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callFn func(fr *frame, deferOf *frame) Value

func (c *comp) call(cc *ssa.CallCommon) callFn {
	var ops []int
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc)
	}
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	if cc.IsInvoke() {
		ro := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame, deferOf *frame) Value {
			r := fr.get(ro).(*Iface)
			if r.t == nil {
				fr.ex.nilDeref()
			}
			f := fr.ex.p.method(r.t, m)
			if f == nil {
				fr.ex.unsupported("method %s of %s", m.Name(), r.t.t)
			}
			args := make([]Value, len(ops)+1)
			args[0] = r.v
			for i, o := range ops {
				args[i+1] = fr.get(o)
			}
			return fr.ex.callFrame(f, args, nil, deferOf)
		}
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			// initialisers of imported packages run lazily
			if fn.Name() == "init" && fn.Synthetic == "package initializer" && c.fn.Name() == "init" {
				return func(fr *frame, deferOf *frame) Value { return nil }
			}
			f := c.p.funcOf(fn)
			return func(fr *frame, deferOf *frame) Value {
				var buf [8]Value
				var args []Value
				if len(ops) <= 8 {
					args = buf[:len(ops)]
				} else {
					args = make([]Value, len(ops))
				}
				for i, o := range ops {
					args[i] = fr.get(o)
				}
				return fr.ex.callFrame(f, args, nil, deferOf)
			}
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame, deferOf *frame) Value {
		cl, ok := fr.get(fo).(*Closure)
		if !ok || cl == nil {
			fr.ex.nilDeref()
		}
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = fr.get(o)
		}
		if cl.in != nil {
			return cl.in(fr.ex, args)
		}
		return fr.ex.callFrame(cl.fn, args, cl.env, deferOf)
	}
}

// deferCall evaluates the callee and arguments now and returns the call to run later.
func (c *comp) deferCall(cc *ssa.CallCommon) func(fr *frame) func(fr *frame) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var ops []int
		for _, a := range cc.Args {
			ops = append(ops, c.op(a))
		}
		name := b.Name()
		tis := argTypes(cc)
		return func(fr *frame) func(*frame) {
			args := make([]Value, len(ops))
			for i, o := range ops {
				args[i] = fr.get(o)
			}
			return func(f2 *frame) {
				if name == "recover" {
					return // recover called directly by defer does nothing useful here
				}
				f2.ex.runBuiltin(f2, name, args, tis, nil, nil)
			}
		}
	}
	var ops []int
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	if cc.IsInvoke() {
		ro := c.op(cc.Value)
		m := cc.Method
		return func(fr *frame) func(*frame) {
			r := fr.get(ro).(*Iface)
			if r.t == nil {
				fr.ex.nilDeref()
			}
			args := make([]Value, len(ops)+1)
			args[0] = r.v
			for i, o := range ops {
				args[i+1] = fr.get(o)
			}
			return func(f2 *frame) {
				f2.ex.callFrame(f2.ex.p.method(r.t, m), args, nil, f2)
			}
		}
	}
	fo := c.op(cc.Value)
	return func(fr *frame) func(*frame) {
		cl, ok := fr.get(fo).(*Closure)
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = fr.get(o)
		}
		return func(f2 *frame) {
			if !ok || cl == nil {
				f2.ex.nilDeref()
			}
			if cl.in != nil {
				cl.in(f2.ex, args)
				return
			}
			f2.ex.callFrame(cl.fn, args, cl.env, f2)
		}
	}
}

func argTypes(cc *ssa.CallCommon) []*TypeInfo {
	var out []*TypeInfo
	for _, a := range cc.Args {
		out = append(out, tinfo(a.Type()))
	}
	return out
}

func (c *comp) builtin(b *ssa.Builtin, cc *ssa.CallCommon) callFn {
	name := b.Name()
	if name == "ssa:deferstack" {
		return func(fr *frame, _ *frame) Value { return fr }
	}
	var ops []int
	for _, a := range cc.Args {
		ops = append(ops, c.op(a))
	}
	tis := argTypes(cc)
	sig := cc.Signature()
	var res *TypeInfo
	if sig.Results().Len() == 1 {
		res = tinfo(sig.Results().At(0).Type())
	}
	if name == "len" && len(ops) == 1 {
		o := ops[0]
		return func(fr *frame, _ *frame) Value { return fr.ex.lenOf(fr.get(o)) }
	}
	return func(fr *frame, deferOf *frame) Value {
		args := make([]Value, len(ops))
		for i, o := range ops {
			args[i] = fr.get(o)
		}
		return fr.ex.runBuiltin(fr, name, args, tis, res, sig)
	}
}

func (ex *Exec) lenOf(v Value) Value {
	switch x := v.(type) {
	case *Slice:
		if x.slen != nil {
			return x.slen
		}
		return K(64, uint64(x.len))
	case *Str:
		return K(64, uint64(x.len()))
	case *MapV:
		if x == nil {
			return K(64, 0)
		}
		return K(64, uint64(x.count))
	case *ChanV:
		if x == nil {
			return K(64, 0)
		}
		return K(64, uint64(len(x.buf)))
	case *Arr:
		return K(64, uint64(x.n))
	}
	ex.unsupported("len of %T", v)
	return nil
}

func (ex *Exec) runBuiltin(fr *frame, name string, args []Value, tis []*TypeInfo, res *TypeInfo, sig *types.Signature) Value {
	switch name {
	case "len":
		return ex.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			if x.slen != nil {
				return x.slen
			}
			return K(64, uint64(x.cap_))
		case *ChanV:
			if x == nil {
				return K(64, 0)
			}
			return K(64, uint64(x.cap_))
		case *Arr:
			return K(64, uint64(x.n))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := ex.concLen(args[0].(*Slice))
		switch y := args[1].(type) {
		case *Str:
			return ex.appendN(s, y.len(), tis[0].elem, func(i int) Value { return y.at(i) }, nil, 0)
		case *Slice:
			y = ex.concLen(y)
			if y.len == 0 {
				return s
			}
			return ex.appendN(s, y.len, tis[0].elem, func(i int) Value { return y.a.get(y.off + i) }, y.a, y.off)
		}
	case "copy":
		d := ex.concLen(args[0].(*Slice))
		var n int
		switch y := args[1].(type) {
		case *Str:
			n = min(d.len, y.len())
			if y.arr != nil {
				y = &Str{b: append([]*Term(nil), y.terms()...), n: y.n}
			}
			for i := 0; i < n; i++ {
				d.a.set(d.off+i, y.at(i))
			}
		case *Slice:
			y = ex.concLen(y)
			n = min(d.len, y.len)
			if n > 0 {
				moveElems(d.a, d.off, y.a, y.off, n)
			}
		}
		ex.nInstr += int64(n / 8)
		return K(64, uint64(n))
	case "delete":
		m := args[0].(*MapV)
		if m == nil {
			return nil
		}
		ex.mapDelete(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.ents, x.idx, x.nsym, x.count = nil, map[any]*mapEnt{}, 0, 0
			}
		case *Slice:
			x = ex.concLen(x)
			for i := 0; i < x.len; i++ {
				x.a.assign(x.off+i, x.a.et.mkZero())
			}
		}
		return nil
	case "close":
		c := args[0].(*ChanV)
		if c == nil {
			ex.tpanic("close of nil channel")
		}
		if c.closed {
			ex.tpanic("close of closed channel")
		}
		c.closed = true
		return nil
	case "panic":
		v := args[0].(*Iface)
		panic(&targetPanic{v: v, msg: ex.panicString(v), stack: ex.backtrace()})
	case "recover":
		if fr != nil && fr.deferOf != nil && fr.deferOf.panicV != nil {
			p := fr.deferOf.panicV
			fr.deferOf.panicV = nil
			return p.v
		}
		return nilIface
	case "print", "println":
		return nil
	case "min", "max":
		acc := args[0]
		for _, b := range args[1:] {
			var lt *Term
			switch tis[0].kind {
			case kInt:
				if tis[0].signed {
					lt = ex.tt.SLt(b.(*Term), acc.(*Term))
				} else {
					lt = ex.tt.ULt(b.(*Term), acc.(*Term))
				}
			case kFloat:
				lt = ex.tt.FLt(b.(*Term), acc.(*Term))
			case kString:
				lt = ex.strLess(b.(*Str), acc.(*Str), false)
			}
			if name == "max" {
				lt = ex.tt.Not(ex.tt.Or(lt, ex.equal(b, acc, tis[0])))
			}
			if x, ok := acc.(*Term); ok {
				acc = ex.tt.Ite(lt, b.(*Term), x)
			} else if ex.Branch(lt) {
				acc = b
			}
		}
		return acc
	case "String": // unsafe.String
		n := ex.concInt(args[1].(*Term))
		if n == 0 {
			return emptyStr
		}
		switch p := args[0].(type) {
		case ElemPtr:
			return &Str{arr: p.a, off: p.i, n: n}
		case StrPtr:
			return p.s.sub(0, n)
		case nilPtrT:
			ex.tpanic("unsafe.String: ptr is nil and len is not zero")
		}
		ex.unsupported("unsafe.String of %T", args[0])
	case "StringData":
		s := args[0].(*Str)
		if s.len() == 0 {
			return nilPtr
		}
		if s.arr != nil {
			return ElemPtr{s.arr, s.off}
		}
		return StrPtr{s}
	case "SliceData":
		s := ex.concLen(args[0].(*Slice))
		if s.a == nil {
			return nilPtr
		}
		if s.cap_ == 0 {
			return ElemPtr{s.a, 0}
		}
		return ElemPtr{s.a, s.off}
	case "Slice": // unsafe.Slice
		n := ex.concInt(args[1].(*Term))
		switch p := args[0].(type) {
		case ElemPtr:
			return &Slice{a: p.a, off: p.i, len: n, cap_: n}
		case StrPtr:
			if res == nil {
				break
			}
			a := newArr(res.elem, n)
			for i := 0; i < n; i++ {
				a.set(i, p.s.at(i))
			}
			return &Slice{a: a, len: n, cap_: n}
		case nilPtrT:
			if n == 0 {
				return nilSlice
			}
			ex.tpanic("unsafe.Slice: ptr is nil and len is not zero")
		}
		ex.unsupported("unsafe.Slice of %T", args[0])
	case "ssa:wrapnilchk":
		if _, ok := args[0].(nilPtrT); ok {
			ex.nilDeref()
		}
		return args[0]
	}
	ex.unsupported("builtin %s", name)
	return nil
}

func moveElems(d *Arr, do int, s *Arr, so int, n int) {
	if d == s && do > so {
		for i := n - 1; i >= 0; i-- {
			moveOne(d, do+i, s, so+i)
		}
		return
	}
	for i := 0; i < n; i++ {
		moveOne(d, do+i, s, so+i)
	}
}

func moveOne(d *Arr, di int, s *Arr, si int) {
	if d.et.agg {
		assignInto(d.get(di), s.get(si))
	} else {
		d.set(di, s.get(si))
	}
}

func (ex *Exec) appendN(s *Slice, n int, et *TypeInfo, at func(int) Value, src *Arr, srcOff int) Value {
	if n == 0 {
		return s
	}
	ex.nInstr += int64(n / 8)
	nl := s.len + n
	if nl <= s.cap_ {
		if src != nil {
			moveElems(s.a, s.off+s.len, src, srcOff, n)
		} else {
			for i := 0; i < n; i++ {
				s.a.assign(s.off+s.len+i, at(i))
			}
		}
		return &Slice{a: s.a, off: s.off, len: nl, cap_: s.cap_}
	}
	c := growCap(s.cap_, nl, et.size)
	if ex.allocMax > 0 && int64(c)*et.size > ex.allocMax {
		ex.Assert(tFalse, "allocation stays within the fixed limit")
	}
	a := newArr(et, c)
	for i := 0; i < s.len; i++ {
		a.assign(i, s.a.get(s.off+i))
	}
	for i := 0; i < n; i++ {
		a.assign(s.len+i, at(i))
	}
	return &Slice{a: a, len: nl, cap_: c}
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int64) int64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, need int, esz int64) int {
	nc := old
	double := nc + nc
	if need > double {
		nc = need
	} else if old < 256 {
		nc = double
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	mem := roundupsize(int64(nc) * esz)
	return int(mem / esz)
}

// ---------- maps ----------

func newMap(ti *TypeInfo) *MapV {
	return &MapV{idx: map[any]*mapEnt{}, kt: ti.key, vt: ti.elem}
}

type ikey struct {
	t *TypeInfo
	k any
}

// keyOf builds a comparable native key for fully concrete keys.
func (ex *Exec) keyOf(v Value, ti *TypeInfo) (any, bool) {
	switch ti.kind {
	case kBool, kInt:
		t := v.(*Term)
		if !t.isConst() {
			return nil, false
		}
		return t.val, true
	case kFloat:
		t := v.(*Term)
		if !t.isConst() {
			return nil, false
		}
		return fval(t), true
	case kString:
		s, ok := v.(*Str).concrete()
		return s, ok
	case kIface:
		x := v.(*Iface)
		if x.t == nil {
			return ikey{nil, nil}, true
		}
		switch x.t.kind {
		case kSlice, kMap, kFunc:
			ex.tpanic("hash of unhashable type %s", x.t.t)
		}
		k, ok := ex.keyOf(x.v, x.t)
		return ikey{x.t, k}, ok
	case kStruct:
		var sb strings.Builder
		s := v.(*Struct)
		for i, f := range ti.fields {
			k, ok := ex.keyOf(s.f[i], f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return sb.String(), true
	case kArray:
		var sb strings.Builder
		a := v.(*Arr)
		for i := 0; i < a.n; i++ {
			k, ok := ex.keyOf(a.get(i), ti.elem)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return sb.String(), true
	}
	return v, true
}

func (ex *Exec) mapFind(m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	ck, ok := ex.keyOf(k, m.kt)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ex.Branch(ex.equal(k, e.k, m.kt)) {
			return e
		}
	}
	return nil
}

func (ex *Exec) mapSet(m *MapV, k, v Value) {
	if s, ok := k.(*Str); ok {
		k = s.snapshot()
	}
	if e := ex.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.count++
	if ck, ok := ex.keyOf(k, m.kt); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (ex *Exec) mapDelete(m *MapV, k Value) {
	e := ex.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.count--
	if ck, ok := ex.keyOf(e.k, m.kt); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	if m.count == 0 {
		m.ents = nil
	}
}

// ---------- channels (no blocking threads: a block is a deadlock of the path) ----------

func (ex *Exec) chanSend(c *ChanV, v Value) {
	if c == nil {
		panic(pathEnd{kind: "deadlock", msg: "send on nil channel"})
	}
	if c.closed {
		ex.tpanic("send on closed channel")
	}
	if len(c.buf) >= c.cap_ {
		panic(pathEnd{kind: "deadlock", msg: "send blocks"})
	}
	c.buf = append(c.buf, v)
}

func (ex *Exec) chanRecv(c *ChanV) (Value, bool) {
	if c == nil {
		panic(pathEnd{kind: "deadlock", msg: "receive from nil channel"})
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if c.closed {
		return c.et.mkZero(), false
	}
	panic(pathEnd{kind: "deadlock", msg: "receive blocks"})
}

func (c *comp) selectInstr(x *ssa.Select) instr {
	d := c.reg(x)
	type st struct {
		ch, val int
		send    bool
		et      *TypeInfo
	}
	var sts []st
	for _, s := range x.States {
		e := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, et: tinfo(s.Chan.Type()).elem}
		if e.send {
			e.val = c.op(s.Send)
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		res := Tuple{K(64, ^uint64(0)), tFalse}
		for _, s := range sts {
			if !s.send {
				res = append(res, s.et.mkZero())
			}
		}
		ri := 2
		for i, s := range sts {
			ch := fr.get(s.ch).(*ChanV)
			if s.send {
				if ch != nil && !ch.closed && len(ch.buf) < ch.cap_ {
					ch.buf = append(ch.buf, fr.get(s.val))
					res[0] = K(64, uint64(i))
					fr.regs[d] = res
					return
				}
				continue
			}
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				v, ok := fr.ex.chanRecv(ch)
				res[0], res[1], res[ri] = K(64, uint64(i)), KB(ok), v
				fr.regs[d] = res
				return
			}
			ri++
		}
		if blocking {
			panic(pathEnd{kind: "deadlock", msg: "select blocks"})
		}
		fr.regs[d] = res
	}
}

func (ex *Exec) panicString(v *Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch v.t.kind {
	case kString:
		if s, ok := v.v.(*Str).concrete(); ok {
			return s
		}
		return "<symbolic string>"
	case kInt:
		return termStr(v.v.(*Term))
	}
	return "panic value of type " + v.t.t.String()
}
