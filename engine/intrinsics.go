package main

// Models of functions that have no Go body, rely on unsafe/reflect, or are
// better decided as one term.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type intrinsic func(ex *Exec, args []Value) Value

var intrinsics map[string]func(ex *Exec, args []Value) Value

type prefixIntr struct {
	prefix string
	mk     func(f *Func) func(ex *Exec, args []Value) Value
}

var intrinsicPrefixes []prefixIntr

const rtPath = "github.com/IfanTsai/metis/verif/rt"

var skipInit = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "syscall": true, "internal/poll": true,
	"internal/reflectlite": true, "internal/godebug": true, "unique": true, "internal/abi": true,
	"internal/cpu": true, "sync": true, "sync/atomic": true, "internal/testlog": true, "crypto/rand": true,
	"math/rand": true, "math/rand/v2": true, "regexp": true, "regexp/syntax": true,
	"go.uber.org/zap": true, "go.uber.org/zap/zapcore": true, "github.com/spf13/viper": true,
}

var natives = map[string]any{
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.Quote":   strconv.Quote,
	"strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Fields": strings.Fields,
	"strings.Split": strings.Split, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
	"strings.Contains": strings.Contains, "strings.Count": strings.Count, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Trim": strings.Trim, "strings.TrimRight": strings.TrimRight,
	"strings.TrimLeft": strings.TrimLeft, "strings.LastIndex": strings.LastIndex, "strings.ContainsAny": strings.ContainsAny,
	"strings.IndexAny": strings.IndexAny, "strings.Compare": strings.Compare, "strings.SplitN": strings.SplitN,
	"strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt,
	"math.Mod": math.Mod, "math.Pow": math.Pow, "math.Log": math.Log, "math.Log2": math.Log2, "math.Max": math.Max, "math.Min": math.Min,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	"unicode/utf8.ValidString": utf8.ValidString,
	"math/bits.Len64":          bits.Len64, "math/bits.TrailingZeros64": bits.TrailingZeros64, "math/bits.Len": bits.Len,
	"math/bits.LeadingZeros64": bits.LeadingZeros64,
}

// nativesConc: symbolic arguments are split into concrete values first.
var nativesConc = map[string]any{
	"strconv.ParseFloat": strconv.ParseFloat, "strconv.FormatFloat": strconv.FormatFloat,
	"regexp.QuoteMeta": regexp.QuoteMeta,
}

func (ex *Exec) toNative(v Value, ti *TypeInfo, conc bool) (reflect.Value, bool) {
	switch ti.kind {
	case kBool, kInt, kFloat:
		t := v.(*Term)
		if !t.isConst() {
			if !conc {
				return reflect.Value{}, false
			}
			t = K(t.w, ex.Concretize(t))
		}
		switch ti.kind {
		case kBool:
			return reflect.ValueOf(t.val == 1), true
		case kFloat:
			return reflect.ValueOf(fval(t)), true
		}
		if ti.signed {
			return reflect.ValueOf(sext64(t.val, t.w)), true
		}
		return reflect.ValueOf(t.val), true
	case kString:
		s := v.(*Str)
		c, ok := s.concrete()
		if !ok {
			if !conc {
				return reflect.Value{}, false
			}
			c = ex.concStr(s)
		}
		return reflect.ValueOf(c), true
	case kSlice:
		s := v.(*Slice)
		if s.slen != nil {
			return reflect.Value{}, false
		}
		if ti.elem.kind == kString {
			out := make([]string, s.len)
			for i := range out {
				c, ok := s.a.get(s.off + i).(*Str).concrete()
				if !ok {
					return reflect.Value{}, false
				}
				out[i] = c
			}
			return reflect.ValueOf(out), true
		}
	}
	return reflect.Value{}, false
}

func (ex *Exec) fromNative(v reflect.Value, ti *TypeInfo) Value {
	switch ti.kind {
	case kBool:
		return KB(v.Bool())
	case kInt:
		switch v.Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return K(ti.w, v.Uint())
		}
		return K(ti.w, uint64(v.Int()))
	case kFloat:
		return K(64, math.Float64bits(v.Float()))
	case kString:
		return mkStr(v.String())
	case kSlice:
		if v.IsNil() {
			return nilSlice
		}
		a := newArr(ti.elem, v.Len())
		for i := 0; i < v.Len(); i++ {
			a.set(i, ex.fromNative(v.Index(i), ti.elem))
		}
		return &Slice{a: a, len: v.Len(), cap_: v.Len()}
	case kIface: // error
		if v.IsNil() {
			return nilIface
		}
		return ex.mkError(v.Interface().(error).Error())
	}
	ex.unsupported("native result of type %s", ti.t)
	return nil
}

func mkNativeConc(f *Func, nf any, conc bool) func(ex *Exec, args []Value) Value {
	rv := reflect.ValueOf(nf)
	rt := rv.Type()
	sig := f.fn.Signature
	var pts []*TypeInfo
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, tinfo(sig.Params().At(i).Type()))
	}
	var rts []*TypeInfo
	for i := 0; i < sig.Results().Len(); i++ {
		rts = append(rts, tinfo(sig.Results().At(i).Type()))
	}
	return func(ex *Exec, args []Value) Value {
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			v, ok := ex.toNative(a, pts[i], conc)
			if !ok {
				if f.blocks == nil {
					ex.unsupported("%s with symbolic arguments", f.name)
				}
				return ex.callBody(f, args)
			}
			in[i] = v.Convert(rt.In(i))
		}
		ex.nInstr += 20
		out := rv.Call(in)
		if len(out) == 1 {
			return ex.fromNative(out[0], rts[0])
		}
		t := make(Tuple, len(out))
		for i := range out {
			t[i] = ex.fromNative(out[i], rts[i])
		}
		return t
	}
}

func mkNative(f *Func, nf any) func(ex *Exec, args []Value) Value { return mkNativeConc(f, nf, false) }

// callBody runs the SSA body of a function that also has an intrinsic.
func (ex *Exec) callBody(f *Func, args []Value) Value {
	g := &Func{fn: f.fn, p: f.p, name: f.name, ready: true, blocks: f.blocks, nregs: f.nregs, nparams: f.nparams, consts: f.consts, hasDefer: f.hasDefer, recover_: f.recover_, resZero: f.resZero}
	return ex.callFrame(g, args, nil, nil)
}

func (ex *Exec) mkError(msg string) *Iface { return ex.mkErrorStr(mkStr(msg)) }

func (ex *Exec) mkErrorStr(s *Str) *Iface {
	st := ex.p.tErrStruct.mkZero().(*Struct)
	st.f[0] = s
	return &Iface{t: ex.p.tErrPtr, v: st}
}

func (ex *Exec) indexTerm(n, m int, at func(i, j int) *Term) int {
	for i := 0; i+m <= n; i++ {
		c := tTrue
		for j := 0; j < m && !c.isFalse(); j++ {
			c = ex.tt.And(c, at(i, j))
		}
		if ex.Branch(c) {
			return i
		}
	}
	return -1
}

func (ex *Exec) indexStr(s, sub *Str) int {
	if a, ok := s.concrete(); ok {
		if b, ok := sub.concrete(); ok {
			return strings.Index(a, b)
		}
	}
	return ex.indexTerm(s.len(), sub.len(), func(i, j int) *Term { return ex.tt.Eq(s.at(i+j), sub.at(j)) })
}

func (ex *Exec) sliceStr(s *Slice) *Str {
	s = ex.concLen(s)
	if s.len == 0 {
		return emptyStr
	}
	return &Str{arr: s.a, off: s.off, n: s.len}
}

func ki(n int) *Term { return K(64, uint64(n)) }

func (ex *Exec) indexByte(s *Str, c *Term) int {
	if c.isConst() {
		if a, ok := s.concrete(); ok {
			return strings.IndexByte(a, byte(c.val))
		}
	}
	for i := 0; i < s.len(); i++ {
		if ex.Branch(ex.tt.Eq(s.at(i), c)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) countByte(s *Str, c *Term) Value {
	acc := ki(0)
	for i := 0; i < s.len(); i++ {
		acc = ex.tt.Add(acc, ex.tt.Ite(ex.tt.Eq(s.at(i), c), ki(1), ki(0)))
	}
	return acc
}

func (ex *Exec) compareStr(a, b *Str) Value {
	lt := ex.strLess(a, b, false)
	eq := ex.strEq(a, b)
	return ex.tt.Ite(lt, K(64, ^uint64(0)), ex.tt.Ite(eq, ki(0), ki(1)))
}

func (ex *Exec) asciiOnly(s *Str) bool {
	c := tTrue
	for i := 0; i < s.len(); i++ {
		c = ex.tt.And(c, ex.tt.ULt(s.at(i), K(8, 0x80)))
	}
	return ex.Branch(c)
}

func (ex *Exec) lowerByte(t *Term) *Term {
	up := ex.tt.And(ex.tt.ULe(K(8, 'A'), t), ex.tt.ULe(t, K(8, 'Z')))
	return ex.tt.Ite(up, ex.tt.Add(t, K(8, 32)), t)
}

// fmtInt renders an integer term in base 10.
func (ex *Exec) fmtInt(t *Term, signed bool) *Str {
	if t.isConst() {
		if signed {
			return mkStr(strconv.FormatInt(sext64(t.val, t.w), 10))
		}
		return mkStr(strconv.FormatUint(t.val, 10))
	}
	tt := ex.tt
	if signed && !sgnPos(t) {
		if ex.Branch(tt.SLt(t, K(t.w, 0))) {
			// negative: few digits expected; split the value
			return mkStr(strconv.FormatInt(sext64(ex.Concretize(t), t.w), 10))
		}
	}
	if t.hi-t.lo < 32 {
		return mkStr(strconv.FormatUint(ex.Concretize(t), 10))
	}
	// common leading digits of the range stay constant
	lo := t.lo
	for p := uint64(10); p != 0 && p < 1e19; p *= 10 {
		if t.lo/p == t.hi/p && t.lo/p > 0 {
			head := strconv.FormatUint(t.lo/p, 10)
			rest := tt.Sub(t, K(t.w, t.lo/p*p))
			rest = ex.clampRange(rest, 0, p-1)
			out := make([]*Term, 0, 20)
			for i := 0; i < len(head); i++ {
				out = append(out, K(8, uint64(head[i])))
			}
			var ds []*Term
			for q := p / 10; q > 0; q /= 10 {
				ds = append(ds, ex.digit(rest, q))
			}
			return strFromTerms(append(out, ds...))
		}
	}
	_ = lo
	n := 1
	p := uint64(10)
	for n < 20 {
		if ex.Branch(tt.ULt(t, K(t.w, p))) {
			break
		}
		n++
		if n == 20 || n == 19 && t.w == 64 && p > 1<<63/10 {
			n = 20
			break
		}
		p *= 10
	}
	var hi uint64 = ^uint64(0)
	if n < 20 {
		hi = p - 1
	}
	x := ex.clampRange(t, 0, hi)
	var out []*Term
	q := uint64(1)
	for i := 1; i < n; i++ {
		q *= 10
	}
	for ; q > 0; q /= 10 {
		out = append(out, ex.digit(x, q))
	}
	return strFromTerms(out)
}

func (ex *Exec) clampRange(t *Term, lo, hi uint64) *Term {
	n := uint8(bits.Len64(hi))
	if n == 0 {
		n = 1
	}
	if n < t.w {
		return ex.tt.ZExt(ex.tt.Extract(t, n-1, 0), t.w)
	}
	return t
}

func (ex *Exec) digit(t *Term, q uint64) *Term {
	tt := ex.tt
	d := t
	if q > 1 {
		d = tt.Div(OpUDiv, d, K(t.w, q))
	}
	d = tt.Div(OpURem, d, K(t.w, 10))
	return tt.Add(tt.Extract(d, 7, 0), K(8, '0'))
}

func (ex *Exec) callMethod(v *Iface, name string, args ...Value) (Value, bool) {
	f := ex.p.methodByName(v.t, name)
	if f == nil {
		return nil, false
	}
	return ex.callFrame(f, append([]Value{v.v}, args...), nil, nil), true
}

// fmtVal renders one value for %v / %s.
func (ex *Exec) fmtVal(v *Iface, verb byte) *Str {
	if v.t == nil {
		if verb == 's' {
			return mkStr("%!s(<nil>)")
		}
		return mkStr("<nil>")
	}
	if verb != 'd' {
		for _, m := range []string{"Error", "String"} {
			if f := ex.p.methodByName(v.t, m); f != nil && f.fn.Signature.Params().Len() == 0 && f.fn.Signature.Results().Len() == 1 {
				r := ex.callFrame(f, []Value{v.v}, nil, nil)
				if s, ok := r.(*Str); ok {
					return s
				}
			}
		}
	}
	switch v.t.kind {
	case kString:
		return v.v.(*Str)
	case kInt:
		if verb == 's' {
			break
		}
		return ex.fmtInt(v.v.(*Term), v.t.signed)
	case kBool:
		if ex.Branch(v.v.(*Term)) {
			return mkStr("true")
		}
		return mkStr("false")
	case kFloat:
		f := math.Float64frombits(ex.Concretize(v.v.(*Term)))
		return mkStr(fmt.Sprint(f))
	case kSlice:
		s := ex.concLen(v.v.(*Slice))
		if v.t.elem.kind == kInt && v.t.elem.w == 8 && verb == 's' {
			return ex.bytesToStr(s)
		}
		out := mkStr("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = concatStr(out, mkStr(" "))
			}
			e := s.a.get(s.off + i)
			iv, ok := e.(*Iface)
			if !ok {
				iv = &Iface{t: v.t.elem, v: e}
			}
			out = concatStr(out, ex.fmtVal(iv, verb))
		}
		return concatStr(out, mkStr("]"))
	}
	ex.note("formatting of " + v.t.t.String() + " is approximated")
	return mkStr("<" + v.t.t.String() + ">")
}

func (ex *Exec) sprintf(format string, args *Slice) *Str {
	args = ex.concLen(args)
	out := emptyStr
	ai := 0
	lit := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out = concatStr(out, mkStr(format[lit:i]))
		i++
		j := i
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			out = concatStr(out, mkStr("%!(NOVERB)"))
			lit = len(format)
			break
		}
		flags := format[i:j]
		verb := format[j]
		i = j
		lit = j + 1
		if verb == '%' {
			out = concatStr(out, mkStr("%"))
			continue
		}
		if ai >= args.len {
			out = concatStr(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		v := args.a.get(args.off + ai).(*Iface)
		ai++
		var piece *Str
		switch {
		case verb == 'q' && v.t != nil && v.t.kind == kString:
			piece = mkStr(strconv.Quote(ex.concStr(v.v.(*Str))))
		case (verb == 'x' || verb == 'X' || verb == 'c' || verb == 'f' || verb == 'g' || verb == 'e' || flags != "" && flags != "+") && v.t != nil && (v.t.kind == kInt || v.t.kind == kFloat || v.t.kind == kString):
			nv, ok := ex.toNative(v.v, v.t, true)
			if !ok {
				ex.unsupported("format %%%c", verb)
			}
			if v.t.kind == kInt && v.t.w < 64 && !v.t.signed {
				nv = reflect.ValueOf(nv.Uint())
			}
			piece = mkStr(fmt.Sprintf("%"+flags+string(verb), nv.Interface()))
		case verb == 'T':
			if v.t == nil {
				piece = mkStr("<nil>")
			} else {
				piece = mkStr(types.TypeString(v.t.t, func(p *types.Package) string { return p.Name() }))
			}
		case verb == 'd' && v.t != nil && v.t.kind != kInt && v.t.kind != kSlice:
			piece = concatStr(mkStr("%!d("+v.t.t.String()+"="), concatStr(ex.fmtVal(v, 'v'), mkStr(")")))
		default:
			piece = ex.fmtVal(v, verb)
		}
		out = concatStr(out, piece)
	}
	if lit < len(format) {
		out = concatStr(out, mkStr(format[lit:]))
	}
	if ai < args.len {
		out = concatStr(out, mkStr("%!(EXTRA "))
		for k := ai; k < args.len; k++ {
			if k > ai {
				out = concatStr(out, mkStr(", "))
			}
			v := args.a.get(args.off + k).(*Iface)
			tn := "<nil>"
			if v.t != nil {
				tn = types.TypeString(v.t.t, func(p *types.Package) string { return p.Name() })
			}
			out = concatStr(out, concatStr(mkStr(tn+"="), ex.fmtVal(v, 'v')))
		}
		out = concatStr(out, mkStr(")"))
	}
	return out
}

func (ex *Exec) errorsIs(err, target *Iface) bool {
	for n := 0; n < 100; n++ {
		if err.t == nil || target.t == nil {
			return err.t == target.t
		}
		cmp := true
		if target.t.kind == kSlice || target.t.kind == kMap || target.t.kind == kFunc {
			cmp = false
		}
		if cmp && ex.Branch(ex.equal(err, target, ex.p.tError)) {
			return true
		}
		if f := ex.p.methodByName(err.t, "Is"); f != nil {
			if ex.Branch(ex.callFrame(f, []Value{err.v, target}, nil, nil).(*Term)) {
				return true
			}
		}
		f := ex.p.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r := ex.callFrame(f, []Value{err.v}, nil, nil)
		switch x := r.(type) {
		case *Iface:
			if x.t == nil {
				return false
			}
			err = x
		case *Slice:
			for i := 0; i < x.len; i++ {
				if ex.errorsIs(x.a.get(x.off+i).(*Iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (ex *Exec) errorsAs(err *Iface, target *Iface) bool {
	if target.t == nil || target.t.kind != kPtr {
		ex.tpanic("errors: target must be a non-nil pointer")
	}
	want := tinfo(target.t.t.Underlying().(*types.Pointer).Elem())
	for n := 0; n < 100 && err.t != nil; n++ {
		ok := false
		if want.kind == kIface {
			ok = ex.p.implements(err.t, want)
			if ok {
				ex.store(target.v, err)
			}
		} else if err.t == want {
			ok = true
			ex.store(target.v, err.v)
		}
		if ok {
			return true
		}
		f := ex.p.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		x, is := ex.callFrame(f, []Value{err.v}, nil, nil).(*Iface)
		if !is {
			return false
		}
		err = x
	}
	return false
}

func atomicOps(m map[string]func(ex *Exec, args []Value) Value) {
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		m["sync/atomic.Load"+ty] = func(ex *Exec, a []Value) Value { return ex.load(a[0]) }
		m["sync/atomic.Store"+ty] = func(ex *Exec, a []Value) Value { ex.store(a[0], a[1]); return nil }
		m["sync/atomic.Swap"+ty] = func(ex *Exec, a []Value) Value {
			o := ex.load(a[0])
			ex.store(a[0], a[1])
			return o
		}
		isPtr := ty == "Pointer"
		m["sync/atomic.CompareAndSwap"+ty] = func(ex *Exec, a []Value) Value {
			o := ex.load(a[0])
			var eq bool
			if isPtr {
				eq = o == a[1]
			} else {
				eq = ex.Branch(ex.tt.Eq(o.(*Term), a[1].(*Term)))
			}
			if eq {
				ex.store(a[0], a[2])
			}
			return KB(eq)
		}
		if !isPtr {
			m["sync/atomic.Add"+ty] = func(ex *Exec, a []Value) Value {
				n := ex.tt.Add(ex.load(a[0]).(*Term), a[1].(*Term))
				ex.store(a[0], n)
				return n
			}
		}
	}
}

func nop(ex *Exec, args []Value) Value { return nil }

func init() {
	m := map[string]func(ex *Exec, args []Value) Value{}
	intrinsics = m
	atomicOps(m)

	// ---- harness API ----
	R := rtPath + "."
	name := func(v Value) string { s, _ := v.(*Str).concrete(); return s }
	m[R+"Int"] = func(ex *Exec, a []Value) Value {
		lo, hi := int64(a[1].(*Term).val), int64(a[2].(*Term).val)
		// carried as an unsigned offset so that ranges stay simple
		off := ex.newInput(name(a[0]), "int", 64, 0, uint64(hi-lo))
		r := ex.tt.Add(off, K(64, uint64(lo)))
		return r
	}
	m[R+"Choose"] = func(ex *Exec, a []Value) Value {
		n := a[1].(*Term).val
		t := ex.newInput(name(a[0]), "choose", 16, 0, n-1)
		return K(64, ex.Concretize(t))
	}
	m[R+"Bool"] = func(ex *Exec, a []Value) Value { return ex.newInput(name(a[0]), "bool", 0, 0, 1) }
	m[R+"Byte"] = func(ex *Exec, a []Value) Value { return ex.newInput(name(a[0]), "byte", 8, 0, 255) }
	m[R+"U64"] = func(ex *Exec, a []Value) Value { return ex.newInput(name(a[0]), "u64", 64, 0, ^uint64(0)) }
	m[R+"I64"] = m[R+"U64"]
	m[R+"Float"] = m[R+"U64"]
	m[R+"Thorough"] = func(ex *Exec, a []Value) Value { return KB(ex.w.run.cfg.Thorough) }
	m[R+"Symbolic"] = func(ex *Exec, a []Value) Value { return tTrue }
	m[R+"Assume"] = func(ex *Exec, a []Value) Value { ex.Assume(a[0].(*Term)); return nil }
	m[R+"Assert"] = func(ex *Exec, a []Value) Value { ex.Assert(a[0].(*Term), name(a[1])); return nil }
	m[R+"Reach"] = func(ex *Exec, a []Value) Value {
		ex.reach[name(a[0])] = true
		return nil
	}
	m[R+"Unsupported"] = func(ex *Exec, a []Value) Value { ex.unsupported("%s", name(a[0])); return nil }
	m[R+"AllocLimit"] = func(ex *Exec, a []Value) Value { ex.allocMax = int64(a[0].(*Term).val); return nil }
	m[R+"AllocCheck"] = nop
	m[R+"Split"] = func(ex *Exec, a []Value) Value { return K(64, ex.Concretize(a[0].(*Term))) }
	m[R+"SplitBool"] = func(ex *Exec, a []Value) Value { return KB(ex.Branch(a[0].(*Term))) }
	m[R+"IteInt"] = func(ex *Exec, a []Value) Value {
		return ex.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	// the fields of a struct behind a pointer, for shims of libraries that decode by reflection
	fields := func(ex *Exec, v Value) (*types.Struct, *Struct) {
		i := v.(*Iface)
		if i.t != nil {
			if p, ok := i.t.t.Underlying().(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok {
					if o, ok := i.v.(*Struct); ok {
						return st, o
					}
				}
			}
		}
		ex.unsupported("fields of a value that is not a pointer to a struct")
		return nil, nil
	}
	m[R+"NumField"] = func(ex *Exec, a []Value) Value {
		st, _ := fields(ex, a[0])
		return ki(st.NumFields())
	}
	m[R+"FieldName"] = func(ex *Exec, a []Value) Value {
		st, _ := fields(ex, a[0])
		return mkStr(st.Field(ex.concInt(a[1].(*Term))).Name())
	}
	m[R+"FieldTag"] = func(ex *Exec, a []Value) Value {
		st, _ := fields(ex, a[0])
		return mkStr(st.Tag(ex.concInt(a[1].(*Term))))
	}
	m[R+"FieldPtr"] = func(ex *Exec, a []Value) Value {
		st, o := fields(ex, a[0])
		n := ex.concInt(a[1].(*Term))
		t := st.Field(n).Type()
		if in, ok := o.f[n].(*Struct); ok {
			return &Iface{t: tinfo(types.NewPointer(t)), v: in}
		}
		return &Iface{t: tinfo(types.NewPointer(t.Underlying())), v: FieldPtr{o, n}}
	}
	m[R+"And"] = func(ex *Exec, a []Value) Value { return ex.tt.And(a[0].(*Term), a[1].(*Term)) }
	m[R+"Or"] = func(ex *Exec, a []Value) Value { return ex.tt.Or(a[0].(*Term), a[1].(*Term)) }
	m[R+"Observe"] = func(ex *Exec, a []Value) Value {
		s := ex.concLen(a[1].(*Slice))
		o := obsRec{label: name(a[0])}
		for i := 0; i < s.len; i++ {
			v := s.a.get(s.off + i).(*Iface)
			if v.t != nil && v.t.kind == kSlice {
				sl := ex.concLen(v.v.(*Slice))
				cp := make(Tuple, 0, sl.len)
				for k := 0; k < sl.len; k++ {
					e := sl.a.get(sl.off + k)
					if st, ok := e.(*Str); ok {
						e = st.snapshot()
					}
					cp = append(cp, e)
				}
				o.vals = append(o.vals, &Iface{t: v.t, v: cp})
				continue
			}
			if v.t != nil && v.t.kind == kString {
				v = &Iface{t: v.t, v: v.v.(*Str).snapshot()}
			}
			o.vals = append(o.vals, v)
		}
		ex.obs = append(ex.obs, o)
		return nil
	}

	// ---- strings / bytes ----
	idx := func(ex *Exec, a []Value) Value { return ki(ex.indexStr(a[0].(*Str), a[1].(*Str))) }
	m["strings.Index"], m["internal/stringslite.Index"], m["internal/bytealg.IndexString"] = idx, idx, idx
	idxb := func(ex *Exec, a []Value) Value { return ki(ex.indexByte(a[0].(*Str), a[1].(*Term))) }
	m["strings.IndexByte"], m["internal/stringslite.IndexByte"], m["internal/bytealg.IndexByteString"] = idxb, idxb, idxb
	bidx := func(ex *Exec, a []Value) Value {
		return ki(ex.indexStr(ex.sliceStr(a[0].(*Slice)), ex.sliceStr(a[1].(*Slice))))
	}
	m["bytes.Index"], m["internal/bytealg.Index"] = bidx, bidx
	bidxb := func(ex *Exec, a []Value) Value { return ki(ex.indexByte(ex.sliceStr(a[0].(*Slice)), a[1].(*Term))) }
	m["bytes.IndexByte"], m["internal/bytealg.IndexByte"] = bidxb, bidxb
	m["internal/bytealg.Count"] = func(ex *Exec, a []Value) Value {
		return ex.countByte(ex.sliceStr(a[0].(*Slice)), a[1].(*Term))
	}
	m["internal/bytealg.CountString"] = func(ex *Exec, a []Value) Value { return ex.countByte(a[0].(*Str), a[1].(*Term)) }
	beq := func(ex *Exec, a []Value) Value {
		return ex.strEq(ex.sliceStr(a[0].(*Slice)), ex.sliceStr(a[1].(*Slice)))
	}
	m["bytes.Equal"], m["internal/bytealg.Equal"] = beq, beq
	bcmp := func(ex *Exec, a []Value) Value {
		return ex.compareStr(ex.sliceStr(a[0].(*Slice)), ex.sliceStr(a[1].(*Slice)))
	}
	m["bytes.Compare"], m["internal/bytealg.Compare"] = bcmp, bcmp
	scmp := func(ex *Exec, a []Value) Value { return ex.compareStr(a[0].(*Str), a[1].(*Str)) }
	m["strings.Compare"], m["internal/bytealg.CompareString"] = scmp, scmp
	m["internal/bytealg.MakeNoZero"] = func(ex *Exec, a []Value) Value {
		n := ex.concInt(a[0].(*Term))
		if n < 0 || n > 1<<28 {
			ex.tpanic("makeslice: len out of range")
		}
		c := int(roundupsize(int64(n)))
		return &Slice{a: newArr(tinfo(types.Typ[types.Uint8]), c), len: n, cap_: c}
	}
	m["strings.ToLower"] = func(ex *Exec, a []Value) Value {
		s := a[0].(*Str)
		if c, ok := s.concrete(); ok {
			return mkStr(strings.ToLower(c))
		}
		if !ex.asciiOnly(s) {
			return mkStr(strings.ToLower(ex.concStr(s)))
		}
		out := make([]*Term, s.len())
		for i := range out {
			out[i] = ex.lowerByte(s.at(i))
		}
		return strFromTerms(out)
	}
	m["strings.EqualFold"] = func(ex *Exec, a []Value) Value {
		s, t := a[0].(*Str), a[1].(*Str)
		if x, ok := s.concrete(); ok {
			if y, ok := t.concrete(); ok {
				return KB(strings.EqualFold(x, y))
			}
		}
		if !ex.asciiOnly(s) || !ex.asciiOnly(t) {
			return KB(strings.EqualFold(ex.concStr(s), ex.concStr(t)))
		}
		if s.len() != t.len() {
			return tFalse
		}
		acc := tTrue
		for i := 0; i < s.len(); i++ {
			acc = ex.tt.And(acc, ex.tt.Eq(ex.lowerByte(s.at(i)), ex.lowerByte(t.at(i))))
		}
		return acc
	}
	m["(*strings.Builder).copyCheck"] = nop
	m["(*strings.Builder).String"] = func(ex *Exec, a []Value) Value {
		b := a[0].(*Struct)
		return ex.bytesToStr(b.f[1].(*Slice))
	}
	m["(*strings.Builder).WriteString"] = func(ex *Exec, a []Value) Value {
		b, ok := a[0].(*Struct)
		if !ok {
			ex.nilDeref()
		}
		s := a[1].(*Str)
		b.f[1] = ex.appendN(b.f[1].(*Slice), s.len(), tinfo(types.Typ[types.Uint8]), func(i int) Value { return s.at(i) }, nil, 0)
		return Tuple{ki(s.len()), nilIface}
	}
	// quoted text only ends up in error messages: bytes that would be escaped become '?'
	m["strconv.Quote"] = func(ex *Exec, a []Value) Value {
		s := a[0].(*Str)
		if c, ok := s.concrete(); ok {
			return mkStr(strconv.Quote(c))
		}
		out := []*Term{K(8, '"')}
		for i := 0; i < s.len(); i++ {
			b := s.at(i)
			plain := ex.tt.And(ex.tt.And(ex.tt.ULe(K(8, ' '), b), ex.tt.ULe(b, K(8, '~'))), ex.tt.And(ex.tt.Not(ex.tt.Eq(b, K(8, '"'))), ex.tt.Not(ex.tt.Eq(b, K(8, '\\')))))
			out = append(out, ex.tt.Ite(plain, b, K(8, '?')))
		}
		return strFromTerms(append(out, K(8, '"')))
	}
	m["strings.Clone"] = func(ex *Exec, a []Value) Value { return a[0].(*Str).snapshot() }
	m["internal/stringslite.Clone"] = m["strings.Clone"]
	m["internal/abi.NoEscape"] = func(ex *Exec, a []Value) Value { return a[0] }
	m["unicode/utf8.RuneCountInString"] = func(ex *Exec, a []Value) Value {
		s := a[0].(*Str)
		n := 0
		for p := 0; p < s.len(); {
			_, k := ex.decodeRune(s, p)
			p += k
			n++
		}
		return ki(n)
	}

	// ---- numbers ----
	id := func(ex *Exec, a []Value) Value { return a[0] }
	m["math.Float64bits"], m["math.Float64frombits"], m["math.Float32bits"], m["math.Float32frombits"] = id, id, id, id
	m["math.FMA"] = func(ex *Exec, a []Value) Value {
		return K(64, math.Float64bits(math.FMA(math.Float64frombits(ex.Concretize(a[0].(*Term))), math.Float64frombits(ex.Concretize(a[1].(*Term))), math.Float64frombits(ex.Concretize(a[2].(*Term))))))
	}
	m["strconv.Itoa"] = func(ex *Exec, a []Value) Value { return ex.fmtInt(a[0].(*Term), true) }
	fint := func(signed bool) func(ex *Exec, a []Value) Value {
		return func(ex *Exec, a []Value) Value {
			b := ex.concInt(a[1].(*Term))
			t := a[0].(*Term)
			if b == 10 {
				return ex.fmtInt(t, signed)
			}
			v := ex.Concretize(t)
			if signed {
				return mkStr(strconv.FormatInt(int64(v), b))
			}
			return mkStr(strconv.FormatUint(v, b))
		}
	}
	m["strconv.FormatInt"], m["strconv.FormatUint"] = fint(true), fint(false)

	// ---- fmt / errors ----
	m["fmt.Sprintf"] = func(ex *Exec, a []Value) Value {
		return ex.sprintf(ex.concStr(a[0].(*Str)), a[1].(*Slice)).snapshot()
	}
	sprint := func(ex *Exec, sl *Slice, line bool) *Str {
		s := ex.concLen(sl)
		out := emptyStr
		for i := 0; i < s.len; i++ {
			v := s.a.get(s.off + i).(*Iface)
			if i > 0 && line {
				out = concatStr(out, mkStr(" "))
			} else if i > 0 {
				p := s.a.get(s.off + i - 1).(*Iface)
				if (v.t == nil || v.t.kind != kString) && (p.t == nil || p.t.kind != kString) {
					out = concatStr(out, mkStr(" "))
				}
			}
			out = concatStr(out, ex.fmtVal(v, 'v'))
		}
		if line {
			out = concatStr(out, mkStr("\n"))
		}
		return out.snapshot()
	}
	m["fmt.Sprint"] = func(ex *Exec, a []Value) Value { return sprint(ex, a[0].(*Slice), false) }
	m["fmt.Sprintln"] = func(ex *Exec, a []Value) Value { return sprint(ex, a[0].(*Slice), true) }
	appendStr := func(ex *Exec, b Value, s *Str) Value {
		return ex.appendN(ex.concLen(b.(*Slice)), s.len(), tinfo(types.Typ[types.Uint8]), func(i int) Value { return s.at(i) }, nil, 0)
	}
	m["fmt.Appendf"] = func(ex *Exec, a []Value) Value {
		return appendStr(ex, a[0], ex.sprintf(ex.concStr(a[1].(*Str)), a[2].(*Slice)).snapshot())
	}
	m["fmt.Append"] = func(ex *Exec, a []Value) Value { return appendStr(ex, a[0], sprint(ex, a[1].(*Slice), false)) }
	m["fmt.Appendln"] = func(ex *Exec, a []Value) Value { return appendStr(ex, a[0], sprint(ex, a[1].(*Slice), true)) }
	m["strconv.AppendUint"] = func(ex *Exec, a []Value) Value {
		return appendStr(ex, a[0], m["strconv.FormatUint"](ex, a[1:]).(*Str))
	}
	m["strconv.AppendInt"] = func(ex *Exec, a []Value) Value {
		return appendStr(ex, a[0], m["strconv.FormatInt"](ex, a[1:]).(*Str))
	}
	m["strconv.AppendQuote"] = func(ex *Exec, a []Value) Value {
		return appendStr(ex, a[0], m["strconv.Quote"](ex, a[1:]).(*Str))
	}
	m["strconv.AppendFloat"] = func(ex *Exec, a []Value) Value {
		f := math.Float64frombits(ex.Concretize(a[1].(*Term)))
		return appendStr(ex, a[0], mkStr(strconv.FormatFloat(f, byte(ex.concInt(a[2].(*Term))), ex.concInt(a[3].(*Term)), ex.concInt(a[4].(*Term)))))
	}
	m["fmt.Errorf"] = func(ex *Exec, a []Value) Value {
		f := ex.concStr(a[0].(*Str))
		args := ex.concLen(a[1].(*Slice))
		msg := ex.sprintf(strings.ReplaceAll(f, "%w", "%v"), args).snapshot()
		if i := strings.Index(f, "%w"); i >= 0 {
			n := 0
			for k := 0; k < i; k++ {
				if f[k] == '%' {
					if f[k+1] == '%' {
						k++
					} else {
						n++
					}
				}
			}
			if n < args.len && ex.p.tWrapPtr != nil {
				st := ex.p.tWrapStruct.mkZero().(*Struct)
				st.f[0], st.f[1] = msg, args.a.get(args.off+n)
				return &Iface{t: ex.p.tWrapPtr, v: st}
			}
		}
		return ex.mkErrorStr(msg)
	}
	fprintf := func(ex *Exec, w *Iface, s *Str) Value {
		b := ex.strToBytes(s, tinfo(types.Typ[types.Uint8]))
		if w.t == nil {
			ex.nilDeref()
		}
		f := ex.p.methodByName(w.t, "Write")
		return ex.callFrame(f, []Value{w.v, b}, nil, nil)
	}
	m["fmt.Fprintf"] = func(ex *Exec, a []Value) Value {
		return fprintf(ex, a[0].(*Iface), ex.sprintf(ex.concStr(a[1].(*Str)), a[2].(*Slice)))
	}
	m["fmt.Fprint"] = func(ex *Exec, a []Value) Value {
		return fprintf(ex, a[0].(*Iface), sprint(ex, a[1].(*Slice), false))
	}
	m["fmt.Fprintln"] = func(ex *Exec, a []Value) Value {
		return fprintf(ex, a[0].(*Iface), sprint(ex, a[1].(*Slice), true))
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print"} {
		isLog := strings.HasPrefix(n, "log.")
		m[n] = func(ex *Exec, a []Value) Value {
			if isLog {
				return nil
			}
			return Tuple{ki(0), nilIface}
		}
	}
	for _, n := range []string{"log.Fatalln", "log.Fatalf", "log.Fatal", "log.Panicln", "log.Panicf", "log.Panic"} {
		n := n
		m[n] = func(ex *Exec, a []Value) Value {
			panic(&targetPanic{v: &Iface{t: tinfo(types.Typ[types.String]), v: mkStr(n)}, msg: n, stack: ex.backtrace()})
		}
	}
	m["errors.Is"] = func(ex *Exec, a []Value) Value { return KB(ex.errorsIs(a[0].(*Iface), a[1].(*Iface))) }
	m["errors.As"] = func(ex *Exec, a []Value) Value { return KB(ex.errorsAs(a[0].(*Iface), a[1].(*Iface))) }
	m["github.com/pkg/errors.callers"] = func(ex *Exec, a []Value) Value { return nilPtr }

	m["maps.clone"] = func(ex *Exec, a []Value) Value {
		v := a[0].(*Iface)
		mv, ok := v.v.(*MapV)
		if !ok {
			ex.unsupported("maps.clone of %T", v.v)
		}
		c := newMap(v.t)
		for _, e := range mv.ents {
			if !e.dead {
				ex.mapSet(c, e.k, copyVal(e.v))
			}
		}
		return &Iface{t: v.t, v: c}
	}

	// ---- sync ----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Pool).Put", "runtime.GC", "runtime.KeepAlive", "runtime.Gosched", "runtime.SetFinalizer",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock"} {
		m[n] = nop
	}
	m["(*sync.Mutex).TryLock"] = func(ex *Exec, a []Value) Value { return tTrue }
	m["(*sync.Pool).Get"] = func(ex *Exec, a []Value) Value {
		s := a[0].(*Struct)
		for i := len(s.f) - 1; i >= 0; i-- {
			if c, ok := s.f[i].(*Closure); ok && c != nil {
				return ex.callClosure(c, nil)
			}
		}
		return nilIface
	}
	m["(*sync.Once).Do"] = func(ex *Exec, a []Value) Value {
		s := a[0].(*Struct)
		if s.f[0] == Value(onceMark) {
			return nil
		}
		s.f[0] = onceMark
		return ex.callClosure(a[1].(*Closure), nil)
	}

	// ---- time ----
	m["(time.Time).Sub"] = func(ex *Exec, a []Value) Value {
		x, y := a[0].(*Struct), a[1].(*Struct)
		tt := ex.tt
		hasMono := tt.Bin(OpBAnd, tt.Bin(OpBOr, x.f[0].(*Term), y.f[0].(*Term)), K(64, 1<<63))
		if !hasMono.isConst() && !ex.Branch(tt.Eq(hasMono, K(64, 0))) || hasMono.isConst() && hasMono.val != 0 {
			ex.unsupported("Time.Sub with monotonic clock")
		}
		ns := tt.Sub(x.f[0].(*Term), y.f[0].(*Term))
		ds := tt.Sub(x.f[1].(*Term), y.f[1].(*Term))
		const lim = 9223372036
		if ex.Branch(tt.SLe(K(64, lim), ds)) {
			return K(64, math.MaxInt64)
		}
		neg := -int64(lim)
		if ex.Branch(tt.SLe(ds, K(64, uint64(neg)))) {
			return K(64, 1<<63)
		}
		return tt.Add(tt.Mul(ds, K(64, 1e9)), ns)
	}
	m["time.Sleep"] = nop
	m["time.runtimeNano"] = func(ex *Exec, a []Value) Value {
		if ex.stdInit == 0 {
			ex.unsupported("the runtime's clock")
		}
		return K(64, 1)
	}

	// ---- sorting through reflection ----
	sortSlice := func(ex *Exec, a []Value) Value {
		v := a[0].(*Iface)
		s := ex.concLen(v.v.(*Slice))
		less := a[1].(*Closure)
		// insertion sort through the less closure on live positions
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				if !ex.Branch(ex.callClosure(less, []Value{ki(j), ki(j - 1)}).(*Term)) {
					break
				}
				x, y := s.a.get(s.off+j), s.a.get(s.off+j-1)
				if s.a.et.agg {
					x, y = copyVal(x), copyVal(y)
				}
				s.a.assign(s.off+j, y)
				s.a.assign(s.off+j-1, x)
			}
		}
		return nil
	}
	m["sort.Slice"], m["sort.SliceStable"] = sortSlice, sortSlice

	// ---- regexp ----
	comp := func(ex *Exec, p string) (Value, *Iface) {
		re, err := regexp.Compile(p)
		if err != nil {
			return nilPtr, ex.mkError(err.Error())
		}
		pt := ex.p.namedType("regexp", "Regexp")
		st := pt.mkZero().(*Struct)
		ex.w.natObj(st, re)
		return st, nilIface
	}
	m["regexp.Compile"] = func(ex *Exec, a []Value) Value {
		v, e := comp(ex, ex.concStr(a[0].(*Str)))
		return Tuple{v, e}
	}
	m["regexp.MustCompile"] = func(ex *Exec, a []Value) Value {
		v, e := comp(ex, ex.concStr(a[0].(*Str)))
		if e.t != nil {
			ex.tpanic("regexp: Compile")
		}
		return v
	}
	m["(*regexp.Regexp).MatchString"] = func(ex *Exec, a []Value) Value {
		st, ok := a[0].(*Struct)
		if !ok {
			ex.nilDeref()
		}
		re := ex.w.natGet(st).(*regexp.Regexp)
		return KB(re.MatchString(ex.concStr(a[1].(*Str))))
	}
	m["regexp.MatchString"] = func(ex *Exec, a []Value) Value {
		ok, err := regexp.MatchString(ex.concStr(a[0].(*Str)), ex.concStr(a[1].(*Str)))
		if err != nil {
			return Tuple{tFalse, ex.mkError(err.Error())}
		}
		return Tuple{KB(ok), nilIface}
	}

	// zap fields and loggers carry no state
	intrinsicPrefixes = []prefixIntr{
		{"go.uber.org/zap.", func(f *Func) func(ex *Exec, args []Value) Value {
			sig := f.fn.Signature.Results()
			if sig.Len() == 1 {
				z := tinfo(sig.At(0).Type())
				return func(ex *Exec, args []Value) Value { return z.mkZero() }
			}
			return nil
		}},
		{"regexp.QuoteMeta", concPrefix}, {"strconv.ParseFloat", concPrefix}, {"strconv.FormatFloat", concPrefix},
		{"unique.Make", func(f *Func) func(ex *Exec, args []Value) Value {
			z := tinfo(f.fn.Signature.Results().At(0).Type())
			return func(ex *Exec, args []Value) Value {
				st := z.mkZero().(*Struct)
				k := fmt.Sprint(z.id)
				if c := ex.w.uniq[k]; c != nil {
					for _, e := range c {
						if ex.equal(e.v, args[0], tinfo(f.fn.Signature.Params().At(0).Type())).isTrue() {
							st.f[0] = e.p
							return st
						}
					}
				}
				p := newStorage(tinfo(f.fn.Signature.Params().At(0).Type()))
				ex.store(p, args[0])
				ex.w.uniq[k] = append(ex.w.uniq[k], uniqEnt{args[0], p})
				st.f[0] = p
				return st
			}
		}},
	}
}

type uniqEnt struct{ v, p Value }

func concPrefix(f *Func) func(ex *Exec, args []Value) Value {
	if nf, ok := nativesConc[f.name]; ok {
		return mkNativeConc(f, nf, true)
	}
	return nil
}
