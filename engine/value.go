package main

// Runtime values of the symbolic machine.

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type Value any

// Struct is both a struct value (when held in a register: an immutable
// snapshot) and struct storage (when it is the target of a pointer).
type Struct struct {
	f  []Value
	ti *TypeInfo
}

const chunkBits = 8
const chunkSize = 1 << chunkBits

// Arr is array storage (backing store of slices, array values).
type Arr struct {
	n    int
	et   *TypeInfo
	flat []Value
	ch   [][]Value
	grow bool // symbolic length: storage extends on demand
}

func newArr(et *TypeInfo, n int) *Arr {
	a := &Arr{n: n, et: et}
	if n <= 64 {
		a.flat = make([]Value, n)
	} else {
		a.ch = make([][]Value, (n+chunkSize-1)>>chunkBits)
	}
	return a
}

func (a *Arr) get(i int) Value {
	var p *Value
	if a.flat != nil {
		p = &a.flat[i]
	} else {
		if a.grow {
			for i>>chunkBits >= len(a.ch) {
				a.ch = append(a.ch, nil)
			}
		}
		c := a.ch[i>>chunkBits]
		if c == nil {
			if !a.et.agg {
				return a.et.zero
			}
			c = make([]Value, chunkSize)
			a.ch[i>>chunkBits] = c
		}
		p = &c[i&(chunkSize-1)]
	}
	if *p == nil {
		if !a.et.agg {
			return a.et.zero
		}
		*p = a.et.mkZero()
	}
	return *p
}

func (a *Arr) set(i int, v Value) {
	if a.flat != nil {
		a.flat[i] = v
		return
	}
	if a.grow {
		for i>>chunkBits >= len(a.ch) {
			a.ch = append(a.ch, nil)
		}
	}
	c := a.ch[i>>chunkBits]
	if c == nil {
		c = make([]Value, chunkSize)
		a.ch[i>>chunkBits] = c
	}
	c[i&(chunkSize-1)] = v
}

// assign stores v into element i, keeping the identity of aggregates.
func (a *Arr) assign(i int, v Value) {
	if a.et.agg {
		assignInto(a.get(i), v)
		return
	}
	a.set(i, v)
}

type Cell struct{ v Value }

type FieldPtr struct {
	s *Struct
	i int
}

type ElemPtr struct {
	a *Arr
	i int
}

// StrPtr is unsafe.StringData of a string.
type StrPtr struct{ s *Str }

type nilPtrT struct{}

var nilPtr Value = nilPtrT{}

type Slice struct {
	a              *Arr
	off, len, cap_ int
	slen           *Term // symbolic length (fresh make only); off is 0 then
}

var nilSlice = &Slice{}

// Str is a string: concrete, byte terms, or a live view of an array (unsafe aliasing).
type Str struct {
	s   string
	b   []*Term
	arr *Arr
	off int
	n   int
}

var emptyStr = &Str{}

func mkStr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s, n: len(s)}
}

func (s *Str) len() int { return s.n }

func (s *Str) at(i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	if s.arr != nil {
		return s.arr.get(s.off + i).(*Term)
	}
	return K(8, uint64(s.s[i]))
}

func (s *Str) concrete() (string, bool) {
	if s.b == nil && s.arr == nil {
		return s.s, true
	}
	buf := make([]byte, s.n)
	for i := 0; i < s.n; i++ {
		t := s.at(i)
		if !t.isConst() {
			return "", false
		}
		buf[i] = byte(t.val)
	}
	return string(buf), true
}

func strFromTerms(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return &Str{b: b, n: len(b)}
		}
		buf[i] = byte(t.val)
	}
	return &Str{s: string(buf), n: len(b)}
}

func (s *Str) sub(lo, hi int) *Str {
	if lo == hi {
		return emptyStr
	}
	switch {
	case s.b != nil:
		return strFromTerms(s.b[lo:hi])
	case s.arr != nil:
		return &Str{arr: s.arr, off: s.off + lo, n: hi - lo}
	}
	return &Str{s: s.s[lo:hi], n: hi - lo}
}

// snapshot detaches a live view.
func (s *Str) snapshot() *Str {
	if s.arr == nil {
		return s
	}
	return strFromTerms(s.terms())
}

func (s *Str) terms() []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, s.n)
	for i := range out {
		out[i] = s.at(i)
	}
	return out
}

type Iface struct {
	t *TypeInfo // nil: nil interface
	v Value
}

var nilIface = &Iface{}

type Closure struct {
	fn  *Func
	env []Value
	in  func(ex *Exec, args []Value) Value // native closure
}

type mapEnt struct {
	k, v Value
	dead bool
}

type MapV struct {
	ents  []*mapEnt
	idx   map[any]*mapEnt
	nsym  int // live entries with symbolic keys
	count int
	kt    *TypeInfo
	vt    *TypeInfo
}

type ChanV struct {
	buf    []Value
	cap_   int
	closed bool
	et     *TypeInfo
}

type Tuple []Value

type mapIter struct {
	m   *MapV
	pos int
}

type strIter struct {
	s   *Str
	pos int
}

// ---------- types ----------

type tkind uint8

const (
	kInvalid tkind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
)

type TypeInfo struct {
	t      types.Type
	kind   tkind
	w      uint8
	signed bool
	agg    bool
	zero   Value
	fields []*TypeInfo
	elem   *TypeInfo
	key    *TypeInfo
	n      int
	size   int64
	id     int

	mu      sync.Mutex
	methods map[string]*Func
}

type typeTable struct {
	mu    sync.RWMutex
	byPtr map[types.Type]*TypeInfo
	canon typeutil.Map
	n     int
}

var tyTab = &typeTable{byPtr: map[types.Type]*TypeInfo{}}

var stdSizes = types.SizesFor("gc", "amd64")

func tinfo(t types.Type) *TypeInfo {
	tyTab.mu.RLock()
	ti := tyTab.byPtr[t]
	tyTab.mu.RUnlock()
	if ti != nil {
		return ti
	}
	tyTab.mu.Lock()
	defer tyTab.mu.Unlock()
	return tyTab.get(t)
}

func (tt *typeTable) get(t types.Type) *TypeInfo {
	if ti := tt.byPtr[t]; ti != nil {
		return ti
	}
	if c := tt.canon.At(t); c != nil {
		ti := c.(*TypeInfo)
		tt.byPtr[t] = ti
		return ti
	}
	ti := &TypeInfo{t: t, id: tt.n}
	tt.n++
	tt.byPtr[t] = ti
	tt.canon.Set(t, ti)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer:
			ti.kind, ti.zero = kUnsafe, nilPtr
		case u.Kind() == types.UntypedNil:
			ti.kind, ti.zero = kPtr, nilPtr
		case info&types.IsBoolean != 0:
			ti.kind, ti.w, ti.zero = kBool, 0, tFalse
		case info&types.IsInteger != 0:
			ti.kind = kInt
			ti.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
			ti.zero = K(ti.w, 0)
		case info&types.IsFloat != 0:
			ti.kind, ti.w = kFloat, 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
			ti.zero = K(ti.w, 0)
		case info&types.IsComplex != 0:
			ti.kind, ti.zero = kComplex, complex128(0)
		case info&types.IsString != 0:
			ti.kind, ti.zero = kString, emptyStr
		default:
			ti.kind, ti.zero = kInvalid, nilPtr
		}
	case *types.Pointer:
		ti.kind, ti.zero = kPtr, nilPtr
	case *types.Struct:
		ti.kind, ti.agg = kStruct, true
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.kind, ti.agg = kArray, true
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Slice:
		ti.kind, ti.zero = kSlice, nilSlice
		ti.elem = tt.get(u.Elem())
	case *types.Map:
		ti.kind, ti.zero = kMap, (*MapV)(nil)
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.kind, ti.zero = kChan, (*ChanV)(nil)
		ti.elem = tt.get(u.Elem())
	case *types.Signature:
		ti.kind, ti.zero = kFunc, (*Closure)(nil)
	case *types.Interface:
		ti.kind, ti.zero = kIface, nilIface
	case *types.Tuple:
		ti.kind = kTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get(u.At(i).Type()))
		}
	case *types.TypeParam:
		ti.kind = kInvalid
	}
	func() {
		defer func() {
			if recover() != nil {
				ti.size = 8
			}
		}()
		if ti.kind != kTuple && ti.kind != kInvalid {
			ti.size = stdSizes.Sizeof(t)
		}
	}()
	return ti
}

func (ti *TypeInfo) mkZero() Value {
	switch ti.kind {
	case kStruct:
		s := &Struct{f: make([]Value, len(ti.fields)), ti: ti}
		for i, f := range ti.fields {
			s.f[i] = f.mkZero()
		}
		return s
	case kArray:
		return newArr(ti.elem, ti.n)
	case kTuple:
		t := make(Tuple, len(ti.fields))
		for i, f := range ti.fields {
			t[i] = f.mkZero()
		}
		return t
	}
	return ti.zero
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Value, len(x.f)), ti: x.ti}
		for i, f := range x.f {
			switch f.(type) {
			case *Struct, *Arr:
				if x.ti.fields[i].agg {
					n.f[i] = copyVal(f)
				} else {
					n.f[i] = f // pointer to struct storage
				}
			default:
				n.f[i] = f
			}
		}
		return n
	case *Arr:
		n := newArr(x.et, x.n)
		for i := 0; i < x.n; i++ {
			if x.et.agg {
				n.set(i, copyVal(x.get(i)))
			} else {
				n.set(i, x.get(i))
			}
		}
		return n
	}
	return v
}

// assignInto stores aggregate value src into aggregate storage dst.
func assignInto(dst, src Value) {
	switch d := dst.(type) {
	case *Struct:
		s := src.(*Struct)
		if s == d {
			return
		}
		for i := range d.f {
			if d.ti.fields[i].agg {
				assignInto(d.f[i], s.f[i])
			} else {
				d.f[i] = s.f[i]
			}
		}
	case *Arr:
		s := src.(*Arr)
		if s == d {
			return
		}
		for i := 0; i < d.n; i++ {
			d.assign(i, s.get(i))
		}
	default:
		panic(fmt.Sprintf("assignInto %T", dst))
	}
}
