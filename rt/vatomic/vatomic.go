// Package vatomic stands in for the parts of sync/atomic that need unsafe.
package vatomic

type Value struct{ v any }

func (x *Value) Load() any { return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v any) any {
	o := x.v
	x.Store(v)
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	if x.v != o {
		return false
	}
	x.Store(n)
	return true
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T   { return x.p }
func (x *Pointer[T]) Store(p *T) { x.p = p }
func (x *Pointer[T]) Swap(p *T) *T {
	o := x.p
	x.p = p
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	if x.p != o {
		return false
	}
	x.p = n
	return true
}
