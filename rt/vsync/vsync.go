// Package vsync stands in for sync: the engine runs one goroutine at a time, so
// a lock that is taken while it is held is never released by waiting.
package vsync

import rt "github.com/IfanTsai/metis/verif/rt"

// blocked ends a background task that would have to wait (it runs at another
// moment on another path) and reports a deadlock otherwise.
func blocked(what string) {
	if rt.InTask > 0 {
		rt.Assume(false)
	}
	panic("deadlock: " + what)
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	if m.held {
		blocked("Lock of a locked Mutex")
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	if m.w || m.r > 0 {
		blocked("Lock of a locked RWMutex")
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}

func (m *RWMutex) RLock() {
	if m.w {
		blocked("RLock of a locked RWMutex")
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(n int) {
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if g.n > 0 {
		rt.RunTasks()
	}
	if g.n > 0 {
		blocked("Wait of a WaitGroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct{ done bool }

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.done = true
	f()
}

type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.l = append(p.l, x)
	}
}

type Map struct{ m map[any]any }

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.init(); m.m[k] = v }
func (m *Map) Delete(k any)           { delete(m.m, k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	x, ok := m.m[k]
	delete(m.m, k)
	return x, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	x, ok := m.m[k]
	m.Store(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m = nil }
