package datastruct

import (
	"github.com/IfanTsai/metis/log"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
	"go.uber.org/zap"
)

// vType is a dictionary type over int keys with a given hash table: h[k] is
// the hash of key k and may be symbolic.
type vType struct {
	h []int
}

func (t *vType) Hash(a any) int64 {
	k := a.(int)
	r := t.h[0]
	for i := 1; i < len(t.h); i++ {
		r = rt.IteInt(k == i, t.h[i], r)
	}
	return int64(r)
}

func (t *vType) Equal(a, b any) bool { return a.(int) == b.(int) }

// vSType is a dictionary type over strings with a given hash function.
type vSType struct {
	h func(s string) int64
}

func (t *vSType) Hash(a any) int64    { return t.h(a.(string)) }
func (t *vSType) Equal(a, b any) bool { return a.(string) == b.(string) }

func vInit() {
	nop := func(string, ...zap.Field) {}
	log.Debug, log.Info, log.Warn, log.Error = nop, nop, nop, nop
	log.Fatal = func(m string, _ ...zap.Field) { panic("log.Fatal: " + m) }
	log.Panic = func(m string, _ ...zap.Field) { panic("log.Panic: " + m) }
}

// vModel is a mathematical map over int keys, free of path splits.
type vModel struct {
	has []bool
	val []int
}

func vNewModel(n int) *vModel { return &vModel{make([]bool, n), make([]int, n)} }

func (m *vModel) get(k int) (bool, int) {
	has, val := m.has[0], m.val[0]
	for i := 1; i < len(m.has); i++ {
		eq := k == i
		has = rt.Or(rt.And(eq, m.has[i]), rt.And(!eq, has))
		val = rt.IteInt(eq, m.val[i], val)
	}
	return has, val
}

func (m *vModel) set(k, v int) {
	for i := range m.has {
		eq := k == i
		m.has[i] = rt.Or(eq, m.has[i])
		m.val[i] = rt.IteInt(eq, v, m.val[i])
	}
}

func (m *vModel) del(k int) {
	for i := range m.has {
		m.has[i] = rt.And(m.has[i], k != i)
	}
}

func (m *vModel) size() int {
	n := 0
	for i := range m.has {
		n += rt.IteInt(m.has[i], 1, 0)
	}
	return n
}

// vKey is an arbitrary key of lo..hi.
func vKey(lo, hi int) int { return rt.Int("key", lo, hi) }

const vLayouts = 5

// vLayout is the hash of filler key i in layout p: spread, total collision,
// two buckets, negative hashes, descending.
func vLayout(p, i int) int {
	switch p {
	case 0:
		return i
	case 1:
		return 5
	case 2:
		return i%2*4 + 3
	case 3:
		return -1 - i
	}
	return 7 - i%8
}

// vDict builds a dictionary of n fillers (keys 0..n-1) in layout p, moved on
// by the given number of lookups (which advance a rehash), and free further
// keys n..n+free-1 whose hashes are arbitrary in 0..hmax.
func vDict(n, free, p, lookups, hmax int) (*Dict, *vModel, *vType) {
	t := &vType{h: make([]int, n+free)}
	for i := 0; i < n+free; i++ {
		if i < n {
			t.h[i] = vLayout(p, i)
		} else {
			t.h[i] = rt.Int("hash", 0, hmax)
		}
	}
	d := NewDict(t)
	m := vNewModel(n + free)
	for i := 0; i < n; i++ {
		d.Set(i, 100+i)
		m.set(i, 100+i)
	}
	for i := 0; i < lookups; i++ {
		d.Find(0)
	}
	return d, m, t
}

// vCheckDict looks every key up; the lookups themselves drive a rehash.
func vCheckDict(d *Dict, m *vModel, where string) {
	rt.Assert(int(d.Size()) == m.size(), where+": size equals the number of present keys")
	for i := range m.has {
		e := d.Find(i)
		rt.Assert((e != nil) == m.has[i], where+": a key is found exactly when present")
		if e != nil {
			rt.Assert(e.Value.(int) == m.val[i], where+": lookup returns the value last set")
			rt.Assert(e.Key.(int) == i, where+": lookup returns the entry of the key")
		}
	}
}

// vCheckIter checks that an iteration yields each present entry once.
func vCheckIter(d *Dict, m *vModel, where string) {
	cnt := make([]int, len(m.has))
	it := NewDictIterator(d)
	n := 0
	for e := it.Next(); e != nil; e = it.Next() {
		k := e.Key.(int)
		for i := range cnt {
			cnt[i] += rt.IteInt(k == i, 1, 0)
		}
		_, v := m.get(k)
		rt.Assert(e.Value.(int) == v, where+": iteration yields current values")
		if n++; n > 3*len(m.has) {
			break
		}
	}
	it.Release()
	for i := range cnt {
		rt.Assert(cnt[i] == rt.IteInt(m.has[i], 1, 0), where+": iteration yields every present entry exactly once and nothing else")
	}
}

func vLevels(max int) {
	vrand.LevelPlan = func() int { return rt.Choose("level", max) }
}

// vD01Op performs one arbitrary operation on key k, with an arbitrary value.
func vD01Op(d *Dict, m *vModel, k int) {
	has, val := m.get(k)
	switch rt.Choose("op", 3) {
	case 0:
		v := rt.Int("val", 0, 1<<30)
		isNew := d.Set(k, v)
		rt.Assert(isNew == !has, "Set reports whether the key was new")
		m.set(k, v)
		rt.Reach("set")
	case 1:
		err := d.Delete(k)
		rt.Assert((err == nil) == has, "Delete reports whether the key was present")
		m.del(k)
		rt.Reach("delete")
	case 2:
		g := d.Get(k)
		rt.Assert((g != nil) == has, "Get finds exactly the present keys")
		if g != nil {
			rt.Assert(g.(int) == val, "Get returns the value last set")
		}
		rt.Reach("get")
	}
	rt.Assert(int(d.Size()) == m.size(), "size equals the number of present keys")
}

// vDState is a dictionary in one of the states 0: never used, 1: few entries,
// 2: 9 entries in the middle of a rehash, advanced by 0..4 lookups, 3: emptied.
func vDState() (*Dict, *vModel) {
	p := rt.Choose("layout", vLayouts)
	switch rt.Choose("state", 4) {
	case 0:
		d, m, _ := vDict(0, 1, p, 0, 3)
		return d, m
	case 1:
		d, m, _ := vDict(3, 1, p, 0, 3)
		return d, m
	case 2:
		l := rt.Choose("lookups", 5)
		d, m, _ := vDict(9, 1, p, l, 7)
		return d, m
	}
	d, m, _ := vDict(2, 1, p, 0, 3)
	for i := 0; i < 2; i++ {
		d.Delete(i)
		m.del(i)
	}
	return d, m
}

func vLevelSeq(f func() int) { vrand.LevelPlan = f }
