package datastruct

import rt "github.com/IfanTsai/metis/verif/rt"

// Empty dictionary, 3 keys with arbitrary hashes modulo the initial table, 3 (thorough 5) arbitrary operations with arbitrary values on any of them (up to renaming of keys).
func VH_D01_small() {
	vInit()
	d, m, _ := vDict(0, 3, 0, 0, 3)
	n := 3
	if rt.Thorough() {
		n = 5
	}
	top := 0
	for i := 0; i < n; i++ {
		k := vKey(0, top) // keys in order of first use: hashes are arbitrary, so this loses nothing
		if top < 2 && rt.SplitBool(k == top) {
			top++
		}
		vD01Op(d, m, k)
	}
	vCheckDict(d, m, "end")
	vCheckIter(d, m, "end")
	rt.Observe("size", int(d.Size()))
}

// 9 filler entries (the 9th starts the growth from 4 to 8 buckets) in 5 bucket layouts incl. total collision and negative hashes, rehash advanced by 0..5 lookups, then 1 (2 after 2 lookups in layout 2; thorough 2 everywhere) arbitrary operations on any of the 9 keys or a new key with arbitrary hash.
func VH_D01_rehash() {
	vInit()
	p := rt.Choose("layout", vLayouts)
	l := rt.Choose("lookups", 6)
	d, m, _ := vDict(9, 1, p, l, 7)
	n := 1
	if l == 2 && p == 2 || rt.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		vD01Op(d, m, vKey(0, 9))
	}
	vCheckDict(d, m, "end")
	vCheckDict(d, m, "after the rehash")
	rt.Observe("size", int(d.Size()))
}

// 8 filler entries (just before growth) in 5 layouts: the insertion of a key with arbitrary hash triggers the growth, then 2 (thorough 3) arbitrary deletions, full lookups that drive the rehash to its end, and an iteration.
func VH_D01_drain() {
	vInit()
	p := rt.Choose("layout", vLayouts)
	d, m, _ := vDict(8, 1, p, 0, 15)
	rt.Assert(d.Set(8, 7), "Set reports whether the key was new")
	m.set(8, 7)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		x := vKey(0, 8)
		has, _ := m.get(x)
		rt.Assert((d.Delete(x) == nil) == has, "Delete reports whether the key was present")
		m.del(x)
	}
	vCheckDict(d, m, "after deletions")
	vCheckDict(d, m, "after the rehash")
	vCheckIter(d, m, "after the rehash")
	rt.Reach("end")
}

// Growth over several generations: 40 (thorough 150) insertions in each of 5 layouts, every key overwritten and half deleted while tables move on, with arbitrary values of one key and one key with an arbitrary hash; then everything is looked up and iterated.
func VH_D01_grow() {
	vInit()
	p := rt.Choose("layout", vLayouts)
	n := 40
	if rt.Thorough() {
		n = 150
	}
	t := &vType{h: make([]int, n+1)}
	for i := range t.h {
		t.h[i] = vLayout(p, i)
		if p == 4 {
			t.h[i] = i * 37
		}
	}
	t.h[n/2] = rt.Int("hash", 0, 31)
	d, m := NewDict(t), vNewModel(n+1)
	x := rt.Int("val", 0, 1<<30)
	for i := 0; i < n; i++ {
		rt.Assert(d.Set(i, x+i), "Set reports whether the key was new")
		m.has[i], m.val[i] = true, x+i
		if i%3 == 2 {
			rt.Assert(!d.Set(i/2, x-i), "Set reports whether the key was new")
			m.val[i/2] = x - i
		}
	}
	for i := 0; i < n; i += 2 {
		rt.Assert(d.Delete(i) == nil, "Delete reports whether the key was present")
		m.has[i] = false
		rt.Assert(d.Delete(i) != nil, "Delete reports whether the key was present")
	}
	vCheckDict(d, m, "end")
	cnt := 0
	it := NewDictIterator(d)
	for e := it.Next(); e != nil; e = it.Next() {
		cnt++
		k := rt.Split(e.Key.(int))
		rt.Assert(m.has[k], "end: iteration yields present entries")
	}
	it.Release()
	rt.Assert(cnt == m.size(), "end: iteration yields every present entry once")
	rt.Reach("end")
}
