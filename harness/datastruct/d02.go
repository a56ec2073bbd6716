package datastruct

import rt "github.com/IfanTsai/metis/verif/rt"

// vAfter uses the dictionary after iterations: lookups, a new key, deletions.
func vAfter(d *Dict, m *vModel) {
	vCheckDict(d, m, "after release")
	n := len(m.has) - 1
	v := rt.Int("val", 0, 1<<30)
	has, _ := m.get(n)
	rt.Assert(d.Set(n, v) == !has, "after release: Set reports whether the key was new")
	m.set(n, v)
	vCheckDict(d, m, "after release")
	vCheckIter(d, m, "after release")
}

// Dictionaries never used, with 3 entries, with 9 entries half-way through a rehash, or emptied, in 5 layouts: while iterating, at 1 (thorough 2) arbitrary entries the current entry or an arbitrary earlier one is deleted, or an arbitrary key looked up.
func VH_D02_iterate() {
	vInit()
	d, m := vDState()
	acts := 1
	if rt.Thorough() {
		acts = 2
	}
	var at [2]int
	for i := 0; i < acts; i++ {
		at[i] = rt.Choose("at", 10)
		if i > 0 {
			rt.Assume(at[i] >= at[i-1])
		}
	}
	start := append([]bool(nil), m.has...)
	cnt := make([]int, len(m.has))
	var seen []int
	it := NewDictIterator(d)
	for e := it.Next(); e != nil; e = it.Next() {
		k := rt.Split(e.Key.(int))
		_, v := m.get(k)
		rt.Assert(e.Value.(int) == v, "iteration yields current values")
		cnt[k]++
		seen = append(seen, k)
		if len(seen) > 3*len(cnt) {
			break
		}
		for i := 0; i < acts; i++ {
			if at[i] != len(seen)-1 {
				continue
			}
			switch rt.Choose("act", 3) {
			case 0:
				has, _ := m.get(k)
				rt.Assert((d.Delete(k) == nil) == has, "Delete reports whether the key was present")
				m.del(k)
				rt.Reach("delete current")
			case 1:
				x := seen[rt.Choose("victim", len(seen))]
				has, _ := m.get(x)
				rt.Assert((d.Delete(x) == nil) == has, "Delete reports whether the key was present")
				m.del(x)
				rt.Reach("delete earlier")
			case 2:
				x := vKey(0, len(m.has)-1)
				has, _ := m.get(x)
				rt.Assert((d.Find(x) != nil) == has, "lookups during iteration are exact")
				rt.Reach("lookup")
			}
		}
	}
	it.Release()
	for k := range cnt {
		rt.Assert(cnt[k] == rt.IteInt(start[k], 1, 0), "iteration yields every present entry exactly once and nothing else")
	}
	vAfter(d, m)
}

// Two iterators advanced in an arbitrary order (5, thorough 8, switching decisions), one of them possibly released early or unused, with lookups between all steps.
func VH_D02_two() {
	vInit()
	d, m := vDState()
	its := [2]*DictIterator{NewDictIterator(d), NewDictIterator(d)}
	var cnt [2][]int
	var end, rel [2]bool
	cnt[0], cnt[1] = make([]int, len(m.has)), make([]int, len(m.has))
	early := rt.Choose("early", 4) // the second iterator is released after that many steps; 3: at its end
	steps2, sw := 0, 5
	if rt.Thorough() {
		sw = 8
	}
	for n := 0; !(rel[0] && rel[1]) && n < 100; n++ {
		w := n & 1
		if n < sw {
			w = rt.Choose("which", 2)
		}
		if rel[w] {
			continue
		}
		if w == 1 && steps2 == early && early < 3 {
			its[1].Release()
			rel[1] = true
			rt.Reach("released early")
			continue
		}
		e := its[w].Next()
		if w == 1 {
			steps2++
		}
		if e == nil {
			end[w] = true
			its[w].Release()
			rel[w] = true
		} else {
			k := rt.Split(e.Key.(int))
			cnt[w][k]++
		}
		rt.Assert((d.Find(0) != nil) == m.has[0], "lookups during iteration are exact")
	}
	for w := range cnt {
		for k := range cnt[w] {
			if end[w] {
				rt.Assert(cnt[w][k] == rt.IteInt(m.has[k], 1, 0), "iteration yields every present entry exactly once and nothing else")
			} else {
				rt.Assert(cnt[w][k] <= rt.IteInt(m.has[k], 1, 0), "iteration yields no entry twice")
			}
		}
	}
	vAfter(d, m)
}

// A deep copy in each of the states is equal and stays so while the original is changed by 1 (thorough 2) arbitrary operations (and the other way round).
func VH_D02_copy() {
	vInit()
	d, m := vDState()
	c := d.DeepCopy()
	cm := &vModel{append([]bool(nil), m.has...), append([]int(nil), m.val...)}
	x, xm, y, ym := d, m, c, cm
	if rt.Choose("which", 2) == 1 {
		x, xm, y, ym = c, cm, d, m
	}
	n := 1
	if rt.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		vD01Op(x, xm, vKey(0, len(m.has)-1))
	}
	vCheckDict(y, ym, "the other copy")
	vCheckIter(y, ym, "the other copy")
	vAfter(x, xm)
}

// A deep copy of a dictionary holding a hash, a set, a sorted set and a list is unaffected by an arbitrary change (string value, score, position) inside any of them; 0..3 elements with equal hashes, or 9 or 11 with different ones (tables being rehashed).
func VH_D02_nested() {
	vInit()
	n := []int{0, 1, 2, 3, 9, 11}[rt.Choose("size", 6)]
	st := &vSType{h: func(s string) int64 {
		if n > 3 && len(s) > 0 {
			return int64(s[0])
		}
		return int64(len(s))
	}}
	d := NewDict(st)
	h, s, z, q := NewDict(st), NewSet(st), NewZset(st), NewQuicklist()
	names := []string{"a", "b", "c", "x", "d", "e", "f", "g", "h", "i", "j", "k"}
	for i := 0; i < n; i++ {
		h.Set(names[i], "v"+names[i])
		s.Add(names[i])
		z.Add(float64(i), names[i])
		q.PushBack(names[i])
	}
	d.Set("hash", h)
	d.Set("set", s)
	d.Set("zset", z)
	d.Set("list", q)
	d.Set("string", "text")
	c := d.DeepCopy()
	b := string([]byte{rt.Byte("value")})
	f := rt.Float("score")
	rt.Assume(f == f)
	i := rt.Choose("index", 4)
	nm := names[i]
	switch rt.Choose("change", 9) {
	case 0:
		h.Set(nm, b)
	case 1:
		h.Delete(nm)
	case 2:
		s.Add("z")
	case 3:
		s.Delete(nm)
	case 4:
		z.Add(f, nm)
	case 5:
		z.Delete(nm)
	case 6:
		q.PushFront(b)
	case 7:
		q.Remove(i)
	case 8:
		q.Insert(i, b)
		d.Set("string", b)
	}
	ch, ok1 := c.Get("hash").(*Dict)
	cs, ok2 := c.Get("set").(*Set)
	cz, ok3 := c.Get("zset").(*Zset)
	cq, ok4 := c.Get("list").(*Quicklist)
	cstr, ok5 := c.Get("string").(string)
	rt.Assert(ok1 && ok2 && ok3 && ok4 && ok5, "the copy holds values of the same kinds")
	rt.Assert(cstr == "text", "the copy keeps strings")
	rt.Assert(ch.Size() == int64(n) && cs.Size() == int64(n) && cz.Size() == int64(n) && cq.Len() == n, "the copy keeps the sizes of collections")
	for i := 0; i < n; i++ {
		v, _ := ch.Get(names[i]).(string)
		rt.Assert(v == "v"+names[i], "the copy keeps hash fields")
		rt.Assert(cs.Contains(names[i]), "the copy keeps set members")
		e := cz.Get(names[i])
		rt.Assert(e != nil && e.Score == float64(i), "the copy keeps scores")
		rt.Assert(cz.GetRank(names[i], false) == int64(i), "the copy keeps sorted-set order")
		qv, _ := cq.Get(i).(string)
		rt.Assert(qv == names[i], "the copy keeps list elements")
	}
	rt.Reach("end")
}

// vCount is a type of int keys that are their own hashes; it counts comparisons.
type vCount struct{ n int }

func (t *vCount) Hash(a any) int64    { return int64(a.(int)) }
func (t *vCount) Equal(a, b any) bool { t.n++; return a.(int) == b.(int) }

// A dictionary of 0..9 entries moved on by 0..3 lookups (at 5 and 9 entries a rehash is under way); one or two iterators that each take 0..all steps and are released (the first possibly before the second starts), or one or two deep copies are made (the second of the first, which is gone on with); then 120 further entries: every lookup takes at most 8 comparisons, so rehashing went on.
func VH_D02_resumes() {
	vInit()
	t := &vCount{}
	d := NewDict(t)
	n := rt.Choose("entries", 10)
	for i := 0; i < n; i++ {
		d.Set(i, i)
	}
	for i := rt.Choose("lookups", 4); i > 0; i-- {
		d.Find(0)
	}
	a := NewDictIterator(d)
	walk := func(it *DictIterator) {
		for k := rt.Choose("steps", 3) * (n + 1) / 2; k > 0; k-- {
			if it.Next() == nil {
				break
			}
		}
	}
	switch rt.Choose("iterators", 5) {
	case 3:
		rt.Assert(d.DeepCopy().Size() == int64(n), "a copy has every entry")
	case 4:
		walk(a)
		c := d.DeepCopy()
		a.Release()
		rt.Assert(c.DeepCopy().Size() == int64(n), "a copy has every entry")
		d = c
	case 0:
		walk(a)
		a.Release()
	case 1:
		b := NewDictIterator(d)
		walk(a)
		walk(b)
		a.Release()
		b.Release()
	case 2:
		walk(a)
		a.Release()
		b := NewDictIterator(d)
		walk(b)
		b.Release()
	}
	last := rt.Int("absent", 1000, 1003)
	for i := n; i < n+120; i++ {
		d.Set(i, i)
	}
	for i := 0; i < n+120; i++ {
		t.n = 0
		e := d.Find(i)
		rt.Assert(e != nil && e.Value.(int) == i, "after release: every entry is found")
		rt.Assert(t.n <= 8, "after release: rehashing resumes and completes")
	}
	rt.Assert(d.Find(last) == nil, "after release: an absent key is not found")
}
