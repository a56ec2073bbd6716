package datastruct

import rt "github.com/IfanTsai/metis/verif/rt"

func vIns(m []int, i, v int) []int {
	m = append(m, 0)
	copy(m[i+1:], m[i:])
	m[i] = v
	return m
}

func vRem(m []int, i int) []int {
	copy(m[i:], m[i+1:])
	return m[:len(m)-1]
}

// vListOp performs one arbitrary operation; at gives the position for those
// that take one.
func vListOp(q *Quicklist, m []int, at func(n int) int, v int) []int {
	n := len(m)
	switch rt.Choose("op", 6) {
	case 0:
		q.PushBack(v)
		m = append(m, v)
		rt.Reach("pushback")
	case 1:
		q.PushFront(v)
		m = vIns(m, 0, v)
		rt.Reach("pushfront")
	case 2:
		r := q.PopFront()
		rt.Assert((r == nil) == (n == 0), "PopFront returns nothing exactly when the list is empty")
		if r != nil {
			rt.Assert(r.(int) == m[0], "PopFront returns the first element")
			m = vRem(m, 0)
		}
		rt.Reach("popfront")
	case 3:
		r := q.PopBack()
		rt.Assert((r == nil) == (n == 0), "PopBack returns nothing exactly when the list is empty")
		if r != nil {
			rt.Assert(r.(int) == m[n-1], "PopBack returns the last element")
			m = m[:n-1]
		}
		rt.Reach("popback")
	case 4:
		i := at(n)
		ok := q.Insert(i, v)
		rt.Assert(ok == (i >= 0 && i <= n), "Insert accepts exactly the positions 0..length")
		if ok {
			m = vIns(m, rt.Split(i), v)
		}
		rt.Reach("insert")
	case 5:
		i := at(n)
		r := q.Remove(i)
		rt.Assert((r != nil) == (i >= 0 && i < n), "Remove accepts exactly the positions of elements")
		if r != nil {
			i = rt.Split(i)
			rt.Assert(r.(int) == m[i], "Remove returns the element at the position")
			m = vRem(m, i)
		}
		rt.Reach("remove")
	}
	rt.Assert(q.Len() == len(m), "the length is the number of elements")
	return m
}

// vListAll checks iteration in both directions against the model.
func vListAll(q *Quicklist, m []int) {
	rt.Assert(q.Len() == len(m), "the length is the number of elements")
	it := NewQuicklistIterator(q)
	n := 0
	for e := it.Next(); e != nil; e = it.Next() {
		if n >= len(m) {
			n++
			break
		}
		rt.Assert(e.(int) == m[n], "forward iteration follows the sequence")
		n++
	}
	rt.Assert(n == len(m), "forward iteration yields every element")
	if len(m) == 0 {
		return
	}
	it = NewQuicklistIterator(q)
	for range m {
		it.Next()
	}
	n = len(m) - 2
	for e := it.Prev(); e != nil; e = it.Prev() {
		if n < 0 {
			n--
			break
		}
		rt.Assert(e.(int) == m[n], "backward iteration follows the sequence")
		n--
	}
	rt.Assert(n == -1, "backward iteration yields every element")
}

func vListGet(q *Quicklist, m []int, i int) {
	g := q.Get(i)
	rt.Assert((g != nil) == (i >= 0 && i < len(m)), "Get finds exactly the positions of elements")
	if g != nil {
		rt.Assert(g.(int) == m[rt.Split(i)], "Get returns the element at the position")
	}
}

// vListRange checks one range, a..b as passed.
func vListRange(q *Quicklist, m []int, a, b int) {
	n := len(m)
	s, e := a, b
	if s < 0 {
		s += n
	}
	if e < 0 {
		e += n
	}
	var want []int
	if s >= 0 && e >= 0 && s <= e && s < n {
		if e >= n {
			e = n - 1
		}
		want = m[rt.Split(s) : rt.Split(e)+1]
	}
	got := q.Range(a, b)
	rt.Assert(len(got) == len(want), "a range has exactly the elements from start to stop")
	if len(got) == len(want) {
		for i := range want {
			rt.Assert(got[i].(int) == want[i], "a range lists its elements in order")
		}
	}
}

// Small lists: 3 (thorough 4) arbitrary operations with arbitrary values at arbitrary 64-bit positions from empty, then every position, ranges with arbitrary bounds (all 64-bit), iteration both ways and searching an arbitrary value.
func VH_L01_small() {
	vInit()
	q := NewQuicklist()
	var m []int
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		m = vListOp(q, m, func(n int) int {
			x := rt.Int("pos", -9223372036854775808, 9223372036854775807)
			return x
		}, rt.Int("val", 0, 1<<30))
	}
	vListAll(q, m)
	switch rt.Choose("query", 3) {
	case 0:
		vListGet(q, m, rt.Int("get", -9223372036854775808, 9223372036854775807))
	case 1:
		a := rt.Int("start", -9223372036854775808, 9223372036854775807)
		b := rt.Int("stop", -9223372036854775808, 9223372036854775807)
		vListRange(q, m, a, b)
		rt.Reach("range")
	case 2:
		v := rt.Int("find", 0, 1<<30)
		f := q.Find(v)
		want := -1
		for i := len(m) - 1; i >= 0; i-- {
			want = rt.IteInt(m[i] == v, i, want)
		}
		rt.Assert(f == want, "Find returns the first position of a value, or -1")
		rt.Reach("find")
	}
}

// vBig builds lists around page boundaries: full pages, split pages, pages emptied in the middle.
func vBig(kind int) (*Quicklist, []int) {
	q := NewQuicklist()
	var m []int
	push := func(n int) {
		for i := 0; i < n; i++ {
			v := -10000 - len(m)
			q.PushBack(v)
			m = append(m, v)
		}
	}
	ins := func(i int) {
		v := -50000 - len(m)
		q.Insert(i, v)
		m = vIns(m, i, v)
	}
	del := func(i, n int) {
		for ; n > 0; n-- {
			q.Remove(i)
			m = vRem(m, i)
		}
	}
	switch kind {
	case 0:
		push(1023)
	case 1:
		push(1024)
	case 2:
		push(1025)
	case 3: // split in the first half, then pages 513+512
		push(1024)
		ins(100)
	case 4: // split in the second half
		push(1024)
		ins(900)
	case 5: // three pages
		push(2050)
	case 6: // split first page of three, second page emptied to one element
		push(2050)
		ins(512)
		del(513, 511)
	case 7: // first page removed entirely
		push(1030)
		del(0, 1024)
	case 8: // filled again after a split
		push(1024)
		ins(0)
		push(600)
	}
	return q, m
}

var vSpots = []int{0, 1, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026}

func vSpot(n int) int {
	k := rt.Choose("spot", len(vSpots)+4)
	if k < len(vSpots) {
		return vSpots[k]
	}
	return n - 2 + (k - len(vSpots)) // n-2..n+1
}

// Lists in 9 states around the 1024-element pages (full, split in either half, three pages, pages nearly emptied or removed): an arbitrary operation with an arbitrary value at one of 15 positions around page borders and the end, then length, 20 positions, both iterations, searching the value and a range across pages.
func VH_L01_pages() {
	vInit()
	q, m := vBig(rt.Choose("list", 9))
	v := rt.Int("val", 0, 1<<20)
	n := 1
	if rt.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		m = vListOp(q, m, vSpot, v+i)
	}
	vListAll(q, m)
	for _, i := range vSpots {
		vListGet(q, m, i)
	}
	for _, i := range []int{-1, len(m) / 2, len(m)/2 - 1, len(m) - 2, len(m) - 1, len(m), 700, 300, 1500} {
		vListGet(q, m, i)
	}
	x := rt.Int("find", 0, 1<<20)
	f := q.Find(x)
	want := -1
	for i := len(m) - 1; i >= 0; i-- {
		if m[i] == x {
			want = i
		}
	}
	rt.Assert(f == want, "Find returns the first position of a value, or -1")
	for _, r := range [][2]int{{510, 515}, {1020, 1030}, {-5, -1}, {len(m) - 3, 1 << 62}, {-len(m), 2}} {
		vListRange(q, m, r[0], r[1])
	}
	rt.Reach("end")
}
