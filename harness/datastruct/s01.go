package datastruct

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
)

var vNames = []string{"", "a", "b", "c", "d", "e", "f", "g", "h", "i"}

// vSets builds two sets over the given names with arbitrary membership of the
// first free names and fixed membership of the others.
func vHashOf(h []int) func(string) int64 {
	return func(s string) int64 {
		for i, n := range vNames {
			if n == s {
				return int64(h[i])
			}
		}
		return 99
	}
}

func vMembers(n int) []bool {
	r := make([]bool, len(vNames))
	for i := 0; i < n; i++ {
		r[i] = rt.Choose("member", 2) == 1
	}
	return r
}

func vMkSet(t DictType, in []bool) *Set {
	s := NewSet(t)
	for i, b := range in {
		if b {
			s.Add(vNames[i])
		}
	}
	return s
}

func vCheckSet(s *Set, in []bool, where string) {
	n := 0
	for i, b := range in {
		rt.Assert(s.Contains(vNames[i]) == b, where+": membership is exact")
		if b {
			n++
		}
	}
	rt.Assert(s.Size() == int64(n), where+": size is the number of members")
	var cnt [10]int
	for _, x := range s.Range() {
		for i := range in {
			if x.(string) == vNames[i] {
				cnt[i]++
			}
		}
	}
	for i, b := range in {
		rt.Assert(cnt[i] == rt.IteInt(b, 1, 0), where+": members are listed once each")
	}
}

// vUse checks that an operand still works: additions, deletions, completion of a rehash.
func vUse(s *Set, in []bool, where string) {
	vCheckSet(s, in, where)
	for i := range in {
		rt.Assert(s.Add(vNames[i]) == !in[i], where+": Add reports whether the member was new")
	}
	all := make([]bool, len(in))
	for i := range all {
		all[i] = true
	}
	vCheckSet(s, all, where)
	for i := range in {
		if i%2 == 0 {
			rt.Assert(s.Delete(vNames[i]) == nil, where+": Delete reports whether the member was present")
			all[i] = false
			rt.Assert(s.Delete(vNames[i]) != nil, where+": Delete reports whether the member was present")
		}
	}
	vCheckSet(s, all, where)
}

func vAlgebra(a, b *Set, ia, ib []bool) {
	n := len(vNames)
	want := make([]bool, n)
	var r *Set
	switch rt.Choose("op", 3) {
	case 0:
		r = a.Union(b)
		for i := range want {
			want[i] = ia[i] || ib[i]
		}
		rt.Reach("union")
	case 1:
		r = a.Intersect(b)
		for i := range want {
			want[i] = ia[i] && ib[i]
		}
		rt.Reach("intersect")
	case 2:
		r = a.Difference(b)
		for i := range want {
			want[i] = ia[i] && !ib[i]
		}
		rt.Reach("difference")
	}
	vCheckSet(r, want, "result")
	vCheckSet(a, ia, "left operand")
	vCheckSet(b, ib, "right operand")
	// the result is independent of the operands
	r.Add("zz")
	r.Delete(vNames[0])
	rt.Assert(!a.Contains("zz") && !b.Contains("zz"), "changing the result leaves the operands alone")
	rt.Assert(a.Contains(vNames[0]) == ia[0] && b.Contains(vNames[0]) == ib[0], "changing the result leaves the operands alone")
	vUse(a, ia, "left operand")
	if b != a {
		vUse(b, ib, "right operand")
	}
}

// Two sets with arbitrary membership of 3 members (one the empty string) each, two of them with arbitrary hashes 0..3, and a set with itself: result, operands, later use of both.
func VH_S01_small() {
	vInit()
	h := make([]int, len(vNames))
	for i := range h {
		h[i] = i
		if i == 1 || i == 2 {
			h[i] = rt.Int("hash", 0, 3)
		}
	}
	t := &vSType{h: vHashOf(h)}
	ia := vMembers(3)
	a := vMkSet(t, ia)
	ib, b := ia, a
	if rt.Choose("self", 2) == 0 {
		ib = vMembers(3)
		b = vMkSet(t, ib)
	} else {
		rt.Reach("self")
	}
	vAlgebra(a, b, ia, ib)
}

// Sets with 9 or 10 members in the middle of a rehash (advanced by 0..4 lookups, 3 layouts, one arbitrary hash) combined with a set of 0, 2 or 9 members or with themselves.
func VH_S01_rehash() {
	vInit()
	p := rt.Choose("layout", 3)
	h := make([]int, len(vNames))
	for i := range h {
		h[i] = vLayout(p, i)
	}
	h[4] = rt.Int("hash", 0, 7)
	t := &vSType{h: vHashOf(h)}
	ia := make([]bool, len(vNames))
	na := 9 + rt.Choose("n", 2)
	for i := 0; i < na; i++ {
		ia[i] = true
	}
	a := vMkSet(t, ia)
	for i := rt.Choose("lookups", 5); i > 0; i-- {
		a.Contains("a")
	}
	ib := make([]bool, len(vNames))
	b := a
	k := rt.Choose("other", 4)
	switch k {
	case 0:
		ib = ia
	case 1:
		b = vMkSet(t, ib)
	case 2:
		ib[3], ib[9] = true, true
		b = vMkSet(t, ib)
	case 3:
		for i := range ib {
			ib[i] = i != 2
		}
		b = vMkSet(t, ib)
	}
	if rt.Choose("swap", 2) == 1 {
		a, b, ia, ib = b, a, ib, ia
	}
	vAlgebra(a, b, ia, ib)
}

// Two sets of up to 2 (thorough 3) arbitrary one-byte members each, hashed by their low two bits: membership of an arbitrary byte in union, intersection, difference and both operands.
func VH_S01_any() {
	vInit()
	t := &vSType{h: func(s string) int64 { return int64(s[0] & 3) }}
	max := 2
	if rt.Thorough() {
		max = 3
	}
	mk := func() (*Set, []byte) {
		s := NewSet(t)
		bs := make([]byte, rt.Choose("n", max+1))
		for i := range bs {
			bs[i] = rt.Byte("member")
			s.Add(string(bs[i : i+1]))
		}
		return s, bs
	}
	in := func(bs []byte, p byte) bool {
		r := false
		for _, b := range bs {
			r = rt.Or(r, b == p)
		}
		return r
	}
	a, as := mk()
	b, bs := mk()
	p := rt.Byte("probe")
	ps := string([]byte{p})
	want := false
	var r *Set
	switch rt.Choose("op", 3) {
	case 0:
		r = a.Union(b)
		want = rt.Or(in(as, p), in(bs, p))
	case 1:
		r = a.Intersect(b)
		want = rt.And(in(as, p), in(bs, p))
	case 2:
		r = a.Difference(b)
		want = rt.And(in(as, p), !in(bs, p))
	}
	rt.Assert(r.Contains(ps) == want, "result: membership is exact")
	rt.Assert(a.Contains(ps) == in(as, p), "left operand: membership is exact")
	rt.Assert(b.Contains(ps) == in(bs, p), "right operand: membership is exact")
	rt.Assert(r.Size() == int64(len(r.Range())), "result: size is the number of members")
}

// vCountS is a hash type that counts comparisons.
type vCountS struct{ n int }

func (t *vCountS) Hash(a any) int64 {
	h := int64(7)
	for _, c := range []byte(a.(string)) {
		h = h*10 + int64(c-'0')
	}
	return h
}
func (t *vCountS) Equal(a, b any) bool { t.n++; return a.(string) == b.(string) }

// sets of 0/3/5/9 and 0/5/9 members moved on by 0 or 2 lookups (at 9 members a rehash is under way), with a common member or not; a union, intersection, difference (of the two, in both roles, or of one with itself) or listing; then 60 members are added to each: every lookup takes at most 8 comparisons, so both keep growing
func VH_S01_grows() {
	vInit()
	t := &vCountS{}
	mk := func(n, from int) *Set {
		s := NewSet(t)
		for i := 0; i < n; i++ {
			s.Add(strconv.Itoa(from + i))
		}
		for i := 2 * rt.Choose("lookups", 2); i > 0; i-- {
			s.Contains("0")
		}
		return s
	}
	n, k := []int{0, 3, 5, 9}[rt.Choose("members", 4)], []int{0, 5, 9}[rt.Choose("others", 3)]
	from := rt.Choose("common", 2) * 20
	a, b := mk(n, 0), mk(k, from)
	x, y := a, b
	switch rt.Choose("roles", 3) {
	case 1:
		x, y = b, a
	case 2:
		y = x
	}
	switch rt.Choose("operation", 4) {
	case 0:
		x.Union(y)
	case 1:
		x.Intersect(y)
	case 2:
		x.Difference(y)
	case 3:
		x.Range()
	}
	absent := "99" + string([]byte{'0' + byte(rt.Int("absent", 0, 1))})
	for _, s := range []*Set{a, b} {
		for i := 0; i < 60; i++ {
			s.Add(strconv.Itoa(i + 100))
		}
		for i := 0; i < 60; i++ {
			t.n = 0
			ok := s.Contains(strconv.Itoa(i + 100))
			rt.Assert(ok, "after an operation: an operand finds every member")
			rt.Assert(t.n <= 8, "after an operation: an operand goes on growing")
		}
		rt.Assert(!s.Contains(absent), "after an operation: an absent member is not found")
	}
}
