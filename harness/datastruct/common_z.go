package datastruct

import (
	"math"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// members in ascending order
var vZNames = []string{"", "a", "ab", "b", "c", "d"}

type vZModel struct {
	has   []bool
	score []float64
}

func vNewZ() (*Zset, *vZModel) {
	z := NewZset(&vSType{h: func(s string) int64 {
		for i, n := range vZNames {
			if n == s {
				return int64(i)
			}
		}
		return 7
	}})
	return z, &vZModel{make([]bool, len(vZNames)), make([]float64, len(vZNames))}
}

func (m *vZModel) size() int {
	n := 0
	for _, b := range m.has {
		if b {
			n++
		}
	}
	return n
}

func vScore() float64 {
	f := rt.Float("score")
	rt.Assume(f == f)
	return f
}

func vZAdd(z *Zset, m *vZModel, k int, f float64) {
	isNew := z.Add(f, vZNames[k])
	rt.Assert(isNew == !m.has[k], "Add reports whether the member was new")
	m.has[k], m.score[k] = true, f
}

// before tells whether member i precedes member j.
func (m *vZModel) before(i, j int) bool {
	return rt.Or(m.score[i] < m.score[j], rt.And(m.score[i] == m.score[j], i < j))
}

// rank is the ascending position of present member k.
func (m *vZModel) rank(k int) int {
	r := 0
	for i := range m.has {
		if m.has[i] && i != k {
			r += rt.IteInt(m.before(i, k), 1, 0)
		}
	}
	return r
}

func vZIndex(s string) int {
	for i, n := range vZNames {
		if n == s {
			return i
		}
	}
	return -1
}

// vZList checks that a listing is exactly the present members with lo<=rank<hi
// in ascending (descending) order.
func vZList(es []*ZsetElement, m *vZModel, lo, hi int, reverse bool, where string) {
	n := m.size()
	if hi > n {
		hi = n
	}
	if hi < lo {
		hi = lo
	}
	rt.Assert(len(es) == hi-lo, where+": exactly the elements of the range")
	if len(es) != hi-lo {
		return
	}
	for i, e := range es {
		rt.Assert(e != nil, where+": every element exists")
		if e == nil {
			return
		}
		k := vZIndex(e.Member)
		rt.Assert(k >= 0 && m.has[k], where+": only present members")
		if k < 0 || !m.has[k] {
			return
		}
		rt.Assert(e.Score == m.score[k], where+": the latest score of each member")
		r := lo + i
		if reverse {
			r = n - 1 - lo - i
		}
		rt.Assert(m.rank(k) == r, where+": elements in order of score and member")
	}
}

// vZCheck compares everything observable with the model.
func vZCheck(z *Zset, m *vZModel, where string) {
	n := m.size()
	rt.Assert(z.Size() == int64(n), where+": size is the number of members")
	for k := range m.has {
		e := z.Get(vZNames[k])
		rt.Assert((e != nil) == m.has[k], where+": a member is found exactly when present")
		r, rr := z.GetRank(vZNames[k], false), z.GetRank(vZNames[k], true)
		if !m.has[k] {
			rt.Assert(r == -1 && rr == -1, where+": an absent member has no rank")
			continue
		}
		if e != nil {
			rt.Assert(e.Score == m.score[k], where+": score lookup gives the latest score")
			rt.Assert(e.Member == vZNames[k], where+": score lookup gives the member")
		}
		rt.Assert(r == int64(m.rank(k)), where+": the rank of a member is its position")
		rt.Assert(rr == int64(n-1-m.rank(k)), where+": the reverse rank of a member is its position from the end")
	}
	vZList(z.RangeByRank(0, math.MaxInt64, false), m, 0, n, false, where+", forwards")
	vZList(z.RangeByRank(0, math.MaxInt64, true), m, 0, n, true, where+", backwards")
	rt.Assert(z.Count(math.Inf(-1), math.Inf(1)) == int64(n), where+": counting all gives the size")
}

// vZFixed is a sorted set of n members with scores 0..n-1 (two of them equal
// when tie) and one of 4 level patterns.
func vZFixed(n int) (*Zset, *vZModel) {
	pat, cnt := rt.Choose("levels", 4), 0
	vLevelSeq(func() int {
		cnt++
		switch pat {
		case 0:
			return 0
		case 1:
			return cnt % 2
		case 2:
			return 2 - cnt%3
		}
		return cnt
	})
	tie := rt.Choose("tie", 2)
	z, m := vNewZ()
	for i := 0; i < n; i++ {
		k := (i*2 + 1) % n // insertion order differs from rank order
		if n%2 == 0 {
			k = n - 1 - i
		}
		f := float64(k)
		if tie == 1 && k == 1 {
			f = 0
		}
		vZAdd(z, m, k, f)
	}
	return z, m
}
