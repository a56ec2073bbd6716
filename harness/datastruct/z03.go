package datastruct

import (
	"math"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// vZDeleted checks the returned elements and removes [lo,hi) from the model.
func vZDeleted(es []*ZsetElement, m *vZModel, lo, hi int, where string) {
	vZList(es, m, lo, hi, false, where+": removed elements")
	var gone []int
	for k := range m.has {
		if m.has[k] {
			if r := rt.Split(m.rank(k)); r >= lo && r < hi {
				gone = append(gone, k)
			}
		}
	}
	for _, k := range gone {
		m.has[k] = false
	}
}

// Sets of 0..5 members in 4 level patterns: deleting an arbitrary 64-bit rank range, then another one, then adding a member.
func VH_Z03_rank() {
	vInit()
	n := rt.Choose("n", 6)
	z, m := vZFixed(n)
	rounds := 1
	if n == 4 || rt.Thorough() {
		rounds = 2
	}
	for i := 0; i < rounds; i++ {
		n := m.size()
		a := rt.Int("start", math.MinInt64, math.MaxInt64)
		b := rt.Int("end", math.MinInt64, math.MaxInt64)
		rt.Assume(rt.And(a >= 0, b >= 0))
		es := z.DeleteRangeByRank(int64(a), int64(b))
		lo := rt.Split(rt.IteInt(a > n, n, a))
		hi := rt.Split(rt.IteInt(b >= n, n, b+1))
		vZDeleted(es, m, lo, hi, "rank range")
		vZCheck(z, m, "after the deletion")
	}
	vZAdd(z, m, 5, vScore())
	vZCheck(z, m, "after an addition")
	rt.Reach("end")
}

// Deleting rank ranges with a negative bound: elements outside the range stay.
func VH_Z03_negative() {
	vInit()
	n := rt.Choose("n", 4)
	z, m := vZFixed(n)
	a := rt.Int("start", math.MinInt64, math.MaxInt64)
	b := rt.Int("end", math.MinInt64, math.MaxInt64)
	rt.Assume(rt.Or(a < 0, b < 0))
	es := z.DeleteRangeByRank(int64(a), int64(b))
	if rt.SplitBool(rt.Or(b < 0, a > b)) || len(es) == 0 {
		rt.Assert(len(es) == 0, "an empty or inverted range removes nothing")
	} else {
		vZDeleted(es, m, 0, rt.Split(rt.IteInt(b >= n, n, b+1)), "rank range")
	}
	vZCheck(z, m, "after the deletion")
}

// Sets of 0..3 members with arbitrary scores and levels, or 4..5 with fixed scores in 4 level patterns: deleting an arbitrary score range (bounds any float64 but NaN), then adding a member.
func VH_Z03_score() {
	vInit()
	n := rt.Choose("n", 6)
	var z *Zset
	var m *vZModel
	if n <= 3 && (n < 3 || rt.Thorough()) {
		vLevels(2)
		z, m = vNewZ()
		for i := 0; i < n; i++ {
			vZAdd(z, m, i, vScore())
		}
	} else {
		z, m = vZFixed(n)
	}
	lo, hi := vScore(), vScore()
	below, in := 0, 0
	for k := 0; k < n; k++ {
		below += rt.IteInt(m.score[k] < lo, 1, 0)
		in += rt.IteInt(rt.And(m.score[k] >= lo, m.score[k] <= hi), 1, 0)
	}
	es := z.DeleteRangeByScore(lo, hi)
	first, cnt := rt.Split(below), rt.Split(in)
	vZDeleted(es, m, first, first+cnt, "score range")
	vZCheck(z, m, "after the deletion")
	vZAdd(z, m, 5, vScore())
	vZCheck(z, m, "after an addition")
	rt.Reach("end")
}
