package datastruct

import (
	"math"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// Sets of 0..5 members in 4 level patterns, with and without a tie: rank ranges with arbitrary 64-bit bounds, both directions. Negative bounds: nothing outside the range is returned.
func VH_Z02_rank() {
	vInit()
	n := rt.Choose("n", 6)
	z, m := vZFixed(n)
	a := rt.Int("start", math.MinInt64, math.MaxInt64)
	b := rt.Int("end", math.MinInt64, math.MaxInt64)
	rev := rt.Choose("reverse", 2) == 1
	es := z.RangeByRank(int64(a), int64(b), rev)
	if rt.SplitBool(rt.Or(a < 0, b < 0)) {
		if rt.SplitBool(rt.Or(b < 0, a > b)) || len(es) == 0 {
			rt.Assert(len(es) == 0, "an empty or inverted range returns nothing")
		} else {
			vZList(es, m, 0, rt.Split(rt.IteInt(b >= n, n, b+1)), rev, "a range from before the start")
		}
	} else {
		lo := rt.Split(rt.IteInt(a > n, n, a))
		hi := rt.Split(rt.IteInt(b >= n, n, b+1))
		vZList(es, m, lo, hi, rev, "rank range")
		rt.Reach("range")
	}
	vZCheck(z, m, "afterwards")
}

// Sets of 0..3 members with arbitrary scores and levels, or 4..5 with fixed scores in 4 level patterns: score ranges with arbitrary float64 bounds (not NaN), both directions, limits -2..2^63-1 and the count.
func VH_Z02_score() {
	vInit()
	n := rt.Choose("n", 6)
	var z *Zset
	var m *vZModel
	if n <= 3 && (n < 3 || rt.Thorough()) {
		vLevels(2)
		z, m = vNewZ()
		for i := 0; i < n; i++ {
			vZAdd(z, m, i, vScore())
		}
	} else {
		z, m = vZFixed(n)
	}
	lo, hi := vScore(), vScore()
	rev := rt.Choose("reverse", 2) == 1
	limit := rt.Int("limit", -2, math.MaxInt64)
	es := z.RangeByScore(lo, hi, int64(limit), rev)
	below, in := 0, 0
	for k := 0; k < n; k++ {
		below += rt.IteInt(m.score[k] < lo, 1, 0)
		in += rt.IteInt(rt.And(m.score[k] >= lo, m.score[k] <= hi), 1, 0)
	}
	rt.Assert(z.Count(lo, hi) == int64(in), "counting a score range gives the number of its elements")
	first := rt.Split(below)
	cnt := rt.Split(in)
	if rev {
		first = n - first - cnt
	}
	if cnt == 0 {
		first = 0
	}
	want := rt.Split(rt.IteInt(rt.And(limit >= 0, limit < cnt), limit, cnt))
	vZList(es, m, first, first+want, rev, "score range")
	if cnt > 0 {
		rt.Reach("some")
	}
	vZCheck(z, m, "afterwards")
}

// Emptied sets and sets after removals at either end: rank and score ranges see what is left.
func VH_Z02_removed() {
	vInit()
	z, m := vZFixed(4)
	for i := 0; i < 4; i++ {
		k := (i + rt.Choose("first", 2)*3) % 4
		if rt.Choose("stop", 2) == 1 {
			break
		}
		if z.Delete(vZNames[k]) {
			m.has[k] = false
		}
	}
	n := m.size()
	rev := rt.Choose("reverse", 2) == 1
	a := rt.Choose("start", 5)
	vZList(z.RangeByRank(int64(a), 10, rev), m, a, 11, rev, "rank range")
	vZList(z.RangeByScore(math.Inf(-1), math.Inf(1), -1, rev), m, 0, n, rev, "score range")
	vZCheck(z, m, "afterwards")
}
