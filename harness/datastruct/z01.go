package datastruct

import rt "github.com/IfanTsai/metis/verif/rt"

// vZOp performs one arbitrary addition, update or removal of member k.
func vZOp(z *Zset, m *vZModel, k int) {
	if rt.Choose("op", 3) < 2 {
		vZAdd(z, m, k, vScore())
		rt.Reach("add")
		return
	}
	ok := z.Delete(vZNames[k])
	rt.Assert(ok == m.has[k], "Delete reports whether the member was present")
	m.has[k] = false
	rt.Reach("delete")
}

// Up to 3 members (incl. the empty string): additions with arbitrary scores, then an arbitrary update, removal or addition and another one; every outcome of the level choice up to 2 (thorough 3) levels. Scores are all of float64 but NaN.
func VH_Z01_history() {
	vInit()
	lv := 2
	if rt.Thorough() {
		lv = 3
	}
	vLevels(lv)
	z, m := vNewZ()
	n := rt.Choose("n", 3)
	for i := 0; i < n; i++ {
		vZAdd(z, m, i, vScore())
	}
	vZOp(z, m, rt.Choose("member", n+1))
	vZCheck(z, m, "after one change")
	if n == 2 && !rt.Thorough() {
		return
	}
	vZOp(z, m, rt.Choose("member", n+1))
	vZCheck(z, m, "after two changes")
}

// 3 members with scores 0..2 in any arrangement and levels up to 3: an update to an arbitrary score or a removal of any of them.
func VH_Z01_update() {
	vInit()
	vLevels(3)
	z, m := vNewZ()
	for i := 0; i < 3; i++ {
		vZAdd(z, m, i, float64(rt.Choose("s", 2)))
	}
	vLevels(2)
	vZOp(z, m, rt.Choose("member", 3))
	vZCheck(z, m, "at the end")
}

// 5 members with 6 level patterns (one beyond the number of levels a list has), one of them updated three times to arbitrary scores (quick: twice), then removed.
func VH_Z01_churn() {
	vInit()
	pat := rt.Choose("levels", 6)
	cnt := 0
	vLevelSeq(func() int {
		cnt++
		switch pat {
		case 0:
			return 0
		case 1:
			return cnt % 2
		case 2:
			return cnt % 3
		case 3:
			return 3 - cnt%4
		case 5: // more than any list has levels
			if cnt%2 == 0 {
				return 100
			}
			return 0
		}
		return cnt
	})
	z, m := vNewZ()
	for i := 0; i < 5; i++ {
		vZAdd(z, m, i, float64((i*3)%5))
	}
	k := rt.Choose("member", 5)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		vZAdd(z, m, k, vScore())
		vZCheck(z, m, "after an update")
	}
	rt.Assert(z.Delete(vZNames[k]), "Delete reports whether the member was present")
	m.has[k] = false
	vZCheck(z, m, "after the removal")
}
