package datastruct

import (
	"cmp"
	"slices"

	rt "github.com/IfanTsai/metis/verif/rt"
)

func VH_X03_a() {
	a := []int{rt.Int("a", 0, 3), rt.Int("b", 0, 3), 2}
	b := slices.Clone(a)
	slices.Sort(b)
	rt.Assert(rt.And(b[0] <= b[1], b[1] <= b[2]), "sorted")
	slices.SortFunc(a, func(x, y int) int { return cmp.Compare(y, x) })
	rt.Observe("s", a[0], b[0])
}
func VH_X03_b() {
	a := []int{rt.Int("a", 0, 3), rt.Int("b", 0, 3), 2}
	b := slices.Clone(a)
	slices.Sort(b)
	rt.Assert(rt.And(b[0] <= b[1], b[1] <= b[2]), "sorted")
	slices.SortFunc(a, func(x, y int) int { return cmp.Compare(y, x) })
	rt.Observe("s", slices.Contains(a, 3), slices.Index(a, 2), slices.Max(a), slices.Equal(a, b))
}
