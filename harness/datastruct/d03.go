package datastruct

import (
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
)

// Dictionaries in 4 states and 5 layouts with an arbitrary key deleted: for arbitrary first 3 draws (later ones count up) the random entry is present, or nil exactly when there is none; afterwards the dictionary is intact.
func VH_D03_present() {
	vInit()
	d, m := vDState()
	x := vKey(0, len(m.has)-1)
	d.Delete(x)
	m.del(x)
	vrand.Free, vrand.Small = 2, 16
	if rt.Thorough() {
		vrand.Free = 3
	}
	e := d.GetRandomKey()
	vrand.Free = 0
	if e == nil {
		rt.Assert(m.size() == 0, "nothing is returned only when the dictionary is empty")
		rt.Reach("none")
	} else {
		k := e.Key.(int)
		has, val := m.get(k)
		rt.Assert(has, "the random entry is present")
		rt.Assert(e.Value.(int) == val, "the random entry holds its value")
		rt.Reach("some")
	}
	vCheckDict(d, m, "afterwards")
}

// Sets with 0..3 members: GetRandom returns a member, nil for the empty set (also a set emptied by deletions).
func VH_D03_set() {
	vInit()
	names := []string{"a", "b", "c"}
	var h [3]int
	for i := range h {
		h[i] = rt.Int("hash", 0, 3)
	}
	s := NewSet(&vSType{h: func(s string) int64 { return int64(h[int(s[0]-'a')]) }})
	n := rt.Choose("size", 4)
	for i := 0; i < n; i++ {
		s.Add(names[i])
	}
	var gone [3]bool
	for i := 0; i < n; i++ {
		if rt.Choose("del", 2) == 1 {
			s.Delete(names[i])
			gone[i] = true
		}
	}
	vrand.Free, vrand.Small = 2, 8
	v := s.GetRandom()
	left := 0
	found := false
	for i := 0; i < n; i++ {
		if !gone[i] {
			left++
			if v == names[i] {
				found = true
			}
		}
	}
	rt.Assert((v == nil) == (left == 0), "nothing is returned exactly when the set is empty")
	if v != nil {
		rt.Assert(found, "the random member is present")
		rt.Reach("some")
	}
	rt.Assert(s.Size() == int64(left), "random selection changes nothing")
}

// For each of the states with up to 9 entries and an arbitrary hash of one of them, every present entry is returned for some pair of draws out of 0..15 x 0..8.
func VH_D03_each() {
	vInit()
	p := rt.Choose("layout", vLayouts)
	n := []int{1, 3, 9}[rt.Choose("n", 3)]
	l := 0
	if n == 9 {
		l = rt.Choose("lookups", 5)
	}
	hx := rt.Int("hash", 0, 7)
	hx = rt.Split(hx)
	del := rt.Choose("del", n+1) // n: none
	got := make([]bool, n)
	for r := 0; r < 16; r++ {
		for s := 0; s < n; s++ {
			t := &vType{h: make([]int, n)}
			for i := range t.h {
				t.h[i] = vLayout(p, i)
			}
			t.h[0] = hx
			d := NewDict(t)
			for i := 0; i < n; i++ {
				d.Set(i, i)
			}
			for i := 0; i < l; i++ {
				d.Find(0)
			}
			if del < n {
				d.Delete(del)
			}
			vrand.Plan = []int64{int64(r), int64(s)}
			if e := d.GetRandomKey(); e != nil {
				got[e.Key.(int)] = true
			}
			vrand.Plan = nil
		}
	}
	for i := range got {
		rt.Assert(got[i] == (i != del), "every present entry can be selected")
	}
	rt.Reach("end")
}
