package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

func vC07Op(s *Server, c *vsyscall.File, m *vModel) {
	switch rt.Choose("op", 6) {
	case 0:
		vStep(s, c, m, "lpush", "l", vBytes("v", 1))
	case 1:
		vStep(s, c, m, "rpush", "l", vBytes("v", 2))
	case 2:
		vStep(s, c, m, "lpush", "l", vBytes("v", 1), vBytes("v", 0), vBytes("v", 1))
	case 3:
		vStep(s, c, m, "rpush", "l", vBytes("v", 1), vBytes("v", 2))
	case 4:
		vStep(s, c, m, "lpop", "l")
		rt.Reach("lpop")
	case 5:
		vStep(s, c, m, "rpop", "l")
		rt.Reach("rpop")
	}
}

// 5 pushes/pops (thorough 6) at either end of one list from empty, 0..2 arbitrary bytes per element, 1..3 per push; then LLEN, the whole list
func VH_C07_history() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := 5
	if rt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		vC07Op(s, c, m)
	}
	vStep(s, c, m, "llen", "l")
	vStep(s, c, m, "lrange", "l", "0", "-1")
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// list of 0..4 elements (the second one empty), LINDEX and LRANGE with arbitrary one-digit bounds of either sign (thorough two-digit)
func VH_C07_index() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := rt.Choose("n", 5)
	if n > 0 {
		a := []string{"rpush", "l"}
		for i := 0; i < n; i++ {
			if i == 1 {
				a = append(a, "")
			} else {
				a = append(a, vBytes("v", 1))
			}
		}
		vStep(s, c, m, a...)
	}
	d := 1
	if rt.Thorough() {
		d = 2
	}
	if rt.Choose("op", 2) == 0 {
		vStep(s, c, m, "lindex", "l", vNum("i", d, true))
		rt.Reach("lindex")
	} else {
		vStep(s, c, m, "lrange", "l", vNum("i", d, true), vNum("j", d, true))
		rt.Reach("lrange")
	}
}

// lists of 1023..1026, 2049 and 5130 elements (pages of 1024) built from either end, 0..3 pushes/pops at either end, then LINDEX around the page borders, LRANGE 1021 102x, around the border a split leaves in the middle of a page, or the whole list
func VH_C07_pages() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := []int{1023, 1024, 1025, 1026, 2049, 5130}[rt.Choose("n", 6)]
	push := []string{"rpush", "lpush"}[rt.Choose("push", 2)]
	vStep(s, c, m, append([]string{push, "l"}, vSeq(n)...)...)
	switch rt.Choose("op", 7) {
	case 0:
		vStep(s, c, m, "lpush", "l", vBytes("v", 2))
	case 1:
		vStep(s, c, m, "rpush", "l", vBytes("v", 2))
	case 2:
		vStep(s, c, m, "lpop", "l")
	case 3:
		vStep(s, c, m, "rpop", "l")
	case 4:
		for i := 0; i < 3; i++ {
			vStep(s, c, m, "lpush", "l", vBytes("v", 1))
		}
	case 5:
		for i := 0; i < 3; i++ {
			vStep(s, c, m, "lpop", "l")
		}
	case 6:
		for i := 0; i < 3; i++ {
			vStep(s, c, m, "rpop", "l")
		}
	}
	switch rt.Choose("read", 4) {
	case 0:
		i := rt.Choose("i", 6)
		vStep(s, c, m, "lindex", "l", strconv.Itoa([]int{0, 511, 1023, 1024, 1025, n - 2}[i]))
	case 1:
		vStep(s, c, m, "lrange", "l", "1021", "102"+vNum("j", 1, false))
	case 2:
		vStep(s, c, m, "lrange", "l", "507", "51"+vNum("j", 1, false))
	case 3:
		vStep(s, c, m, "lrange", "l", "0", "-1")
	}
	vStep(s, c, m, "llen", "l")
}
