package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
)

// set of 0/3/5/9 members (the table grows at 5 and 9), then 2 commands (thorough 3) with arbitrary members (the first and last present, two absent) and, for SPOP, any outcome of its first two random draws
func VH_C08_history() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	pre := []int{0, 3, 5, 9}[rt.Choose("members", 4)]
	if pre > 0 {
		a := []string{"sadd", "s"}
		for i := 0; i < pre; i++ {
			a = append(a, vLetter(i))
		}
		vStep(s, c, m, a...)
	}
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch rt.Choose("op", 6) {
		case 0:
			vStep(s, c, m, "sadd", "s", vOneOf("x", vAround(pre)))
		case 1:
			vStep(s, c, m, "sadd", "s", vOneOf("x", vAround(pre)), vOneOf("y", vAround(pre)))
		case 2:
			vStep(s, c, m, "srem", "s", vOneOf("x", vAround(pre)))
		case 3:
			vStep(s, c, m, "srem", "s", vOneOf("x", vAround(pre)), vOneOf("y", vAround(pre)))
		case 4:
			vStep(s, c, m, "sismember", "s", vOneOf("x", vAround(pre)))
			rt.Reach("sismember")
		case 5:
			vrand.Free, vrand.Small = 2, 8
			vStep(s, c, m, "spop", "s")
			vrand.Free = 0
			rt.Reach("spop")
		}
	}
	vStep(s, c, m, "scard", "s")
	vStep(s, c, m, "smembers", "s")
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// SUNION, SINTER, SDIFF over 1..3 operands out of: two sets of 2 arbitrary members (of 3) each, a missing key, an expired set, a list; operands may repeat
func VH_C08_algebra() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vStep(s, c, m, "sadd", "A", vName("a1", 'a', 'c'), vName("a2", 'a', 'c'))
	vStep(s, c, m, "sadd", "B", vName("b1", 'a', 'c'), vName("b2", 'a', 'c'))
	vStep(s, c, m, "sadd", "X", "a", "b", "c", "d")
	vStep(s, c, m, "expire", "X", "1")
	rt.Tick(2, 0)
	keys := []string{"A", "B", "M", "X"}
	a := []string{[]string{"sunion", "sinter", "sdiff"}[rt.Choose("op", 3)]}
	for i, n := 0, 2+rt.Choose("operands", 2); i < n; i++ {
		a = append(a, keys[rt.Choose("key", len(keys))])
	}
	vStep(s, c, m, a...)
	rt.Reach(a[0])
	vSame("afterwards", vDump(s).liveAll(), m, 0)
}

// SUNION, SINTER, SDIFF over sets of 9 and 5 members sharing a range, right after the insertions (tables being rehashed), each operand order
func VH_C08_large() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	size := []int{5, 9, 17}
	for _, k := range []string{"A", "B"} {
		a := []string{"sadd", k}
		lo, n := rt.Choose("from", 3)*4, size[rt.Choose("size", 3)]
		for i := 0; i < n; i++ {
			a = append(a, vLetter(lo+i))
		}
		vStep(s, c, m, append(a, vOneOf("extra", "az"))...)
	}
	a := []string{[]string{"sunion", "sinter", "sdiff"}[rt.Choose("op", 3)], "A", "B"}
	if rt.Choose("three", 2) == 1 {
		a = append(a, "A")
	}
	vStep(s, c, m, a...)
	vStep(s, c, m, "smembers", "A")
	vStep(s, c, m, "smembers", "B")
}

// sets under keys and with members of 0..1 arbitrary bytes: SADD, SREM, SISMEMBER, SPOP, set algebra with the empty member
func VH_C08_odd() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	x, k := vOdd("x", 1), vOdd("key", 1)
	vStep(s, c, m, "sadd", k, x, "b")
	vStep(s, c, m, "sadd", "other", "", vBytes("y", 1))
	z := vOdd("z", 1)
	switch rt.Choose("op", 6) {
	case 5:
		vStep(s, c, m, "spop", []string{k, "other"}[rt.Choose("set", 2)])
		vSame("after SPOP", vDump(s).dropEmpty(), m.dropEmpty(), 0)
		return
	case 0:
		vStep(s, c, m, "sadd", k, z, x)
	case 1:
		vStep(s, c, m, "srem", k, z)
		rt.Reach("srem")
	case 2:
		vStep(s, c, m, "sismember", k, z)
	case 3:
		vStep(s, c, m, "srem", k, x, "b")
	case 4:
		vStep(s, c, m, "srem", "other", z)
	}
	switch rt.Choose("algebra", 4) {
	case 0:
		vStep(s, c, m, "sunion", k, "other")
	case 1:
		vStep(s, c, m, "sinter", k, "other")
	case 2:
		vStep(s, c, m, "sdiff", k, "other")
	case 3:
		vStep(s, c, m, "sdiff", "other", k)
	}
	vStep(s, c, m, "scard", k)
	vStep(s, c, m, "smembers", k)
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// SADD and SREM of 20..300 members, set algebra of 6..20 operands (a set in any position with an arbitrary member, an absent one among them)
func VH_C08_many() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := []int{6, 9, 20}[rt.Choose("operands", 3)]
	at := []int{1, 5, n - 1}[rt.Choose("at", 3)]
	a := []string{[]string{"sunion", "sinter", "sdiff"}[rt.Choose("op", 3)]}
	x := vOneOf("member", "abcx")
	for i := 0; i < n; i++ {
		k := "k" + strconv.Itoa(i)
		a = append(a, k)
		if i == at {
			vStep(s, c, m, "sadd", k, x, "b")
		} else if i != 3 || a[0] == "sinter" {
			vStep(s, c, m, "sadd", k, []string{"a", "p" + strconv.Itoa(i)}[b2i(a[0] == "sunion")], "b", "c")
		}
	}
	if a[0] == "sdiff" {
		vStep(s, c, m, "sadd", "k0", "a", "x", "y", "z")
	}
	vStep(s, c, m, a...)
	if at == 1 {
		l := []int{20, 70, 300}[rt.Choose("members", 3)]
		vStep(s, c, m, append([]string{"sadd", "k1"}, vMembers(0, l)...)...)
		vStep(s, c, m, "scard", "k1")
		vStep(s, c, m, append([]string{"srem", "k1", x}, vMembers(l/3, l/2)...)...)
		vStep(s, c, m, "scard", "k1")
		vStep(s, c, m, "smembers", "k1")
	}
	vSame("at the end", vDump(s), m, 0)
	rt.Reach(a[0])
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
