package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// 3 commands (thorough 4) SET/GET on one of two keys (2 bytes, one of them arbitrary), values of 0..3 arbitrary bytes
func VH_C06_string() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := "k" + vName("key", 'a', 'b')
		if rt.Choose("op", 2) == 0 {
			vStep(s, c, m, "set", k, vBytes("v", rt.Choose("len", 4)))
			rt.Reach("set")
		} else {
			vStep(s, c, m, "get", k)
			rt.Reach("get")
		}
	}
	vSame("at the end", vDump(s), m, 0)
}

// hash of 0/3/5/9 fields (the table grows at 5 and 9), then 2 commands (thorough 3) with arbitrary 1-letter fields (the first and last present, two absent) and 1-byte values
func VH_C06_hash() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	pre := []int{0, 3, 5, 9}[rt.Choose("fields", 4)]
	if pre > 0 {
		a := []string{"hset", "h"}
		for i := 0; i < pre; i++ {
			a = append(a, vLetter(i), "old"+vLetter(i))
		}
		vStep(s, c, m, a...)
	}
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		f := vOneOf("field", vAround(pre))
		switch rt.Choose("op", 7) {
		case 0:
			vStep(s, c, m, "hset", "h", f, vBytes("v", 1))
			rt.Reach("hset")
		case 1:
			vStep(s, c, m, "hset", "h", f, vBytes("v", 1), vOneOf("field2", vAround(pre)), vBytes("v", 2))
			rt.Reach("hset2")
		case 2:
			vStep(s, c, m, "hdel", "h", f)
			rt.Reach("hdel")
		case 3:
			vStep(s, c, m, "hdel", "h", f, vOneOf("field2", vAround(pre)))
			rt.Reach("hdel2")
		case 4:
			vStep(s, c, m, "hget", "h", f)
			rt.Reach("hget")
		case 5:
			vStep(s, c, m, "hexists", "h", f)
			rt.Reach("hexists")
		case 6:
			vStep(s, c, m, "hlen", "h")
		}
	}
	vStep(s, c, m, "hlen", "h")
	vStep(s, c, m, "hkeys", "h")
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// a hash of 1 or 2 fields with arbitrary names and values of 0..1 arbitrary bytes under a key of 0..1, then 1 command (thorough 2) with another such name
func VH_C06_odd() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	f, k := vOdd("f", 1), vOdd("key", 1)
	vStep(s, c, m, "hset", k, f, vOdd("v", 1))
	if rt.Choose("two", 2) == 1 {
		vStep(s, c, m, "hset", k, "x", "", "", "y")
	}
	n := 1
	if rt.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		g := vOdd("g", 1)
		switch rt.Choose("op", 5) {
		case 0:
			vStep(s, c, m, "hset", k, g, "")
		case 1:
			vStep(s, c, m, "hdel", k, g, f)
			rt.Reach("hdel")
		case 2:
			vStep(s, c, m, "hget", k, g)
		case 3:
			vStep(s, c, m, "hexists", k, g)
		case 4:
			vStep(s, c, m, "set", k, g)
			vStep(s, c, m, "get", k)
			rt.Reach("get")
			return
		}
	}
	vStep(s, c, m, "hlen", k)
	vStep(s, c, m, "hkeys", k)
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// values, fields and keys of 65535..65537, 70000 and 300000 bytes, one byte arbitrary
func VH_C06_large() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	v := vLong("v", []int{65535, 65536, 65537, 70000, 300000}[rt.Choose("size", 5)])
	switch rt.Choose("where", 3) {
	case 0:
		vStep(s, c, m, "set", "k", v)
		vStep(s, c, m, "get", "k")
	case 1:
		vStep(s, c, m, "hset", "k", v, v)
		vStep(s, c, m, "hget", "k", v)
		vStep(s, c, m, "hkeys", "k")
	case 2:
		vStep(s, c, m, "setex", v, "9", v+"x")
		vStep(s, c, m, "get", v)
	}
	vSame("at the end", vDump(s), m, 0)
	rt.Reach("end")
}

// HSET of 1..300 fields, 2 of them overlapping an earlier arbitrary one, HDEL of many fields, HLEN, HKEYS, HGET of an arbitrary one
func VH_C06_many() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := []int{1, 20, 70, 300}[rt.Choose("n", 4)]
	f := "m" + vNum("first", 1, false)
	vStep(s, c, m, "hset", "h", f, "old", "m3", "old")
	a := []string{"hset", "h"}
	for i, x := range vMembers(0, n) {
		a = append(a, x, strconv.Itoa(i))
	}
	vStep(s, c, m, a...)
	vStep(s, c, m, append([]string{"hdel", "h"}, vMembers(n/3, n/2+1)...)...)
	vStep(s, c, m, "hlen", "h")
	vStep(s, c, m, "hkeys", "h")
	vStep(s, c, m, "hget", "h", f)
	vSame("at the end", vDump(s), m, 0)
	rt.Reach("end")
}
