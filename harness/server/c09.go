package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
)

// scores, by their text; -0 and 0 are equal
var vScores = []string{"1", "2", "-1.5", "inf", "-inf", "0.1", "1e3"}

func vPickScore(n int) string { return vScores[rt.Choose("score", n)] }

// sorted set with 0, 2 or 5 members, 2 commands (thorough 3) with arbitrary members (the first and last present, two absent), scores of a pool of 3, random levels 1 or 3; then order, count and each score
func VH_C09_history() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	lv := 0
	vrand.LevelPlan = func() int { lv++; return lv % 3 }
	pre := []int{0, 2, 5}[rt.Choose("members", 3)]
	if pre > 0 {
		a := []string{"zadd", "z"}
		for i := 0; i < pre; i++ {
			a = append(a, []string{"1", "2", "1", "-1.5", "inf"}[i], vLetter(i))
		}
		vStep(s, c, m, a...)
	}
	n, sc := 2, 3
	if rt.Thorough() {
		n = 3
	}
	lev := 2 * rt.Choose("level", 2)
	vrand.LevelPlan = func() int { return lev }
	for i := 0; i < n; i++ {
		switch rt.Choose("op", 7) {
		case 0:
			vStep(s, c, m, "zadd", "z", vPickScore(sc), vOneOf("x", vAround(pre)))
		case 1:
			vStep(s, c, m, "zadd", "z", "2", vOneOf("x", vAround(pre)), vPickScore(2), "a")
		case 2:
			vStep(s, c, m, "zrem", "z", vOneOf("x", vAround(pre)))
		case 3:
			vStep(s, c, m, "zrem", "z", vOneOf("x", vAround(pre)), "a")
		case 4:
			vStep(s, c, m, "zremrangebyrank", "z", vNum("i", 1, false), vNum("j", 1, false))
			rt.Reach("byrank")
		case 5:
			vStep(s, c, m, "zremrangebyscore", "z", vPickScore(2), vPickScore(3))
			rt.Reach("byscore")
		case 6:
			vStep(s, c, m, "zscore", "z", vOneOf("x", vAround(pre)))
		}
	}
	vrand.LevelPlan = nil
	vStep(s, c, m, "zcard", "z")
	vStep(s, c, m, "zrange", "z", "0", "99", "withscores")
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// sorted set of 0..5 members with equal, ordered and infinite scores; ZRANGE, ZREMRANGEBYRANK with arbitrary one-digit ranks, ZCOUNT, ZRANGEBYSCORE, ZREMRANGEBYSCORE with bounds of a pool of 5 (thorough 7; hit, between, infinite), with and without WITHSCORES (any letter case) or a bad option; ZSCORE
func VH_C09_range() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	lv := 0
	vrand.LevelPlan = func() int { lv++; return lv % 3 }
	n := rt.Choose("n", 6)
	if n > 0 {
		suffix := vBytes("m", 1)
		a := []string{"zadd", "z"}
		for i := 0; i < n; i++ {
			a = append(a, []string{"1", "2", "1", "-1.5", "inf"}[i], vLetter(4-i)+suffix)
			suffix = ""
		}
		vStep(s, c, m, a...)
	}
	bounds := 5
	if rt.Thorough() {
		bounds = 7
	}
	var a []string
	switch rt.Choose("op", 5) {
	case 0:
		a = []string{"zrange", "z", vNum("i", 1, false), vNum("j", 1, false)}
	case 1:
		a = []string{"zremrangebyrank", "z", vNum("i", 1, false), vNum("j", 1, false)}
	case 2:
		a = []string{"zcount", "z", vPickScore(bounds), vPickScore(bounds)}
	case 3:
		a = []string{"zrangebyscore", "z", vPickScore(bounds), vPickScore(bounds)}
	case 4:
		a = []string{"zremrangebyscore", "z", vPickScore(bounds), vPickScore(bounds)}
	}
	if a[0] == "zrange" || a[0] == "zrangebyscore" {
		switch rt.Choose("option", 4) {
		case 1:
			a = append(a, "WITHSCORES")
		case 2:
			a = append(a, "withScores")
		case 3:
			a = append(a, "limit")
		}
	}
	vStep(s, c, m, a...)
	rt.Reach(a[0])
	vStep(s, c, m, "zrange", "z", "0", "99")
	vStep(s, c, m, "zcard", "z")
}

// ZADD and the score commands with numbers that are not: every one is refused and creates nothing
func VH_C09_invalid() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	if rt.Choose("exists", 2) == 1 {
		vStep(s, c, m, "zadd", "z", "1", "a")
	}
	bad := []string{"nan", "NaN", "", "x", "1x", "0x", "1e999x", "+-1", "- 1"}[rt.Choose("bad", 9)]
	switch rt.Choose("op", 3) {
	case 0:
		vStep(s, c, m, "zadd", "z", bad, vBytes("m", 1))
	case 1:
		vStep(s, c, m, "zadd", "z", "5", vBytes("m", 1), bad, "n")
	case 2:
		vStep(s, c, m, "zadd", "z", bad, vBytes("m", 1), "5", "n")
	}
	vSame("afterwards", vDump(s), m, 0)
	rt.Reach("end")
}

// scores that need all 53 bits, large and small exponents, both zeros, texts of several forms: ZSCORE and WITHSCORES give the exact value back
func VH_C09_scores() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	pool := []string{"16777217", "9007199254740993", "0.1", "0.30000000000000004", "1e21", "123456789012345678901234", "-1e-7", "1.7976931348623157e308", "5e-324", "-inf", "+Inf", "-0", "3.50", "0x1p-2", "1_0", "1e999", "-1e999"}
	x := pool[rt.Choose("score", len(pool))]
	member := vBytes("m", 1)
	switch rt.Choose("update", 3) {
	case 1:
		vStep(s, c, m, "zadd", "z", "7", member, "7", "k")
	case 2:
		vStep(s, c, m, "zadd", "z", pool[rt.Choose("before", 3)], member)
	}
	vStep(s, c, m, "zadd", "z", x, member)
	vStep(s, c, m, "zscore", "z", member)
	vStep(s, c, m, "zrange", "z", "0", "1", "WITHSCORES")
	if x != "1_0" && x != "1e999" && x != "-1e999" {
		vStep(s, c, m, "zrangebyscore", "z", x, x, "WITHSCORES")
		vStep(s, c, m, "zcount", "z", x, "+inf")
	}
	rt.Reach("end")
}

// a sorted set under a key of 0..1 arbitrary bytes with members of 0..2 arbitrary bytes and equal or different scores: updates, removal, ZSCORE and the order
func VH_C09_odd() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	x, k := vOdd("x", 2), vOdd("key", 1)
	vStep(s, c, m, "zadd", k, vPickScore(2), x, "1", "b")
	z := vOdd("z", 1)
	switch rt.Choose("op", 5) {
	case 0:
		vStep(s, c, m, "zadd", k, "1", z)
	case 1:
		vStep(s, c, m, "zadd", k, "0", z, "1", x)
	case 2:
		vStep(s, c, m, "zrem", k, z)
		rt.Reach("zrem")
	case 3:
		vStep(s, c, m, "zscore", k, z)
	case 4:
		vStep(s, c, m, "zremrangebyrank", k, "0", "0")
		vStep(s, c, m, "zadd", k, "0", z)
	}
	vStep(s, c, m, "zcard", k)
	vStep(s, c, m, "zrange", k, "0", "9", "withscores")
	vSame("at the end", vDump(s).dropEmpty(), m.dropEmpty(), 0)
}

// ZADD of 20, 41 or 300 pairs (one score arbitrary, repeated members among them) and removal of many by ZREM, ZREMRANGEBYRANK or ZREMRANGEBYSCORE; order, scores and counts
func VH_C09_many() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	lv := 0
	vrand.LevelPlan = func() int { lv++; return lv % 3 }
	n := []int{20, 41, 300}[rt.Choose("n", 3)]
	a := []string{"zadd", "z", "0", "m3"}
	at := []int{0, n / 2, n - 1}[rt.Choose("at", 3)]
	for i, x := range vMembers(0, n) {
		sc := strconv.Itoa((i * 7) % 11)
		if i == at {
			sc = vNum("score", 1, true)
		}
		a = append(a, sc, x)
	}
	vStep(s, c, m, a...)
	vStep(s, c, m, "zcard", "z")
	vStep(s, c, m, "zcount", "z", "-inf", "inf")
	switch rt.Choose("removal", 4) {
	case 0:
		vStep(s, c, m, append([]string{"zrem", "z"}, vMembers(n/3, n/2)...)...)
	case 1:
		vStep(s, c, m, append([]string{"zrem", "z"}, vMembers(0, n-5)...)...)
	case 2:
		vStep(s, c, m, "zremrangebyrank", "z", "1", strconv.Itoa(n-9))
	case 3:
		vStep(s, c, m, "zremrangebyscore", "z", "1", "inf")
	}
	vStep(s, c, m, "zcard", "z")
	vStep(s, c, m, "zscore", "z", "m"+strconv.Itoa(at))
	vStep(s, c, m, "zrange", "z", "0", "400", "withscores")
	vStep(s, c, m, "zcount", "z", "2", "6")
	vSame("at the end", vDump(s), m, 0)
	vrand.LevelPlan = nil
	rt.Reach("end")
}
