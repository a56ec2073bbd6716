package server

import (
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
)

// refused asserts that the reply is an error and nothing at all changed.
func vRefused(what string, r string, before, after *vModel, size, nexp, nexp2 int) {
	rt.Assert(vErrReply(r), what+": an error is replied")
	vSame(what, after, before, 0)
	rt.Assert(len(vos.Content(vAof)) == size, what+": nothing is logged")
	rt.Assert(nexp == nexp2, what+": no deadline appears or disappears")
}

// each command of a data type on a key of each other type (with a deadline or without), valid arguments in part arbitrary
func VH_C05_type() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	vStep(s, c, m, "expire", "z", "60")
	cmd := vArity[rt.Choose("command", len(vArity))]
	if vTypeOf(cmd.name) == 0 {
		return
	}
	key := []string{"s", "h", "l", "S", "z", "d", "e"}[rt.Choose("key", 7)]
	if m.find(0, key).val.t == vTypeOf(cmd.name) {
		return
	}
	a := vArgs(cmd.name, key)
	size, nexp := len(vos.Content(vAof)), vExpires(s)
	r := vDo(s, c, a...)
	vRefused("a key of another type", r, m, vDump(s), size, nexp, vExpires(s))
	rt.Reach(cmd.name)
}

// set algebra with a wrong-typed operand in first to third place, the sets before it equal or disjoint (so that the result so far may be empty)
func VH_C05_operand() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	op := []string{"sunion", "sinter", "sdiff"}[rt.Choose("op", 3)]
	vStep(s, c, m, "sadd", "T", "x", "y")
	a := []string{op, "S", []string{"S", "T"}[rt.Choose("second", 2)], "S"}
	a[1+rt.Choose("place", 3)] = []string{"s", "h", "l", "z"}[rt.Choose("type", 4)]
	size, nexp := len(vos.Content(vAof)), vExpires(s)
	r := vDo(s, c, a...)
	vRefused("an operand of another type", r, m, vDump(s), size, nexp, vExpires(s))
	rt.Reach(op)
}

// each numeric argument of each command: 0..3 arbitrary bytes that are no decimal integer, or a text of a pool of 12 (for scores a pool of 9), on an existing key (with a deadline or without) and, where that is an error too, on an absent one; HSET and ZADD with an odd tail after 1..4 pairs
func VH_C05_number() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	var bad string
	if rt.Choose("text", 2) == 0 {
		b := []byte(vBytes("bad", rt.Choose("len", 4)))
		ok := false
		for i, x := range b {
			digit := rt.And(x >= '0', x <= '9')
			sign := i == 0 && len(b) > 1
			ok = rt.Or(ok, !rt.Or(digit, rt.And(sign, rt.Or(x == '-', x == '+'))))
		}
		rt.Assume(rt.Or(len(b) == 0, ok))
		bad = string(b)
	} else {
		bad = []string{"9223372036854775808", "-9223372036854775809", "1.5", "0x10", " 1", "1 ", "--1", "1e3", "99999999999999999999999", "1_0", "inf", "\r\n"}[rt.Choose("pool", 12)]
	}
	for _, k := range []string{"h", "l", "z"} {
		vStep(s, c, m, "expire", k, "60")
	}
	key := func(k string) string {
		return []string{k, "new", "d"}[rt.Choose("key", 2+rt.IteInt(k == "s", 1, 0))]
	}
	var a []string
	switch rt.Choose("command", 9) {
	case 0:
		a = []string{"expire", key("s"), bad}
	case 1:
		a = []string{"expireat", key("s"), bad}
	case 2:
		a = []string{"setex", key("s"), bad, "v"}
	case 3:
		a = []string{"lindex", "l", bad}
	case 4:
		a = []string{"lrange", "l", "0", bad}
		if rt.Choose("first", 2) == 1 {
			a[2], a[3] = bad, "1"
		}
	case 5:
		a = []string{"zrange", key("z"), "0", bad}
		if rt.Choose("first", 2) == 1 {
			a[2], a[3] = bad, "1"
		}
	case 6:
		a = []string{"zremrangebyrank", key("z"), "0", bad}
		if rt.Choose("first", 2) == 1 {
			a[2], a[3] = bad, "1"
		}
	case 7:
		a = []string{"hset", key("h"), "a", "1", "b"}
		for i := rt.Choose("pairs", 4); i > 0; i-- {
			a = append(a, vBytes("more", 1), vLetter(i))
		}
	case 8:
		a = []string{"zadd", key("z"), "1", "a", "2"}
		for i := rt.Choose("pairs", 4); i > 0; i-- {
			a = append(a, vLetter(i), vNum("more", 1, false))
		}
	}
	size, nexp := len(vos.Content(vAof)), vExpires(s)
	r := vDo(s, c, a...)
	vRefused("an invalid argument", r, m, vDump(s), size, nexp, vExpires(s))
	rt.Reach(a[0])
}

// each score argument of ZADD (first or second pair), ZCOUNT, ZRANGEBYSCORE, ZREMRANGEBYSCORE being a text of a pool of 9 that is no number (NaN for ZADD only), on an existing or absent key; EXPIRE, EXPIREAT, SETEX with seconds that do not fit on a key without a deadline, with one, or absent
func VH_C05_score() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	vStep(s, c, m, "expire", "z", "60")
	key := []string{"z", "new"}[rt.Choose("absent", 2)]
	var a []string
	if k := rt.Choose("kind", 3); k == 0 {
		bad := []string{"nan", "-NaN", "", "x", "1x", "1 ", "0x", "\r\n", "1..2"}[rt.Choose("bad", 9)]
		if rt.Choose("place", 2) == 0 {
			a = []string{"zadd", key, bad, "a"}
		} else {
			a = []string{"zadd", key, "9", "a", bad, "b"}
		}
	} else if k == 1 {
		bad := []string{"", "x", "1x", "1 ", "0x", "\r\n", "1..2"}[rt.Choose("bad", 7)]
		a = []string{[]string{"zcount", "zrangebyscore", "zremrangebyscore"}[rt.Choose("op", 3)], key, "0", bad}
		if rt.Choose("place", 2) == 0 {
			a[2], a[3] = bad, "1"
		}
	} else {
		n := []string{"922337203685477" + "6", "9223372036854775807", "99999999999999999999", "9" + vNum("n", 3, false) + "000000000000000"}[rt.Choose("n", 4)]
		k := []string{"s", "d", "new"}[rt.Choose("which", 3)]
		a = []string{"expire", k, n}
		switch rt.Choose("op", 3) {
		case 1:
			a[0] = "expireat"
		case 2:
			a = []string{"setex", k, n, "v"}
		}
		if rt.Choose("negative", 2) == 1 {
			a[2] = "-" + n
		}
	}
	size, nexp := len(vos.Content(vAof)), vExpires(s)
	r := vDo(s, c, a...)
	vRefused("an invalid number", r, m, vDump(s), size, nexp, vExpires(s))
	rt.Reach(a[0])
}
