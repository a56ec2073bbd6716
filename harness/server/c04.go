package server

import (
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
)

// each command with valid arguments (in part arbitrary) on a key of its type, on an absent key, or on one with a deadline, other keys of every type around it: the dataset afterwards is exactly the model's, deadlines included; a command that reads logs nothing
func VH_C04_effect() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	cmd := vArity[rt.Choose("command", len(vArity))]
	key := []string{vKeyFor(cmd.name), "new", "d", "e"}[rt.Choose("key", 4)]
	a := vArgs(cmd.name, key)
	size := len(vos.Content(vAof))
	nexp := vExpires(s)
	vExec(s, c, m, 0, a)
	vSame("afterwards", vDump(s).dropEmpty(), m.dropEmpty(), 0)
	if !vWrites(cmd.name) {
		rt.Assert(len(vos.Content(vAof)) == size, "a command that reads logs nothing")
		rt.Assert(vExpires(s) == nexp, "a command that reads leaves the deadlines")
		rt.Reach("read")
	} else {
		rt.Reach("write")
	}
}

// each command with valid arguments in database 1 on a key that exists in database 0 with a deadline, in database 1 with a deadline (z) or without (s), in both or in neither: both databases afterwards are exactly the model's
func VH_C04_databases() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	vDo(s, c, "select", "1")
	cmd := vArity[rt.Choose("command", len(vArity))]
	key := []string{vKeyFor(cmd.name), "new", "d", "e", "z"}[rt.Choose("key", 5)]
	vExec(s, c, m, 1, vArgs(cmd.name, key))
	if cmd.name != "select" {
		vExec(s, c, m, 1, []string{"set", key, "v"})
		vExec(s, c, m, 1, []string{"ttl", key})
	}
	vSame("afterwards", vDump(s).dropEmpty(), m.dropEmpty(), 0)
	rt.Reach("end")
}

// SUNION, SINTER, SDIFF over 3 operands (thorough 4) out of three sets sharing members, a missing key and an expired set: nothing changes
func VH_C04_algebra() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	x := vName("x", 'a', 'd')
	vStep(s, c, m, "sadd", "A", "a", "b", x)
	vStep(s, c, m, "sadd", "B", "b", "c")
	vStep(s, c, m, "sadd", "C", "a", "c", "d")
	vStep(s, c, m, "sadd", "X", "a", "b")
	vStep(s, c, m, "expire", "X", "1")
	rt.Tick(2, 0)
	keys := []string{"A", "B", "C", "M", "X"}
	a := []string{[]string{"sunion", "sinter", "sdiff"}[rt.Choose("op", 3)]}
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		a = append(a, keys[rt.Choose("key", len(keys))])
	}
	vStep(s, c, m, a...)
	vSame("afterwards", vDump(s).liveAll(), m, 0)
	rt.Reach(a[0])
}

// SET and SETEX over a value of each type, with and without deadline; then a command of each type on the key sees the string
func VH_C04_replace() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	key := []string{"s", "h", "l", "S", "z", "d", "e"}[rt.Choose("key", 7)]
	v := vBytes("v", 2)
	if rt.Choose("op", 2) == 0 {
		vStep(s, c, m, "set", key, v)
	} else {
		vStep(s, c, m, "setex", key, "50", v)
	}
	vStep(s, c, m, "get", key)
	vStep(s, c, m, "ttl", key)
	vStep(s, c, m, []string{"hlen", "llen", "scard", "zcard"}[rt.Choose("probe", 4)], key)
	vSame("afterwards", vDump(s), m, 0)
	rt.Reach("end")
}

// two commands one after the other on different keys (9 writing commands each way): each keeps to its own key
func VH_C04_pairs() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	reqs := func(k string) [][]string {
		v := vBytes("v", 1)
		return [][]string{
			{"set", "s" + k, v}, {"setex", "s" + k, "9", v}, {"hset", "h" + k, "a", v}, {"lpush", "l" + k, v}, {"rpush", "l" + k, v, v},
			{"sadd", "S" + k, v}, {"zadd", "z" + k, "3", v}, {"expire", "s" + k, "7"}, {"srem", "S" + k, "a"},
		}
	}
	for _, k := range []string{"", "2"} {
		l := reqs(k)
		vStep(s, c, m, l[rt.Choose("op", len(l))]...)
	}
	vSame("afterwards", vDump(s), m, 0)
	rt.Reach("end")
}

// two keys of 9..40 bytes, of any types, that differ at most in the last, arbitrary byte; each command on one of them, then all of both is as it should be
func VH_C04_alike() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := []int{9, 17, 33, 40}[rt.Choose("length", 4)]
	a, b := vLong("key", n), vLong("key", n)
	vStep(s, c, m, vArgs("set", a)...)
	w := [][]string{{"set", b, "w"}, {"hset", b, a, "v", b, "w"}, {"rpush", b, a, b}, {"sadd", b, a, b}, {"zadd", b, "1", a, "2", b}, {"expire", b, "5"}, {"setex", b, "7", "x"}}
	vStep(s, c, m, w[rt.Choose("command", len(w))]...)
	vSame("after the command", vDump(s), m, 0)
	w = [][]string{{"hget", b, a}, {"get", a}, {"sismember", b, a}, {"zscore", b, a}, {"srem", b, a}, {"zrem", b, b}, {"hdel", b, a}, {"hexists", b, b}, {"ttl", a}}
	vStep(s, c, m, w[rt.Choose("then", len(w))]...)
	vSame("at the end", vDump(s), m, 0)
	rt.Reach("end")
}
