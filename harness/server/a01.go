package server

import (
	"strconv"
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// each writing command (arguments in part arbitrary) on a fixture with every type in two databases, on a key of its type, a new key, one with a deadline or one of another type; the clock at 0 or 999 ms; then a restart
func VH_A01_command() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	rt.Tick(0, []int64{0, 999}[rt.Choose("ms", 2)])
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := vWriters[rt.Choose("command", len(vWriters))]
	key := []string{vKeyFor(name), "new", "d", "e"}[rt.Choose("key", 4)]
	db := rt.Choose("db", 2)
	if db == 1 {
		vDo(s, c, "select", "1")
	}
	vOn(s, c, m, db, vArgs(name, key)...)
	s = vLoads("after a restart", cfg, m)
	rt.Reach(name)
}

// two connections in different databases alternating, a connection switching its database, in this server and again after a restart: 4 (thorough: 6) commands with an arbitrary choice of connection and SELECT before each; then a second restart
func VH_A01_databases() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	m := vNewModel(2)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	cut := rt.Choose("restart", n)
	var c [2]*vsyscall.File
	db := [2]int{}
	dial := func() {
		c[0], c[1] = vDial(s), vDial(s)
		db = [2]int{}
	}
	dial()
	for i := 0; i < n; i++ {
		who := rt.Choose("who", 2)
		if d := rt.Choose("select", 3); d < 2 {
			vDo(s, c[who], "select", strconv.Itoa(d))
			db[who] = d
		}
		if i%2 == 0 {
			vOn(s, c[who], m, db[who], "rpush", "l", strconv.Itoa(i))
		} else {
			vOn(s, c[who], m, db[who], "set", "k"+strconv.Itoa(i), vBytes("v", 1))
		}
		if i == cut {
			s = vLoads("after the first restart", cfg, m)
			dial()
		}
	}
	vLoads("after the second restart", cfg, m)
	rt.Reach("end")
}

// expiry across restarts: a key of each type gets a deadline by EXPIRE, EXPIREAT or SETEX (1x s, x arbitrary, or 33 s), an arbitrary 0..40 s pass, a command of its type follows (on the live or expired key, the cron having run or not), 0 or 300 (thorough: 17) s pass, a restart; 23 s pass, another restart (quick: three types, whole seconds)
func VH_A01_expiry() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	types, later := 3, 2
	if rt.Thorough() {
		types, later = 5, 3
		rt.Tick(0, []int64{0, 999}[rt.Choose("ms", 2)])
	}
	c := vDial(s)
	m := vNewModel(2)
	i := rt.Choose("key", types)
	key := []string{"s", "h", "z", "l", "S"}[i]
	vStep(s, c, m, strings.Split([]string{"set s sv", "hset h a 1 b 2", "zadd z 1 a 2 b", "rpush l a b", "sadd S a b"}[i], " ")...)
	vStep(s, c, m, "set", "x", "y")
	n := []string{"1" + vNum("n", 1, false), "33"}[rt.Choose("digits", 2)]
	switch rt.Choose("how", 3) {
	case 0:
		vStep(s, c, m, "expire", key, n)
	case 1:
		vStep(s, c, m, "expireat", key, "17000000"+n)
	case 2:
		vStep(s, c, m, "setex", key, n, "v")
	}
	rt.Tick(int64(rt.Int("pass", 0, 40)), 0)
	vClear(m)
	vReclaim(s)
	w := [][]string{{"get", key}, {"set", key, "w"}, {"expire", key, "50"}, strings.Split([]string{"setex s 20 w", "hset h c 3", "zadd z 3 c", "lpush l c", "sadd S c"}[i], " ")}
	vStep(s, c, m, w[rt.Choose("command", len(w))]...)
	rt.Tick(int64([]int{0, 300, 17}[rt.Choose("later", later)]), 0)
	vLoads("after a restart", cfg, m)
	rt.Tick(23, 0)
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// histories of 3 (thorough: 4) commands out of 8 (creating, growing, emptying, SPOP with arbitrary draws, overwriting with another type) on one key, a restart at any point of them and another at the end
func VH_A01_history() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	kind := rt.Choose("kind", 4)
	cut := rt.Choose("restart", n)
	for i := 0; i < n; i++ {
		e := vOneOf("el", "ab")
		var a []string
		op := rt.Choose("op", 4)
		switch kind {
		case 0:
			a = [][]string{{"sadd", "k", e, "c"}, {"srem", "k", e}, {"spop", "k"}, {"set", "j", e}}[op]
		case 1:
			a = [][]string{{"rpush", "k", e, "c"}, {"lpush", "k", e}, {"lpop", "k"}, {"rpop", "k"}}[op]
		case 2:
			a = [][]string{{"zadd", "k", "1", e, "2", "c"}, {"zadd", "k", "-3.25", e}, {"zrem", "k", e}, {"zremrangebyrank", "k", "0", "0"}}[op]
		case 3:
			a = [][]string{{"hset", "k", e, "1", "c", "2"}, {"hset", "k", e, vBytes("v", 1)}, {"hdel", "k", e}, {"set", "k", e}}[op]
		}
		vrand.Free, vrand.Small = 3, 4
		vStep(s, c, m, a...)
		vrand.Free = 0
		if i == cut {
			s = vLoads("after the first restart", cfg, m)
			c = vDial(s)
		}
	}
	vLoads("after the second restart", cfg, m)
	rt.Reach("end")
}

// every fsync policy and pipelined requests of two connections in one iteration (1 arbitrary byte each), refused commands among them
func VH_A01_pipelined() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	s := vBoot(cfg)
	c, d := vDial(s), vDial(s)
	m := vNewModel(2)
	vDo(s, d, "select", "1")
	v, w := vBytes("v", 1), vBytes("w", 1)
	a := [][]string{{"rpush", "l", v}, {"hset", "l", "f", "v"}, {"rpush", "l", "x"}, {"nosuch"}, {"setex", "t", "50", v}, {"zadd", "z", "x", "m"}}
	b := [][]string{{"rpush", "l", w}, {"sadd", "S", w}, {"lpop", "l"}, {"expire", "S", "70"}, {"get", "S"}}
	for _, q := range a {
		vPost(c, vEnc(q...))
		if q[0] != "nosuch" {
			m.exec(0, q)
		}
	}
	for _, q := range b {
		vPost(d, vEnc(q...))
		m.exec(1, q)
	}
	vResume(s)
	vSame("in the running server", vDump(s), m, 0)
	rt.RunTasks()
	s = vLoads("after a restart", cfg, m)
	c = vDial(s)
	vOn(s, c, m, 0, "rpush", "l", "y")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// 101 databases: writes in database 0 and in any one of 9..12, 99, 100, by connections that select them, a restart, more writes, another restart
func VH_A01_many() {
	cfg := vCfgAof()
	cfg.DatabaseNum = 101
	s := vBoot(cfg)
	m := vNewModel(101)
	d := []int{9, 10, 11, 12, 99, 100}[rt.Choose("database", 6)]
	for i := 0; i < 2; i++ {
		c, o := vDial(s), vDial(s)
		vOn(s, o, m, 0, "rpush", "k", vBytes("v", 1))
		rt.Assert(vDo(s, c, "select", strconv.Itoa(d)) == vOK, "SELECT succeeds")
		vOn(s, c, m, d, "rpush", "k", vBytes("w", 1), strconv.Itoa(i))
		vOn(s, c, m, d, "setex", "t", "300", "v")
		vOn(s, o, m, 0, "hset", "h", "f", strconv.Itoa(i))
		s = vLoads("after a restart", cfg, m)
	}
	rt.Reach("end")
}

// a key of 0..1 and elements of 0..2 arbitrary bytes: SET, HSET and HDEL, RPUSH and LPOP, SADD and SPOP (any draw) or SREM, ZADD and ZREM, a key whose deadline passes and that is read then; a restart
func VH_A01_odd() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	k, x := vOdd("key", 1), vOdd("x", 2)
	more := rt.Choose("more", 2) == 1
	switch rt.Choose("type", 6) {
	case 0:
		vOn(s, c, m, 0, "set", k, x)
	case 1:
		vOn(s, c, m, 0, "hset", k, x, "v", "f", x)
		if more {
			vOn(s, c, m, 0, "hdel", k, x)
		}
	case 2:
		vOn(s, c, m, 0, "rpush", k, x, "b")
		if more {
			vOn(s, c, m, 0, "lpop", k)
		}
	case 3:
		vOn(s, c, m, 0, "sadd", k, x, "b", "c")
		if more {
			vOn(s, c, m, 0, "spop", k)
		} else {
			vOn(s, c, m, 0, "srem", k, x)
		}
	case 4:
		vOn(s, c, m, 0, "zadd", k, "1", x, "2", "b")
		if more {
			vOn(s, c, m, 0, "zrem", k, x)
		}
	case 5:
		vOn(s, c, m, 0, "setex", k, "5", x)
		rt.Tick(0, 6000)
		vOn(s, c, m, 0, "get", k)
		if more {
			vOn(s, c, m, 0, "rpush", k, x)
		}
	}
	vLoads("after a restart", cfg, m)
	rt.Reach("end")
}
