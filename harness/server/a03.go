package server

import (
	"math/bits"
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
)

// vRewrite runs a whole background rewrite; what happens between its steps is up to at: 0 after its start, 1 when the new log is written, 2 when it has replaced the old one.
func vRewrite(s *Server, at func(stage int)) {
	c := vDial(s)
	rt.Assert(vLine(vDo(s, c, "bgrewriteaof")), "a rewrite: one line is replied")
	rt.Assert(rt.Tasks() == 1, "a rewrite: one background task is started")
	at(0)
	rt.RunTasks()
	at(1)
	vCron(s, 1)
	at(2)
}

// vSurvives asserts that the running server and one started on its log have the dataset of the model.
func vSurvives(s *Server, cfg *config.Config, m *vModel) *Server {
	vSame("in the running server", vDump(s).liveAll().dropEmpty(), m.clone().liveAll().dropEmpty(), 0)
	return vLoads("after a restart", cfg, m)
}

// each writing command (arguments in part arbitrary) on a fixture of every type in two databases, on a key of its type, a new key or one with a deadline, before the dump runs, between dump and completion, or after completion; then a restart
func VH_A03_command() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := vWriters[rt.Choose("command", len(vWriters))]
	key := []string{vKeyFor(name), "new", "d"}[rt.Choose("key", 3)]
	stage := rt.Choose("stage", 3)
	vRewrite(s, func(i int) {
		if i == stage {
			vOn(s, c, m, 0, vArgs(name, key)...)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach(name)
}

// a connection switching databases: an arbitrary choice of database for each of 0..2 commands before the rewrite, before the dump, (thorough: before its completion) and after it; then a restart
func VH_A03_databases() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	m := vNewModel(2)
	c := vDial(s)
	vStep(s, c, m, "set", "k", "v")
	at := func(i int) {
		if d := rt.Choose("database", 2); d == 1 {
			vDo(s, c, "select", "1")
			vOn(s, c, m, 1, "rpush", "l", strconv.Itoa(i), vBytes("v", 1))
			vDo(s, c, "select", "0")
		} else {
			vOn(s, c, m, 0, "rpush", "l", strconv.Itoa(i), vBytes("v", 1))
		}
	}
	for n := rt.Choose("before", 3); n > 0; n-- {
		at(9)
	}
	vRewrite(s, func(i int) {
		for n := rt.Choose("commands", 3); n > 0 && (i != 1 || rt.Thorough()); n-- {
			at(i)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach("end")
}

// keys of every type with n = 1, 64, 65, 129 (thorough: 2, 63, 127, 128, 130, 200, 513 too) elements (one of them with an arbitrary byte, a single one possibly empty) and a deadline on one of them
func VH_A03_large() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	n := []int{1, 64, 65, 129}[rt.Choose("n", 4)]
	if rt.Thorough() {
		n = []int{1, 2, 63, 64, 65, 127, 128, 129, 130, 200, 513}[rt.Choose("n", 11)]
	}
	if n == 1 {
		vStep(s, c, m, "set", "s", vOdd("v", 2))
	} else {
		vStep(s, c, m, "set", "s", vBytes("v", 1))
	}
	kind := rt.Choose("kind", 4)
	a := []string{[]string{"rpush", "hset", "sadd", "zadd"}[kind], "k"}
	for i := 0; i < n; i++ {
		e := "e" + strconv.Itoa(i)
		if i == n-1 {
			e = "x" + vBytes("e", 1)
		}
		if n == 1 {
			e = vOdd("e", 1)
		}
		switch kind {
		case 0, 2:
			a = append(a, e)
		case 1:
			v := strconv.Itoa(i * 7)
			if n == 1 {
				v = vOdd("value", 1)
			}
			a = append(a, e, v)
		case 3:
			a = append(a, strconv.Itoa((i*7)%13), e)
		}
	}
	vStep(s, c, m, a...)
	if rt.Choose("deadline", 2) == 1 {
		vStep(s, c, m, "expire", "k", "90")
	}
	vRewrite(s, func(int) {})
	s = vSurvives(s, cfg, m)
	c = vDial(s)
	vOn(s, c, m, 0, "set", "s", "again")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// scores of every kind: integers, fractions, exponents, infinities, both zeros; equal scores; rewrite and restart keep order and values
func VH_A03_scores() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	sc := []string{"0", "-0", "1e300", "-1e-300", "0.1", "-3.25", "inf", "-inf", "9007199254740993", "1.7976931348623157e308", "5e-324"}
	x, y := sc[rt.Choose("x", len(sc))], sc[rt.Choose("y", len(sc))]
	vStep(s, c, m, "zadd", "z", x, "b", y, "a", "0", vBytes("e", 1)+"e")
	vRewrite(s, func(int) {})
	r := vDo(s, c, "zrange", "z", "0", "2", "withscores")
	s = vSurvives(s, cfg, m)
	rt.Assert(vDo(s, vDial(s), "zrange", "z", "0", "2", "withscores") == r, "after a restart: the sorted set is listed as before")
	rt.Reach("end")
}

// deadlines passing at any time: keys of three types due in 1x s (x arbitrary) and 100 s; 0..25 s pass before the start, the dump, the completion or after it, expired keys reclaimed or not, an expired key written again or not
func VH_A03_expiry() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	key := []string{"s", "h", "z"}[rt.Choose("key", 3)]
	for _, q := range []string{"set s sv", "hset h a 1", "zadd z 1 a", "set x y", "setex d 100 v"} {
		vStep(s, c, m, strings.Split(q, " ")...)
	}
	vStep(s, c, m, "expire", key, "1"+vNum("n", 1, false))
	pass, write := rt.Choose("pass", 4), rt.Choose("write", 4)
	at := func(i int) {
		if i == pass {
			rt.Tick(int64(rt.Int("seconds", 0, 25)), 0)
			vClear(m)
			vReclaim(s)
		}
		if i == write {
			vOn(s, c, m, 0, strings.Split(map[string]string{"s": "set s w", "h": "hset h b 2", "z": "zadd z 2 b"}[key], " ")...)
		}
	}
	at(0)
	vRewrite(s, func(i int) {
		// a cron tick completes the rewrite, so time passes without one once the dump is done
		if i == 1 && pass == 2 {
			rt.Tick(int64(rt.Int("seconds", 0, 25)), 0)
			vClear(m)
		} else {
			at(i + 1)
			return
		}
		if write == 2 {
			at(2)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach("end")
}

// two rewrites in succession with commands (1 arbitrary byte each) around their steps, BGREWRITEAOF repeated while one runs, each fsync policy; a restart after either of the steps, the second rewrite in the new process if one restarts between
func VH_A03_twice() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	n := 0
	write := func() {
		n++
		vOn(s, c, m, 0, "rpush", "l", strconv.Itoa(n), vBytes("v", 1))
		vOn(s, c, m, 0, "zadd", "z", strconv.Itoa(n%3), "m"+strconv.Itoa(n%4))
	}
	stop := rt.Choose("restart", 6)
	for round := 0; round < 2; round++ {
		write()
		r := vDo(s, c, "bgrewriteaof")
		rt.Assert(vLine(r), "a rewrite: one line is replied")
		for i := 0; i < 3; i++ {
			write()
			switch i {
			case 0:
				before := rt.Tasks()
				rt.Assert(vLine(vDo(s, c, "bgrewriteaof")), "a rewrite while one runs: one line is replied")
				rt.Assert(rt.Tasks() == before, "a rewrite while one runs: no task is started")
				rt.RunTasks()
			case 1:
				vCron(s, 1)
			}
			if stop == 3*round+i {
				s = vSurvives(s, cfg, m)
				c = vDial(s)
				if i < 2 {
					break
				}
			}
		}
	}
	vSurvives(s, cfg, m)
	rt.Reach("end")
}

// commands executed while the dump is being written: one command out of 8 before any of the file operations of the background task
func VH_A03_during() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	v := vBytes("v", 1)
	q := strings.Split([]string{"set s w", "hset h a 9 d 4", "rpush l d", "lpop l", "spop S", "zadd z 9 a", "zremrangebyrank z 0 0", "expire s 70", "hdel h b"}[rt.Choose("command", 9)], " ")
	at, n := rt.Choose("operation", 16), 0
	vRewrite(s, func(i int) {
		switch i {
		case 0:
			rt.OnOp = func() {
				if n == at {
					vOn(s, c, m, 0, q...)
					vOn(s, c, m, 0, "rpush", "new", v)
				}
				n++
			}
		case 1:
			rt.OnOp = nil
			rt.Assume(n > at)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach("end")
}

// requests (two pipelined commands of one connection, one of another, 1 arbitrary byte each) arriving in the very iteration in which the rewrite starts (BGREWRITEAOF among them), is completed, or both
func VH_A03_iteration() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c, d := vDial(s), vDial(s)
	m := vNewModel(2)
	vStep(s, c, m, "rpush", "l", "0")
	vDo(s, d, "select", "1")
	vOn(s, d, m, 1, "set", "k", "v")
	if rt.Choose("last", 2) == 1 {
		vStep(s, c, m, "rpush", "l", "1")
	}
	v := vBytes("v", 1)
	post := func() {
		first := rt.Choose("first", 2)
		for i := 0; i < 2; i++ {
			if i == first {
				vPost(c, vEnc("rpush", "l", v))
				m.exec(0, []string{"rpush", "l", v})
				vPost(c, vEnc("hset", "h", "f", v))
				m.exec(0, []string{"hset", "h", "f", v})
			} else {
				vPost(d, vEnc("rpush", "l", v))
				m.exec(1, []string{"rpush", "l", v})
			}
		}
	}
	switch rt.Choose("when", 3) {
	case 0:
		vPost(c, vEnc("bgrewriteaof"))
		post()
		vResume(s)
		rt.RunTasks()
		vCron(s, 1)
	case 1:
		vPost(c, vEnc("bgrewriteaof"))
		vResume(s)
		rt.RunTasks()
		post()
		vCron(s, 1)
	case 2:
		vPost(c, vEnc("bgrewriteaof"))
		post()
		vResume(s)
		post()
		rt.RunTasks()
		post()
		vCron(s, 1)
	}
	vSame("in the running server", vDump(s), m, 0)
	s = vSurvives(s, cfg, m)
	vOn(s, vDial(s), m, 0, "rpush", "l", "z")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// a dataset that is empty, was emptied, has only empty collections, only keys in database 1, or only keys with a deadline; a rewrite, a command (or none) at each stage
func VH_A03_empty() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	switch rt.Choose("dataset", 5) {
	case 1:
		vStep(s, c, m, "setex", "k", "5", "v")
		rt.Tick(10, 0)
		vReclaim(s)
	case 2:
		vStep(s, c, m, "sadd", "S", "a")
		vStep(s, c, m, "srem", "S", "a")
		vStep(s, c, m, "rpush", "l", "a")
		vStep(s, c, m, "lpop", "l")
		vStep(s, c, m, "hset", "h", "a", "b")
		vStep(s, c, m, "hdel", "h", "a")
		vStep(s, c, m, "zadd", "z", "1", "b")
		vStep(s, c, m, "zrem", "z", "b")
	case 3:
		vDo(s, c, "select", "1")
		vOn(s, c, m, 1, "set", "k", "v")
		vDo(s, c, "select", "0")
	case 4:
		vStep(s, c, m, "setex", "k", "500", vBytes("v", 1))
		if rt.Choose("two", 2) == 1 {
			vStep(s, c, m, "hset", "h", "a", "b")
			vStep(s, c, m, "expire", "h", "600")
		}
	}
	at := rt.Choose("at", 4)
	vRewrite(s, func(i int) {
		if i == at {
			vOn(s, c, m, 0, "rpush", "l", vBytes("v", 1))
		}
	})
	s = vSurvives(s, cfg, m)
	vOn(s, vDial(s), m, 0, "rpush", "l", "z")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// a key written while a rewrite runs, within its deadline (10..19 s), which passes before the dump reads it, between dump and completion or after it (1 arbitrary draw of the cron): what was in the key is gone, with the command's elements, after a restart
func VH_A03_stale() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	key := []string{"s", "h", "l", "S", "z"}[rt.Choose("key", 5)]
	vFix(s, c, m)
	for i := 0; i < 4; i++ {
		vStep(s, c, m, "setex", "x"+strconv.Itoa(i), "500", "v")
	}
	vStep(s, c, m, "expire", key, "1"+vNum("n", 1, false))
	at := rt.Choose("stage", 4)
	tick := func() {
		rt.Tick(20, 1)
		vClear(m)
	}
	vrand.Small = 16
	vRewrite(s, func(i int) {
		if i == 0 {
			vOn(s, c, m, 0, strings.Split(map[string]string{"s": "set x v", "h": "hset h b 2", "l": "rpush l z", "S": "sadd S z", "z": "zadd z 2 z"}[key], " ")...)
			if at == 3 {
				at = 9
				tick()
			}
		}
		if i == at {
			tick()
		}
		if i == 1 {
			vrand.Free = 1
		}
	})
	vrand.Free = 0
	vSurvives(s, cfg, m)
	rt.Reach(key)
}

// 101 databases: data in database 0 and in any one of 9..12, 99, 100, commands before, during and after a rewrite; a restart
func VH_A03_many() {
	cfg := vCfgAof()
	cfg.DatabaseNum = 101
	s := vBoot(cfg)
	m := vNewModel(101)
	d := []int{9, 10, 11, 12, 99, 100}[rt.Choose("database", 6)]
	c, o := vDial(s), vDial(s)
	rt.Assert(vDo(s, c, "select", strconv.Itoa(d)) == vOK, "SELECT succeeds")
	write := func(i int) {
		vOn(s, o, m, 0, "rpush", "k", strconv.Itoa(i))
		vOn(s, c, m, d, "rpush", "k", vBytes("w", 1), strconv.Itoa(i))
	}
	write(9)
	at := rt.Choose("stage", 4)
	vRewrite(s, func(i int) {
		if i == at {
			write(i)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach("end")
}

// a list, hash, set or sorted set of 1089 or 1300 elements, rewritten, and the server restarted: the number of elements and any one of seven of them
func VH_A03_long() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	n := []int{1300, 1089}[rt.Choose("n", 2)]
	lv := uint(0)
	vrand.LevelPlan = func() int { lv++; return bits.TrailingZeros(lv) }
	kind := rt.Choose("kind", 4)
	a := []string{[]string{"rpush", "hset", "sadd", "zadd"}[kind], "k"}
	for i, e := range vMembers(0, n) {
		switch kind {
		case 0, 2:
			a = append(a, e)
		case 1:
			a = append(a, e, strconv.Itoa(i))
		case 3:
			a = append(a, strconv.Itoa(i), e)
		}
	}
	vDo(s, c, a...)
	i := []int{0, 63, 64, 1023, 1087, 1088, n - 1}[rt.Choose("i", 7)]
	e, v := "m"+strconv.Itoa(i), strconv.Itoa(i)
	score := vDo(s, c, "zscore", "k", e)
	vRewrite(s, func(int) {})
	s = vRestart(cfg)
	c = vDial(s)
	size := []string{"llen", "hlen", "scard", "zcard"}[kind]
	rt.Assert(vDo(s, c, size, "k") == vInt(n), "after a restart: every element is there")
	switch kind {
	case 0:
		rt.Assert(vDo(s, c, "lindex", "k", v) == vBulk(e), "after a restart: each element is in its place")
	case 1:
		rt.Assert(vDo(s, c, "hget", "k", e) == vBulk(v), "after a restart: each field has its value")
	case 2:
		rt.Assert(vDo(s, c, "sismember", "k", e) == vInt(1), "after a restart: each member is there")
	case 3:
		rt.Assert(vDo(s, c, "zscore", "k", e) == score, "after a restart: each member has its score")
	}
	vrand.LevelPlan = nil
	rt.Reach(size)
}

// a key of 0..1 and elements of 0..2 arbitrary bytes of each type, with a deadline or without, another command on it before the dump of a rewrite, between dump and completion, or after it
func VH_A03_odd() {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	k, x := vOdd("key", 1), vOdd("x", 2)
	var next []string
	switch rt.Choose("type", 5) {
	case 0:
		vOn(s, c, m, 0, "set", k, x)
		next = []string{"set", x, k}
	case 1:
		vOn(s, c, m, 0, "hset", k, x, "v", "f", x)
		next = []string{"hdel", k, x}
	case 2:
		vOn(s, c, m, 0, "rpush", k, x, "b")
		next = []string{"lpush", k, x}
	case 3:
		vOn(s, c, m, 0, "sadd", k, x, "b")
		next = []string{"srem", k, x}
	case 4:
		vOn(s, c, m, 0, "zadd", k, "1", x, "2", "b")
		next = []string{"zadd", k, "3", x}
	}
	if rt.Choose("deadline", 2) == 1 {
		vOn(s, c, m, 0, "expire", k, "100")
	}
	at := rt.Choose("at", 3)
	vRewrite(s, func(i int) {
		if i == at {
			vOn(s, c, m, 0, next...)
		}
	})
	vSurvives(s, cfg, m)
	rt.Reach("end")
}
