package server

import (
	"strconv"
	"strings"
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vrand"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vReadBack checks a key with the commands that read it, and its TTL.
func vReadBack(s *Server, c *vsyscall.File, m *vModel, key string) {
	vStep(s, c, m, "ttl", key)
	k := m.find(0, key)
	if k == nil {
		vStep(s, c, m, "get", key)
		return
	}
	switch k.val.t {
	case 's':
		vStep(s, c, m, "get", key)
	case 'h':
		vStep(s, c, m, "hkeys", key)
	case 'l':
		vStep(s, c, m, "lrange", key, "0", "-1")
	case 'S':
		vStep(s, c, m, "smembers", key)
	case 'z':
		vStep(s, c, m, "zrange", key, "0", "9", "withscores")
	}
}

// vLived asserts that the live parts of server and model agree.
func vLived(what string, s *Server, m *vModel) {
	vSame(what, vDump(s).liveAll(), m.clone().liveAll(), 0)
}

// every command on a key of its type whose deadline lies 10..19 s ahead (set by EXPIRE), after any 0..25 s and 0, 1 or 999 ms, the cron having run or not (2 arbitrary draws); then TTL and a reading command on the key
func VH_K01_command() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := vArity[rt.Choose("command", len(vArity))].name
	switch name {
	case "ping", "select", "auth", "bgrewriteaof", "randomget":
		return
	}
	key := vKeyFor(name)
	vStep(s, c, m, "expire", key, "1"+vNum("deadline", 1, false))
	vPass(m, 25)
	vReclaim(s)
	vStep(s, c, m, vArgs(name, key)...)
	vReadBack(s, c, m, key)
	vLived(name, s, m)
	rt.Reach(name)
}

// every writing command on an expired key of any (another or the same) type, reclaimed or not: it starts a new value without deadline, which survives another 300 s
func VH_K01_reuse() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	w := []string{"set", "setex", "hset", "lpush", "rpush", "sadd", "zadd", "expire", "expireat"}
	name := w[rt.Choose("command", len(w))]
	key := []string{"s", "h", "l", "S", "z", "d", "e"}[rt.Choose("key", 7)]
	vStep(s, c, m, "expire", key, "5")
	rt.Tick(5+int64(rt.Int("late", 0, 3)), 1)
	vReclaim(s)
	a := vArgs(name, key)
	vStep(s, c, m, a...)
	vReadBack(s, c, m, key)
	rt.Tick(300, 0)
	vReadBack(s, c, m, key)
	vLived(name, s, m)
	rt.Reach(name)
}

// KEYS, RANDOMGET (4 arbitrary draws) and set algebra over three keys whose deadlines lie 15 s and (two of them, thorough: all) 10..19 s ahead and one without, after 0..25 s
func VH_K01_several() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	for i := 0; i < 3; i++ {
		k := "S" + strconv.Itoa(i)
		vStep(s, c, m, "sadd", k, vLetter(i), "x")
		d := "15"
		if i > 0 || rt.Thorough() {
			d = "1" + vNum("deadline", 1, false)
		}
		vStep(s, c, m, "expire", k, d)
	}
	vStep(s, c, m, "sadd", "S3", "x", "y")
	vPass(m, 25)
	switch q := rt.Choose("command", 6); q {
	case 0:
		vStep(s, c, m, "keys", "*")
	case 1:
		vrand.Free, vrand.Small = 4, 8
		vStep(s, c, m, "randomget")
		vrand.Free = 0
	case 5: // expired operands before and behind
		vStep(s, c, m, "sunion", "S3", "S0", "none", "S1")
	default:
		a := []string{[]string{"sunion", "sinter", "sdiff"}[q-2], "S0", "S1", "S3"}
		if rt.Choose("order", 2) == 1 {
			a[1], a[3] = a[3], a[1]
		}
		vStep(s, c, m, a...)
	}
	for i := 0; i < 4; i++ {
		vReadBack(s, c, m, "S"+strconv.Itoa(i))
	}
	vLived("several keys", s, m)
	rt.Reach("end")
}

// a deadline in the past: EXPIRE with 0 or a negative number of up to 2 digits, EXPIREAT with an instant of 0..99 s ago, SETEX with a negative number, followed by every writing command on the key
func VH_K01_past() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	key := []string{"s", "h", "l", "S", "z"}[rt.Choose("key", 5)]
	switch rt.Choose("how", 3) {
	case 0:
		vStep(s, c, m, "expire", key, "-"+vNum("n", 1+rt.Choose("digits", 2), false))
	case 1:
		vStep(s, c, m, "expireat", key, "16999999"+vNum("n", 2, false))
	case 2:
		vStep(s, c, m, "setex", key, "-"+vNum("n", 1, false), "v")
	}
	rt.Tick(0, 1)
	vReclaim(s)
	w := strings.Fields("get ttl set setex hset lpush sadd zadd expire keys hget lpop smembers zrange")
	vStep(s, c, m, vArgs(w[rt.Choose("command", len(w))], key)...)
	vReadBack(s, c, m, key)
	vLived("a deadline in the past", s, m)
	rt.Reach("end")
}

// time passing within one iteration: requests of three connections for a key due in 1..5 s, 1..5 s and a millisecond passing before any of the calls of the iteration that serve them: what is read from its deadline on is as if the key were absent
func VH_K01_iteration() {
	s := vBoot(vCfg())
	key := []string{"s", "h", "e"}[rt.Choose("key", 3)]
	m := vNewModel(2)
	c := vDial(s)
	vFix(s, c, m)
	vStep(s, c, m, "expire", key, vNum("deadline", 1, false))
	d := m.find(0, key)
	rt.Assume(d != nil && d.hasExp && d.exp > rt.NowMs())
	pass := int64(rt.Int("seconds", 1, 5))
	read := map[string][]string{"s": {"get", "s"}, "h": {"hget", "h", "a"}, "e": {"lrange", "e", "0", "-1"}}[key]
	peers := []*vsyscall.File{c, vDial(s), vDial(s)}
	n, at := 0, rt.Choose("call", 4)
	var late [3]bool
	var out [3]int
	for i, p := range peers {
		out[i] = len(p.Out)
		vPost(p, vEnc(read...))
	}
	vsyscall.Fail = func(call string) syscall.Errno {
		if call == "read" {
			if n == at {
				rt.Tick(pass, 1)
				for i, p := range peers {
					late[i] = len(p.In) > 0
				}
			}
			n++
		}
		return 0
	}
	vResume(s)
	vsyscall.Fail = nil
	if rt.NowMs() > d.exp {
		for i, p := range peers {
			if late[i] {
				vMatch("a request arriving after the deadline", string(p.Out[out[i]:]), m.exec(0, read))
			}
		}
		rt.Reach("expired")
	}
	rt.Reach(key)
}
