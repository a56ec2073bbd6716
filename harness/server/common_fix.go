package server

import (
	"strconv"
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vrand"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vFix fills database 0: one key of each type (s h l S z) with elements a b c,
// d (a string with a deadline in 100 s), e (a list with a deadline), and
// database 1: s and z.
func vFix(s *Server, c *vsyscall.File, m *vModel) {
	for _, q := range []string{"set s sv", "hset h a 1 b 2 c 3", "rpush l a b c", "sadd S a b c", "zadd z 1 a 2 b 2 c", "setex d 100 dv", "rpush e a b", "expire e 200"} {
		vStep(s, c, m, strings.Split(q, " ")...)
	}
	vDo(s, c, "select", "1")
	for _, q := range []string{"set s other", "zadd z 5 a", "expire z 50"} {
		a := strings.Split(q, " ")
		vMatch(a[0], vDo(s, c, a...), m.exec(1, a))
	}
	vDo(s, c, "select", "0")
}

// vKeyFor is the fixture's key of a command's type.
func vKeyFor(name string) string {
	switch vTypeOf(name) {
	case 's':
		return "s"
	case 'h':
		return "h"
	case 'l':
		return "l"
	case 'S':
		return "S"
	case 'z':
		return "z"
	}
	return "s"
}

// vArgs is a valid request of the named command on a key, its other arguments
// being arbitrary in small ranges.
func vArgs(name, key string) []string {
	el := func() string { return vOneOf("el", "abcd") }
	switch name {
	case "ping", "bgrewriteaof", "randomget":
		return []string{name}
	case "select":
		return []string{name, "0"}
	case "auth":
		return []string{name, "pw"}
	case "keys":
		return []string{name, "*"}
	case "expire":
		return []string{name, key, "3" + vNum("n", 1, false)}
	case "expireat":
		return []string{name, key, "17000009" + vNum("n", 2, false)}
	case "set":
		return []string{name, key, vBytes("v", 2)}
	case "setex":
		return []string{name, key, "3" + vNum("n", 1, false), vBytes("v", 1)}
	case "ttl", "get", "hkeys", "hlen", "lpop", "rpop", "llen", "spop", "scard", "smembers", "zcard":
		return []string{name, key}
	case "hset":
		return []string{name, key, el(), vBytes("v", 1), "z", "9"}
	case "hget", "hexists", "sismember", "zscore":
		return []string{name, key, el()}
	case "hdel", "srem", "zrem", "sadd":
		return []string{name, key, el(), el()}
	case "lpush", "rpush":
		return []string{name, key, vBytes("v", 1), "b"}
	case "lindex":
		return []string{name, key, vNum("i", 1, false)}
	case "lrange", "zrange", "zremrangebyrank":
		return []string{name, key, vNum("i", 1, false), vNum("j", 1, false)}
	case "sdiff", "sinter", "sunion":
		return []string{name, key, []string{"S", "none"}[rt.Choose("second", 2)]}
	case "zadd":
		return []string{name, key, "1.5", el(), "7", "b"}
	case "zrangebyscore", "zremrangebyscore", "zcount":
		return []string{name, key, "1", []string{"1.5", "2"}[rt.Choose("max", 2)]}
	}
	panic("no arguments for " + name)
}

// vLogSize is the length of the log file.
func vLogSize() int { return len(vos.Content(vAof)) }

// vExec runs one request and checks reply and dataset, knowing the commands the model leaves out.
func vExec(s *Server, c *vsyscall.File, m *vModel, db int, a []string) {
	r := vDo(s, c, a...)
	switch a[0] {
	case "select", "auth":
		rt.Assert(r == vOK, a[0]+": OK is replied")
	case "bgrewriteaof":
		rt.Assert(vLine(r), a[0]+": one line is replied")
	default:
		vMatch(a[0], r, m.exec(db, a))
	}
}

// vNoEffect asserts that a request just answered with r was refused and changed nothing.
func vNoEffect(what string, s *Server, c *vsyscall.File, r string, m *vModel, size int) {
	rt.Assert(vErrReply(r), what+": an error is replied")
	vSame(what, vDump(s), m, 0)
	rt.Assert(vLogSize() == size, what+": nothing is logged")
	rt.Assert(rt.Tasks() == 0, what+": nothing is started")
}

// vPass lets an arbitrary time of 0..hi seconds and 0, 1 or 999 ms pass; no key is exactly at its deadline then.
func vPass(m *vModel, hi int) {
	rt.Tick(int64(rt.Int("pass", 0, hi)), []int64{0, 1, 999}[rt.Choose("ms", 3)])
	for _, db := range m.dbs {
		for _, k := range db {
			if k.hasExp {
				rt.Assume(k.exp != rt.NowMs())
			}
		}
	}
}

// vReclaim lets the server's cron run (draws partly arbitrary) or not.
func vReclaim(s *Server) {
	if rt.Choose("reclaim", 2) == 1 {
		vrand.Free, vrand.Small = 2, 8
		vCron(s, 1)
		vrand.Free = 0
	}
}

// vLong is a name of n bytes whose last one is arbitrary.
func vLong(what string, n int) string {
	return strings.Repeat("a name with a long beginning ", n/29+1)[:n-1] + vBytes(what, 1)
}

// vMembers is n different names, from the i-th on.
func vMembers(i, n int) []string {
	var l []string
	for ; n > 0; n-- {
		l = append(l, "m"+strconv.Itoa(i))
		i++
	}
	return l
}
