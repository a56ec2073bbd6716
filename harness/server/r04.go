package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vAlive asserts that the server answers the command and then another connection.
func vAlive(s *Server, c, other *vsyscall.File, a ...string) {
	r := vDo(s, c, a...)
	rt.Assert(!c.Closed && vWellFormed(r), a[0]+" is answered")
	rt.Assert(vDo(s, other, "ping") == "+PONG\r\n", "the server goes on after "+a[0])
}

// vExtreme is a text for an integer argument.
func vExtreme() string {
	switch k := rt.Choose("extreme", 12); k {
	case 0:
		return vNum("n", 1, true)
	case 1:
		return "10" + vNum("n", 2, false)
	case 2:
		return "-10" + vNum("n", 2, false)
	default:
		return []string{"9223372036854775807", "-9223372036854775808", "9223372036854775806", "-9223372036854775807", "4611686018427387904", "2147483648", "-2147483649", "9223372036854775808", "x"}[k-3]
	}
}

// vExtreme2 is one for a second integer argument.
func vExtreme2() string {
	if rt.Thorough() {
		return vExtreme()
	}
	if k := rt.Choose("extreme2", 5); k > 0 {
		return []string{"9223372036854775807", "-9223372036854775808", "2147483648", "-1"}[k-1]
	}
	return vNum("n2", 1, false)
}

func vExtremeScore2() string {
	if rt.Thorough() {
		return vExtremeScore()
	}
	return []string{"2", "inf", "-inf", "nan", "1e308"}[rt.Choose("score2", 5)]
}

func vExtremeScore() string {
	return []string{"0", "2", "-1", "inf", "-inf", "nan", "1e308", "-1e308", "5e-324", "-0", "1e999", "x"}[rt.Choose("score", 12)]
}

// vExtremeArgs is a request of the named command with extreme arguments.
func vExtremeArgs(name, key string) []string {
	el := func() string { return []string{"", "a", "x", "e1"}[rt.Choose("el", 4)] }
	switch name {
	case "expire", "expireat", "lindex":
		return []string{name, key, vExtreme()}
	case "setex":
		return []string{name, key, vExtreme(), "v"}
	case "lrange", "zrange", "zremrangebyrank":
		return []string{name, key, vExtreme(), vExtreme2()}
	case "zcount":
		return []string{name, key, vExtremeScore(), vExtremeScore2()}
	case "zrangebyscore", "zremrangebyscore":
		return []string{name, key, vExtremeScore(), vExtremeScore2(), "withscores"}
	case "zadd":
		return []string{name, key, vExtremeScore(), el(), "1", "a"}
	case "hset":
		return []string{name, key, el(), "", "", el()}
	case "keys":
		return []string{name, []string{"*", "", "[", "(", "\\", "a{1001}", "a**", ".*", "\xff"}[rt.Choose("pattern", 9)]}
	case "select":
		return []string{name, vExtreme()}
	case "auth":
		return []string{name, el()}
	case "ping", "bgrewriteaof", "randomget":
		return []string{name}
	case "ttl", "get", "hkeys", "hlen", "lpop", "rpop", "llen", "spop", "scard", "smembers", "zcard":
		return []string{name, key}
	case "sdiff", "sinter", "sunion":
		return []string{name, key, []string{"S", "none", "h", key}[rt.Choose("second", 4)], "S"}
	}
	return []string{name, key, el(), el()}
}

// vEmptied leaves the collections of the fixture without elements.
func vEmptied(s *Server, c *vsyscall.File, m *vModel) {
	vStep(s, c, m, "hdel", "h", "a", "b", "c")
	for i := 0; i < 3; i++ {
		vStep(s, c, m, "lpop", "l")
	}
	vStep(s, c, m, "srem", "S", "a", "b", "c")
	vStep(s, c, m, "zrem", "z", "a", "b", "c")
}

// vExtremes runs one command with extreme arguments, then one more on the same key.
func vExtremes(prepare func(s *Server, c *vsyscall.File, m *vModel)) {
	cfg := vCfgAof()
	name := vArity[rt.Choose("command", len(vArity))].name
	if (rt.Thorough() || name == "bgrewriteaof") && rt.Choose("log", 2) == 1 {
		cfg = vCfg()
	}
	s := vBoot(cfg)
	c, other := vDial(s), vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	prepare(s, c, m)
	rt.AllocLimit(1 << 20)
	key := vKeyFor(name)
	switch rt.Choose("key", 4) {
	case 1:
		key = "none"
	case 2:
		key = "d"
	case 3:
		key = "e"
	}
	a := vExtremeArgs(name, key)
	vAlive(s, c, other, a...)
	vCron(s, 1)
	b := []string{"randomget"}
	switch vTypeOf(name) {
	case 'h':
		b = []string{"hkeys", key}
	case 'l':
		b = []string{"lrange", key, "0", "-1"}
	case 'S':
		b = []string{"smembers", key}
	case 'z':
		b = []string{"zrange", key, "0", "9", "withscores"}
	}
	vAlive(s, c, other, b...)
	rt.RunTasks()
	vCron(s, 1)
	vAlive(s, c, other, b...)
	rt.Reach(name)
}

// every command with extreme arguments (integers: sign and any digit, 1000..1099, -1099..-1000, the ends of 64 and 32 bits, beyond; scores: infinite, NaN, subnormal, overflowing; patterns that do not compile) on small collections, absent keys and keys of another type, with the log on and off; a cron tick, a pending rewrite and another command follow
func VH_R04_fixture() {
	vExtremes(func(s *Server, c *vsyscall.File, m *vModel) {})
}

// the same on collections whose elements were all removed
func VH_R04_emptied() {
	vExtremes(vEmptied)
}

// the same after every deadline has passed and with keys s, h, l, S, z expired too
func VH_R04_expired() {
	vExtremes(func(s *Server, c *vsyscall.File, m *vModel) {
		for _, k := range []string{"s", "h", "l", "S", "z"} {
			vStep(s, c, m, "expire", k, "10")
		}
		rt.Tick(300, 0)
	})
}

// list commands with extreme positions on lists of 0, 1, 1023, 1024, 1025, 2049 elements pushed at either end, in every position next to a page border (symbolic last digit for LINDEX; LRANGE: all pairs of 16 positions)
func VH_R04_pages() {
	s := vBoot(vCfg())
	c, other := vDial(s), vDial(s)
	n := []int{0, 1, 1023, 1024, 1025, 2049}[rt.Choose("n", 6)]
	push := []string{"lpush", "rpush"}[rt.Choose("push", 2)]
	a := []string{push, "l", "drop"}
	for i := 0; i < n; i++ {
		a = append(a, "e")
	}
	vAlive(s, c, other, a...)
	vAlive(s, c, other, []string{"lpop", "rpop"}[rt.Choose("pop", 2)], "l")
	rt.AllocLimit(1 << 20)
	pos := func(what string) string {
		switch k := rt.Choose(what, 7); k {
		case 0:
			return "102" + vNum(what, 1, false)
		case 1:
			return "-102" + vNum(what, 1, false)
		case 2:
			return "204" + vNum(what, 1, false)
		case 3:
			return vNum(what, 1, true)
		default:
			return []string{"9223372036854775807", "-9223372036854775808", "-9223372036854775807"}[k-4]
		}
	}
	if rt.Choose("command", 2) == 0 {
		vAlive(s, c, other, "lindex", "l", pos("i"))
	} else {
		p := []string{"9223372036854775807", "-9223372036854775808", "-9223372036854775807", "0", "1", "-1", "-2", "1022", "1023", "1024", "1025", "-1023", "-1024", "-1025", "2048", "-2048"}
		vAlive(s, c, other, "lrange", "l", p[rt.Choose("start", len(p))], p[rt.Choose("stop", len(p))])
	}
	rt.Reach(strconv.Itoa(n))
}

// 8 to 10 arguments (and requests of 33 and 302) of every command that takes any number, repeated and empty ones among them, on the fixture
func VH_R04_many() {
	s := vBoot(vCfgAof())
	c, other := vDial(s), vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := []string{"set", "hset", "hdel", "lpush", "rpush", "lrange", "sadd", "srem", "sdiff", "sinter", "sunion", "zadd", "zrange", "zrangebyscore", "zrem", "zremrangebyrank", "zremrangebyscore"}[rt.Choose("command", 17)]
	a := []string{name, vKeyFor(name)}
	k := []int{6, 7, 8, 31, 300}[rt.Choose("args", 5)]
	for i := 0; i < k; i++ {
		x := "b"
		if i < 2 && (k < 9 || i == 0) || rt.Thorough() && i < 4 {
			x = vBytes("x", rt.Choose("len", 2))
		}
		switch {
		case vTypeOf(name) == 'z' || name == "lrange":
			x = "1"
			if i < 3 {
				x = []string{"1", "", "inf", "withscores"}[rt.Choose("x", 4)]
			}
		case i > 3:
			x = "e" + strconv.Itoa(i/2)
		}
		a = append(a, x)
	}
	vAlive(s, c, other, a...)
	rt.Reach(name)
}
