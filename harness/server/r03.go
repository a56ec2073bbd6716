package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vLocked: the connection is not authenticated.
var vLocked bool

// vOneReply sends a request with PING behind it and asserts that it is answered by
// exactly one well-formed reply.
func vOneReply(s *Server, c *vsyscall.File, a ...string) string {
	pong := "+PONG\r\n"
	if vLocked {
		pong = vDo(s, c, "ping")
		rt.Assert(vErrReply(pong), "PING is refused before authentication")
	}
	c.Out = nil
	vPost(c, append(vEnc(a...), vEnc("ping")...))
	vResume(s)
	r := string(c.Out)
	n := len(r) - len(pong)
	rt.Assert(!c.Closed, "a well-formed request does not end the connection")
	rt.Assert(n > 0 && r[n:] == pong, "the reply is followed by that of the next request")
	rt.Assert(vWellFormed(r[:n]), "there is exactly one well-formed reply")
	return r[:n]
}

// vWild is 2 arbitrary bytes (thorough: 0..3), or a text with CRLF that looks like replies.
func vWild() string {
	if rt.Choose("wild", 2) == 1 {
		return "1\r\n+OK\r\n"
	}
	n := 2
	if rt.Thorough() {
		n = rt.Choose("len", 4)
	}
	return vBytes("w", n)
}

// vWildText is a text from a pool, for arguments parsed by library code.
func vWildText() string {
	return []string{"1", "2\r\n", "\r\n-ERR\r\n$5\r\n", "\n", "", "[", "nan", "inf", "-inf", "1e999", "x\x00\xff"}[rt.Choose("text", 11)]
}

// vWildArgs is a request of the named command with arguments that need not be valid.
func vWildArgs(name string) []string {
	key := []string{"s", "h", "l", "S", "z", "d", "none"}[rt.Choose("key", 7)]
	switch name {
	case "expire", "expireat", "lindex":
		return []string{name, key, vWild()}
	case "setex":
		return []string{name, key, vWild(), "v"}
	case "lrange", "zrange", "zremrangebyrank":
		if rt.Choose("place", 2) == 1 {
			return []string{name, key, "0", vWild()}
		}
		return []string{name, key, vWild(), "1"}
	case "zcount", "zrangebyscore", "zremrangebyscore":
		if rt.Choose("place", 2) == 1 {
			return []string{name, key, "0", vWildText()}
		}
		return []string{name, key, vWildText(), "1"}
	case "zadd":
		if rt.Choose("odd", 2) == 1 {
			return []string{name, key, "1", "a", vWildText()}
		}
		return []string{name, key, vWildText(), "a"}
	case "hset":
		if rt.Choose("odd", 2) == 1 {
			return []string{name, key, "a", "1", vWild()}
		}
		return []string{name, key, "a", vWild()}
	case "keys":
		return []string{name, vWildText()}
	case "select", "auth":
		return []string{name, vWild()}
	case "ping", "bgrewriteaof", "randomget":
		return []string{name}
	case "ttl", "get", "hkeys", "hlen", "lpop", "rpop", "llen", "spop", "scard", "smembers", "zcard":
		return []string{name, key}
	case "sdiff", "sinter", "sunion":
		return []string{name, key, []string{"S", "none", "h"}[rt.Choose("second", 3)]}
	}
	return []string{name, key, vWild()}
}

// every command on a key of each type or an absent one, an argument (every numeric, score, pattern, option position in turn) being 2 (thorough: 0..3) arbitrary bytes or a text of a pool of 11 with CR, LF and reply syntax
func VH_R03_command() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	a := vWildArgs(vArity[rt.Choose("command", len(vArity))].name)
	vOneReply(s, c, a...)
	rt.Reach(a[0])
}

// fields, values, members, elements and keys of 2 arbitrary bytes that are returned as data, with an option with an arbitrary ASCII byte and CR for ZRANGE and ZRANGEBYSCORE
func VH_R03_data() {
	s := vBoot(vCfg())
	c := vDial(s)
	w := vOdd("w", 2)
	var reply string
	q := []string{"get", "hget", "hkeys", "lrange", "lindex", "lpop", "rpop", "smembers", "spop", "sunion", "sinter", "sdiff", "zrange", "zrangebyscore", "keys", "randomget"}[rt.Choose("command", 16)]
	one := true
	switch q {
	case "get":
		vOneReply(s, c, "set", "k", w)
		reply = vOneReply(s, c, "get", "k")
		one = false
	case "hget":
		vOneReply(s, c, "hset", "k", "f", w)
		reply = vOneReply(s, c, "hget", "k", "f")
		one = false
	case "hkeys":
		vOneReply(s, c, "hset", "k", w, "1")
		reply = vOneReply(s, c, "hkeys", "k")
	case "lrange":
		vOneReply(s, c, "rpush", "k", w)
		reply = vOneReply(s, c, q, "k", "0", "0")
	case "lindex":
		vOneReply(s, c, "rpush", "k", w)
		reply = vOneReply(s, c, q, "k", "0")
		one = false
	case "lpop", "rpop":
		vOneReply(s, c, "rpush", "k", w)
		reply = vOneReply(s, c, q, "k")
		one = false
	case "smembers", "sunion", "sinter", "sdiff":
		vOneReply(s, c, "sadd", "k", w)
		reply = vOneReply(s, c, q, "k")
		if q != "smembers" {
			vOneReply(s, c, "sadd", "k2", "x")
			reply = vOneReply(s, c, "sunion", "none", "k")
		}
	case "spop":
		vOneReply(s, c, "sadd", "k", w)
		reply = vOneReply(s, c, q, "k")
		one = false
	case "zrange", "zrangebyscore":
		vOneReply(s, c, "zadd", "k", "1", w)
		reply = vOneReply(s, c, q, "k", "0", "1")
		vOneReply(s, c, q, "k", "0", "1", "withscores")
		vOneReply(s, c, q, "k", "0", "1", string([]byte{rt.Byte("option") & 0x7f, '\r'}))
		vOneReply(s, c, "zscore", "k", w)
	case "keys":
		vOneReply(s, c, "set", w, "1")
		reply = vOneReply(s, c, "keys", "*")
	case "randomget":
		vOneReply(s, c, "set", w, "1")
		reply = vOneReply(s, c, q)
		one = false
	}
	if one {
		rt.Assert(reply == vArr(w), "the reply holds the data")
	} else {
		rt.Assert(reply == vBulk(w), "the reply holds the data")
	}
	rt.Reach(q)
}

// names of 1..3 arbitrary ASCII bytes with CR and LF, and every command with 0..4 arguments too few or too many (arbitrary byte), before authentication or without a password
func VH_R03_refused() {
	cfg := vCfg()
	if rt.Choose("password", 2) == 1 {
		cfg.RequirePassword = "pw"
		vLocked = true
	}
	s := vBoot(cfg)
	c := vDial(s)
	if rt.Choose("known", 2) == 1 {
		a := []string{vArity[rt.Choose("command", len(vArity))].name}
		for i := rt.Choose("args", 5); i > 0; i-- {
			a = append(a, vBytes("a", 1))
		}
		if a[0] == "keys" && len(a) == 2 {
			a[1] = "("
		}
		if len(a) >= 4 && (a[0] == "zadd" || a[0] == "zcount" || a[0] == "zrangebyscore" || a[0] == "zremrangebyscore") {
			a[2], a[3] = "\r\n", "\n"
		}
		vOneReply(s, c, a...)
	} else {
		b := make([]byte, 1+rt.Choose("len", 3))
		for i := range b {
			b[i] = rt.Byte("name")
			rt.Assume(b[i] < 0x80)
		}
		vOneReply(s, c, string(b), "\r\n")
	}
	rt.Reach("end")
}

// ZSCORE, ZRANGE and ZRANGEBYSCORE WITHSCORES where the text of a score is 1 to 326 characters long
func VH_R03_scores() {
	s := vBoot(vCfg())
	c := vDial(s)
	x := []string{"0", "-7", "0.30000000000000004", "-1234567890.1234567", "1e21", "-1e99", "1e100", "1.7976931348623157e308", "5e-324", "inf", "-inf"}[rt.Choose("score", 11)]
	vOneReply(s, c, "zadd", "z", x, "m", "1", vBytes("n", 1))
	switch rt.Choose("command", 3) {
	case 0:
		vOneReply(s, c, "zscore", "z", "m")
	case 1:
		vOneReply(s, c, "zrange", "z", "0", "9", "withscores")
	case 2:
		vOneReply(s, c, "zrangebyscore", "z", "-inf", "inf", "withscores")
	}
	rt.Reach("end")
}

// LINDEX, LRANGE, ZRANGE, ZREMRANGEBYRANK, EXPIRE, EXPIREAT, SETEX with one-digit numbers of either sign, ZCOUNT, ZRANGEBYSCORE, ZREMRANGEBYSCORE, ZADD with scores of either sign and infinite ones, on a key of the type, an emptied or an absent one
func VH_R03_numbers() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := []string{"lindex", "lrange", "zrange", "zremrangebyrank", "expire", "expireat", "setex", "zcount", "zrangebyscore", "zremrangebyscore", "zadd"}[rt.Choose("command", 11)]
	key := []string{vKeyFor(name), "none", "gone"}[rt.Choose("key", 3)]
	if key == "gone" {
		if vTypeOf(name) == 'l' {
			vOneReply(s, c, "rpush", key, "x")
			vOneReply(s, c, "rpop", key)
		} else {
			vOneReply(s, c, "zadd", key, "1", "x")
			vOneReply(s, c, "zrem", key, "x")
		}
	}
	score := func() string { return []string{"-inf", "-2", "1", "2", "inf"}[rt.Choose("score", 5)] }
	switch name {
	case "lindex", "expire", "expireat":
		vOneReply(s, c, name, key, vNum("i", 1, true))
	case "lrange", "zrange", "zremrangebyrank":
		vOneReply(s, c, name, key, vNum("i", 1, true), vNum("j", 1, true))
	case "setex":
		vOneReply(s, c, name, key, vNum("i", 1, true), "v")
	case "zadd":
		vOneReply(s, c, name, key, score(), "a", score(), "b")
	default:
		vOneReply(s, c, name, key, score(), score())
	}
	rt.Reach(name)
}

// replies of large collections: 0, 1, 9, 10, 11, 99, 100, 1023, 1024, 1025 elements (declared counts of 1..4 digits) and bulk strings of these lengths, the last element with an arbitrary byte
func VH_R03_large() {
	s := vBoot(vCfg())
	c := vDial(s)
	n := []int{0, 1, 9, 10, 11, 99, 100, 1023, 1024, 1025}[rt.Choose("n", 10)]
	switch rt.Choose("kind", 3) {
	case 0:
		a := []string{"rpush", "k", "drop"}
		for i := 1; i < n; i++ {
			a = append(a, "e")
		}
		if n > 0 {
			a = append(a, vBytes("last", 1))
		}
		vOneReply(s, c, a...)
		vOneReply(s, c, "lpop", "k")
		l, ok := vElems(vOneReply(s, c, "lrange", "k", "0", "-1"))
		if n > 0 {
			rt.Assert(ok && len(l) == n, "every element is in the reply")
		}
	case 1:
		b := make([]byte, n)
		for i := range b {
			b[i] = '\n'
		}
		if n > 0 {
			b[n-1] = rt.Byte("last")
		}
		vOneReply(s, c, "set", "k", string(b))
		rt.Assert(vOneReply(s, c, "get", "k") == vBulk(string(b)), "the whole string is in the reply")
	case 2:
		if n > 100 {
			return
		}
		for i := 0; i < n; i++ {
			vDo(s, c, "sadd", "S", "e"+strconv.Itoa(i))
			vDo(s, c, "zadd", "z", "1", "e"+strconv.Itoa(i))
			vDo(s, c, "hset", "h", "e"+strconv.Itoa(i), "1")
		}
		for _, q := range [][]string{{"smembers", "S"}, {"hkeys", "h"}, {"zrange", "z", "0", "2000"}, {"zrange", "z", "0", "2000", "withscores"}, {"zrangebyscore", "z", "0", "1"}, {"sunion", "S", "S"}} {
			l, ok := vElems(vOneReply(s, c, q...))
			want := n
			if len(q) == 5 {
				want = 2 * n
			}
			if n > 0 {
				rt.Assert(ok && len(l) == want, "every element is in the reply of "+q[0])
			}
		}
	}
	rt.Reach("end")
}

// vNext is the length of the first reply of a stream, 0 when there is none.
func vNext(r string) int {
	line := func(p int) int { // behind the CRLF of the line at p
		for ; p+1 < len(r); p++ {
			if r[p] == '\r' && r[p+1] == '\n' {
				return p + 2
			}
		}
		return 0
	}
	num := func(p, q int) int {
		n, err := strconv.Atoi(r[p : q-2])
		if err != nil {
			return -1
		}
		return n
	}
	if len(r) == 0 {
		return 0
	}
	e := line(1)
	if e == 0 {
		return 0
	}
	bulk := func(p, e int) int {
		n := num(p+1, e)
		if n < 0 {
			return e
		}
		if e+n+2 > len(r) {
			return 0
		}
		return e + n + 2
	}
	switch r[0] {
	case '$':
		return bulk(0, e)
	case '*':
		p := e
		for i := num(1, e); i > 0; i-- {
			q := line(p)
			if q == 0 || r[p] != '$' {
				return 0
			}
			if p = bulk(p, q); p == 0 {
				return 0
			}
		}
		return p
	}
	return e
}

// two (thorough: three) valid commands of any kind on keys of the fixture (absent keys too for the first), arguments in part arbitrary, sent in one read: their replies follow one another in order, each the one of the model
func VH_R03_order() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	var reqs [][]string
	var data []byte
	for i := 0; i < n; i++ {
		name := vArity[rt.Choose("command", len(vArity))].name
		key := vKeyFor(name)
		if i == 0 && rt.Choose("absent", 2) == 1 {
			key = "none"
		}
		a := vArgs(name, key)
		reqs = append(reqs, a)
		data = append(data, vEnc(a...)...)
	}
	vPost(c, data)
	c.Out = nil
	vResume(s)
	r := string(c.Out)
	for _, a := range reqs {
		k := vNext(r)
		rt.Assert(k > 0 && vWellFormed(r[:k]), "each request has a complete reply")
		switch a[0] {
		case "select", "auth", "bgrewriteaof":
			rt.Assert(vLine(r[:k]), a[0]+": one line is replied")
		default:
			vMatch(a[0], r[:k], m.exec(0, a))
		}
		r = r[k:]
	}
	rt.Assert(r == "", "there are no further replies")
	rt.Reach("end")
}
