package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// the server's deadline of a key of database 0
func vServerDeadline(s *Server, key string) (int64, bool) {
	e := vDbs(s)[0].Expire.Find(key)
	if e == nil {
		return 0, false
	}
	return e.Value.(int64), true
}

// vSeconds is a number of seconds: a sign and 1..3 arbitrary digits, or digits around the largest one that fits (the last digit arbitrary), or the ends of 64 bits.
func vSeconds(limit string) string {
	n := len(limit)
	switch rt.Choose("seconds", 7) {
	case 0:
		return vNum("n", 1+rt.Choose("digits", 3), true)
	case 1:
		return "20000000" + vNum("n", 2, false)
	case 2:
		return limit[:n-1] + vNum("n", 1, false)
	case 3:
		return limit[:n-2] + vNum("n", 2, false)
	case 4:
		return "-922337203685477" + vNum("n", 1, false)
	case 5:
		return []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999"}[rt.Choose("end", 4)]
	}
	return "+" + vNum("n", 1, false)
}

// EXPIRE, EXPIREAT and SETEX with 1..3 arbitrary digits and a sign, with 10-digit instants, around the largest number that fits and at the ends of 64 bits, on a key of each type, with a deadline already or without, or absent; the clock at 0, 1 or 999 ms of an arbitrary second: the deadline is exact, the refusal of what does not fit has no effect, TTL agrees now and later
func VH_K02_deadline() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	rt.Tick(int64(rt.Int("second", 0, 9)), []int64{0, 1, 999}[rt.Choose("ms", 3)])
	key := []string{"s", "h", "l", "S", "z", "d", "e", "none"}[rt.Choose("key", 8)]
	var a []string
	switch rt.Choose("command", 3) {
	case 0:
		a = []string{"expire", key, vSeconds("9223370336854775")}
	case 1:
		a = []string{"expireat", key, vSeconds("9223372036854775")}
	case 2:
		a = []string{"setex", key, vSeconds("9223370336854775"), "v"}
	}
	n := vExpires(s)
	vStep(s, c, m, a...)
	d, ok := vServerDeadline(s, key)
	k := m.find(0, key)
	rt.Assert(ok == (k != nil && k.hasExp), "a deadline exists exactly when the model has one")
	if ok {
		rt.Assert(d == k.exp, "the deadline is exact")
	}
	if key == "none" && a[0] != "setex" {
		rt.Assert(vExpires(s) == n, "no deadline is left for an absent key")
	}
	if ok {
		rt.Assume(k.exp != rt.NowMs())
	}
	vStep(s, c, m, "ttl", key)
	rt.Reach(a[0])
}

// every command that may follow on a key with a deadline 30..39 s ahead, or none: SET removes it, SETEX, EXPIRE and EXPIREAT replace it, all others keep it; TTL then and 0..45 s later
func VH_K02_keep() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	name := vArity[rt.Choose("command", len(vArity))].name
	switch name {
	case "ping", "select", "auth", "bgrewriteaof", "randomget":
		return
	}
	key := vKeyFor(name)
	if name == "set" || name == "setex" {
		key = []string{"s", "h", "l", "S", "z"}[rt.Choose("key", 5)]
	}
	if rt.Choose("deadline", 2) == 1 {
		vStep(s, c, m, "expire", key, "3"+vNum("deadline", 1, false))
	}
	vStep(s, c, m, vArgs(name, key)...)
	d, ok := vServerDeadline(s, key)
	k := m.find(0, key)
	rt.Assert(k != nil && ok == k.hasExp, "a deadline exists exactly when the model has one")
	if ok {
		rt.Assert(d == k.exp, "the deadline is exact")
	}
	vStep(s, c, m, "ttl", key)
	rt.Tick(int64(rt.Int("later", 0, 45)), 1)
	vStep(s, c, m, "ttl", key)
	rt.Reach(name)
}

// EXPIRE or EXPIREAT on an absent (never set, removed by expiry, or expired and unreclaimed) key leaves nothing for a key created afterwards by any creating command
func VH_K02_absent() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	key := "none"
	if rt.Choose("expired", 2) == 1 {
		key = "d"
		rt.Tick(int64(100+rt.Int("late", 0, 5)), 1)
	}
	if rt.Choose("at", 2) == 1 {
		vStep(s, c, m, "expireat", key, "17000"+vNum("n", 1, false)+"0000")
	} else {
		vStep(s, c, m, "expire", key, vNum("n", 2, true))
	}
	_, ok := vServerDeadline(s, key)
	rt.Assert(!ok, "an absent key gets no deadline")
	w := []string{"set", "hset", "lpush", "rpush", "sadd", "zadd"}
	vStep(s, c, m, vArgs(w[rt.Choose("command", len(w))], key)...)
	rt.Tick(1000, 0)
	vStep(s, c, m, "ttl", key)
	rt.Assert(m.find(0, key) != nil, "the model keeps the key")
	rt.Reach("end")
}

// histories of 3 (thorough: 4) commands out of SET, SETEX, EXPIRE, EXPIREAT, GET, TTL on two keys, 2 s and once (thorough: always) an arbitrary 0..12 s passing between them
func VH_K02_history() {
	s := vBoot(vCfg())
	c := vDial(s)
	m := vNewModel(2)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		key := "a"
		if rt.Choose("key", 2) == 1 {
			key = "b"
		}
		switch rt.Choose("command", 5) {
		case 0:
			vStep(s, c, m, "set", key, strconv.Itoa(i))
		case 1:
			vStep(s, c, m, "setex", key, vNum("n", 1, false), strconv.Itoa(i))
		case 2:
			vStep(s, c, m, "expire", key, vNum("n", 1, false))
		case 3:
			vStep(s, c, m, "expireat", key, "170000000"+vNum("n", 1, false))
		case 4:
			vStep(s, c, m, "get", key)
		}
		if i == 1 || rt.Thorough() {
			rt.Tick(int64(rt.Int("pass", 0, 12)), 1)
		} else {
			rt.Tick(2, 1)
		}
	}
	vStep(s, c, m, "ttl", "a")
	vStep(s, c, m, "ttl", "b")
	vStep(s, c, m, "keys", "*")
	vSame("after the history", vDump(s).liveAll(), m.liveAll(), 0)
	rt.Reach("end")
}
