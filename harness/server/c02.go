package server

import (
	"strings"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
)

// password and guess of 1..3 (guess 0..3) arbitrary bytes; each of the 42 other commands on the guessing connection and on another one, with the guess made or not, and after a second, fixed wrong guess
func VH_C02_guess() {
	cfg := vCfgAof()
	pw := vBytes("password", 1+rt.Choose("pwlen", 3))
	cfg.RequirePassword = pw
	s := vBoot(cfg)
	c, other := vDial(s), vDial(s)
	guess := vBytes("guess", rt.Choose("guesslen", 4))
	r := vDo(s, c, "auth", guess)
	ok := rt.SplitBool(guess == pw)
	if ok {
		rt.Assert(r == vOK, "AUTH with the password succeeds")
		rt.Reach("right")
	} else {
		rt.Assert(vErrReply(r), "AUTH with another string fails")
		rt.Reach("wrong")
	}
	m := vNewModel(2)
	r = vDo(s, c, "set", "k", "v")
	if ok {
		vMatch("set", r, m.exec(0, []string{"set", "k", "v"}))
	} else {
		rt.Assert(vErrReply(r), "a command without authentication fails")
	}
	vSame("after a command of the connection", vDump(s), m, 0)
	rt.Assert(vErrReply(vDo(s, other, "set", "k", "w")), "another connection is not authenticated")
	vSame("after a command of the other connection", vDump(s), m, 0)
	if ok {
		rt.Assert(vErrReply(vDo(s, c, "auth", pw+"x")), "AUTH with a longer string fails")
		rt.Assert(vErrReply(vDo(s, c, "set", "k", "w")), "a failing AUTH revokes the authentication")
		vSame("after the revocation", vDump(s), m, 0)
		rt.Assert(vDo(s, c, "auth", pw) == vOK, "AUTH succeeds again")
		vMatch("set", vDo(s, c, "set", "k", "w"), m.exec(0, []string{"set", "k", "w"}))
		rt.Assert(vErrReply(vDo(s, other, "get", "k")), "another connection is still not authenticated")
	}
	vSame("at the end", vDump(s), m, 0)
}

// each command but AUTH, valid arguments (in part arbitrary), on an unauthenticated connection against data of every type: an error, nothing changed, logged or started, the selected database kept
func VH_C02_gate() {
	cfg := vCfgAof()
	cfg.RequirePassword = "pw"
	s := vBoot(cfg)
	c0 := vDial(s)
	rt.Assert(vDo(s, c0, "auth", "pw") == vOK, "AUTH succeeds")
	m := vNewModel(2)
	vFix(s, c0, m)
	c := vDial(s)
	// the state of the connection: never authenticated, failed before, or revoked
	switch rt.Choose("before", 3) {
	case 1:
		rt.Assert(vErrReply(vDo(s, c, "auth", "xx")), "a wrong password is refused")
	case 2:
		rt.Assert(vDo(s, c, "auth", "pw") == vOK, "AUTH succeeds")
		rt.Assert(vErrReply(vDo(s, c, "auth", "pwd")), "a wrong password is refused")
	}
	cmd := vArity[rt.Choose("command", len(vArity))]
	if cmd.name == "auth" {
		return
	}
	a := vArgs(cmd.name, vKeyFor(cmd.name))
	if cmd.name == "select" {
		a[1] = "1"
	}
	if rt.Choose("upper", 2) == 1 {
		b := []byte(a[0])
		for i := range b {
			b[i] -= byte(32 * rt.Int("case", 0, 1))
		}
		a[0] = string(b)
	}
	size := len(vos.Content(vAof))
	r := vDo(s, c, a...)
	vNoEffect("without authentication", s, c, r, m, size)
	rt.Assert(vDo(s, c, "auth", "pw") == vOK, "AUTH succeeds")
	vStep(s, c, m, "set", "q", "1")
	vSame("a later command", vDump(s), m, 0)
	rt.Reach("refused")
}

// without a configured password every command works at once, before and after an AUTH with an arbitrary argument
func VH_C02_open() {
	s := vBoot(vCfgAof())
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	if rt.Choose("auth", 2) == 1 {
		vDo(s, c, "auth", vBytes("guess", rt.Choose("len", 3)))
	}
	cmd := vArity[rt.Choose("command", len(vArity))]
	vExec(s, c, m, 0, vArgs(cmd.name, vKeyFor(cmd.name)))
	vSame("afterwards", vDump(s), m, 0)
	rt.Reach("done")
}

// a connection that has authenticated (and, perhaps, failed once more) ends by EOF, a reset or a malformed request; the next connection, on the same descriptor, is not authenticated, each command on it is refused, and it can authenticate itself
func VH_C02_next() {
	cfg := vCfgAof()
	cfg.RequirePassword = "pw"
	s := vBoot(cfg)
	m := vNewModel(2)
	c := vDial(s)
	if rt.Choose("guess first", 2) == 1 {
		rt.Assert(vErrReply(vDo(s, c, "auth", "xx")), "a wrong password is refused")
	}
	rt.Assert(vDo(s, c, "auth", "pw") == vOK, "AUTH succeeds")
	vStep(s, c, m, "set", "s", "1")
	vHangUp(s, c)
	n := vDial(s)
	cmd := vArity[rt.Choose("command", len(vArity))]
	if cmd.name == "auth" {
		return
	}
	size := vLogSize()
	r := vDo(s, n, vArgs(cmd.name, "s")...)
	vNoEffect("on the next connection", s, n, r, m, size)
	rt.Assert(vDo(s, n, "auth", "pw") == vOK, "AUTH succeeds")
	vStep(s, n, m, "set", "q", "1")
	vSame("a later command", vDump(s), m, 0)
	rt.Reach("refused")
}

// a password of 40 or 300 bytes and a guess that differs from it in any one byte at the beginning, in the middle or at the end, is shorter or longer by one, or has another case
func VH_C02_long() {
	pw := vMembers(0, 100)
	n := []int{40, 300}[rt.Choose("length", 2)]
	p := strings.Join(pw, "-")[:n-1] + vBytes("password", 1)
	cfg := vCfg()
	cfg.RequirePassword = p
	s := vBoot(cfg)
	c := vDial(s)
	g := []byte(p)
	switch rt.Choose("guess", 4) {
	case 0:
		g[[]int{0, 1, 15, 16, 31, 32, 33, n / 2, n - 2, n - 1}[rt.Choose("at", 10)]] = rt.Byte("other")
	case 1:
		g = g[:n-1]
	case 2:
		g = append(g, rt.Byte("more"))
	case 3:
		g = []byte(strings.ToUpper(p))
	}
	ok := rt.SplitBool(string(g) == p)
	r := vDo(s, c, "auth", string(g))
	m := vNewModel(2)
	if ok {
		rt.Assert(r == vOK, "AUTH with the password succeeds")
		vStep(s, c, m, "set", "k", "v")
		rt.Reach("right")
	} else {
		rt.Assert(vErrReply(r), "AUTH with another string fails")
		rt.Assert(vErrReply(vDo(s, c, "set", "k", "v")), "a command without authentication fails")
		rt.Reach("wrong")
	}
	vSame("at the end", vDump(s), m, 0)
}

// 4 commands (AUTH with the password, AUTH with another one, SET, SELECT 1) of a connection that is authenticated or not, all in one read or split before the last or after the first one: each has its effect exactly if the connection is authenticated when it is executed
func VH_C02_pipeline() {
	cfg := vCfgAof()
	cfg.RequirePassword = "pw"
	s := vBoot(cfg)
	c, other := vDial(s), vDial(s)
	m := vNewModel(2)
	ok := rt.Choose("authenticated", 2) == 1
	if ok {
		rt.Assert(vDo(s, c, "auth", "pw") == vOK, "AUTH succeeds")
	}
	db := 0
	var want []bool
	var reqs [][]byte
	for i := 0; i < 4; i++ {
		k := "k" + string(rune('0'+i))
		var a []string
		good := ok
		switch rt.Choose("command", 4) {
		case 0:
			a, ok, good = []string{"auth", "pw"}, true, true
		case 1:
			a, ok, good = []string{"auth", "wp"}, false, false
		case 2:
			a = []string{"set", k, "v"}
			if ok {
				m.exec(db, a)
			}
		case 3:
			a = []string{"select", "1"}
			if ok {
				db = 1
			}
		}
		want = append(want, good)
		reqs = append(reqs, vEnc(a...))
	}
	c.Out = nil
	var all []byte
	split := rt.Choose("split", 3)
	for i, r := range reqs {
		all = append(all, r...)
		if split == 1 && i == 0 || split == 2 && i == 2 {
			vPost(c, all)
			vResume(s)
			all = nil
		}
	}
	vPost(c, all)
	vResume(s)
	l := strings.Split(string(c.Out), "\r\n")
	rt.Assert(len(l) == 5 && l[4] == "", "each command has a reply")
	for i, w := range want {
		if w {
			rt.Assert(l[i] == "+OK", "a command of an authenticated connection succeeds")
		} else {
			rt.Assert(len(l[i]) > 0 && l[i][0] == '-', "a command of a connection that is not authenticated is refused")
		}
	}
	vSame("after the commands", vDump(s), m, 0)
	rt.Assert(vErrReply(vDo(s, other, "get", "k0")), "another connection is not authenticated")
	rt.Reach("end")
}
