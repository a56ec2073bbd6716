package server

import (
	"strconv"

	rt "github.com/IfanTsai/metis/verif/rt"
)

// SELECT with 0..3 arbitrary bytes, or a sign and 1..20 digits around the ends of the range, with 1, 2, 3, 16 (default), 17 or 33 databases; then a write shows the database
func VH_C03_index() {
	cfg := vCfg()
	n := []int{1, 2, 3, 16, 17, 33}[rt.Choose("databases", 6)]
	cfg.DatabaseNum = n
	if n == 16 {
		cfg.DatabaseNum = 0
	}
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(n)
	at := 0
	if n > 1 {
		at = 1
		rt.Assert(vDo(s, c, "select", "1") == vOK, "SELECT 1 succeeds")
	}
	var arg string
	switch rt.Choose("arg", 5) {
	case 0:
		arg = vBytes("arg", rt.Choose("len", 4))
	case 1:
		arg = vNum("index", 2, true)
	case 2:
		arg = []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "18446744073709551617", "4294967296", "4294967297", "-1", "+1", "0x1", "1 ", "1.0", "1e0"}[rt.Choose("special", 14)]
	case 3:
		arg = strconv.Itoa(n)
	case 4:
		arg = strconv.Itoa(n - 1)
	}
	r := vDo(s, c, "select", arg)
	i, err := strconv.Atoi(arg)
	if err == nil && rt.SplitBool(rt.And(i >= 0, i < n)) {
		rt.Assert(r == vOK, "SELECT of a configured database succeeds")
		at = rt.Split(i)
		rt.Reach("ok")
	} else {
		rt.Assert(vErrReply(r), "SELECT of anything else fails")
		rt.Reach("refused")
	}
	vMatch("set", vDo(s, c, "set", "k", "v"), m.exec(at, []string{"set", "k", "v"}))
	vSame("afterwards", vDump(s), m, 0)
}

// two connections, each selecting one of 2 databases (or staying in 0), then each command on one of them, valid arguments in part arbitrary: reply and effect are those in the selected database, the other database and connection are untouched; a third connection starts in database 0
func VH_C03_isolation() {
	s := vBoot(vCfg())
	c, o := vDial(s), vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	dbo, dbc := rt.Choose("other", 2), rt.Choose("selected", 2)
	if dbo == 1 {
		rt.Assert(vDo(s, o, "select", "1") == vOK, "SELECT succeeds")
	}
	if dbc == 1 {
		rt.Assert(vDo(s, c, "select", "1") == vOK, "SELECT succeeds")
	}
	cmd := vArity[rt.Choose("command", len(vArity))]
	if cmd.name == "select" || cmd.name == "bgrewriteaof" {
		return
	}
	vExec(s, c, m, dbc, vArgs(cmd.name, vKeyFor(cmd.name)))
	vSame("after the command", vDump(s), m, 0)
	for _, a := range [][]string{{"set", "n1", "1"}, {"keys", "*"}} {
		vMatch("on the other connection", vDo(s, o, a...), m.exec(dbo, a))
	}
	t := vDial(s)
	for _, a := range [][]string{{"set", "n2", "1"}, {"keys", "*"}} {
		vMatch("on a new connection", vDo(s, t, a...), m.exec(0, a))
	}
	vMatch("on the first connection", vDo(s, c, "set", "n3", "1"), m.exec(dbc, []string{"set", "n3", "1"}))
	vSame("at the end", vDump(s), m, 0)
	rt.Reach("done")
}

// a connection that has selected a database ends by EOF, a reset or a malformed request; the next one, on the same descriptor, starts in database 0, whatever the command; another connection stays where it is
func VH_C03_next() {
	s := vBoot(vCfg())
	c, o := vDial(s), vDial(s)
	m := vNewModel(2)
	vFix(s, o, m)
	dbo := rt.Choose("other", 2)
	if dbo == 1 {
		rt.Assert(vDo(s, o, "select", "1") == vOK, "SELECT succeeds")
	}
	rt.Assert(vDo(s, c, "select", "1") == vOK, "SELECT succeeds")
	vMatch("set", vDo(s, c, "set", "k", "v"), m.exec(1, []string{"set", "k", "v"}))
	vHangUp(s, c)
	n := vDial(s)
	cmd := vArity[rt.Choose("command", len(vArity))]
	if cmd.name == "select" || cmd.name == "bgrewriteaof" {
		return
	}
	vExec(s, n, m, 0, vArgs(cmd.name, vKeyFor(cmd.name)))
	vSame("after the command", vDump(s), m, 0)
	vMatch("on the other connection", vDo(s, o, "keys", "*"), m.exec(dbo, []string{"keys", "*"}))
	rt.Reach("done")
}
