package server

import (
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

func vC01Start() (*Server, *vsyscall.File, *vModel, *config.Config) {
	cfg := vCfgAof()
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	return s, c, m, cfg
}

// each of the 43 commands, every letter in either case, with valid arguments (in part arbitrary): reply and dataset are those of that command
func VH_C01_case() {
	s, c, m, _ := vC01Start()
	cmd := vArity[rt.Choose("command", len(vArity))]
	a := vArgs(cmd.name, vKeyFor(cmd.name))
	name := []byte(cmd.name)
	for i := range name {
		name[i] -= byte(32 * rt.Int("upper", 0, 1))
	}
	low := a[0]
	a[0] = string(name)
	r := vDo(s, c, a...)
	a[0] = low
	switch low {
	case "select", "auth":
		rt.Assert(r == vOK, "OK is replied")
	case "bgrewriteaof":
		rt.Assert(vLine(r) && !vErrReply(r), "the rewrite starts")
		rt.Assert(rt.Tasks() == 1, "the rewrite starts")
	default:
		vMatch(low, r, m.exec(0, a))
	}
	vSame("afterwards", vDump(s), m, 0)
	rt.Reach(low)
}

// each of the 43 commands with every number of arguments from 0 to 6 that its arity excludes, the arguments valid ones or arbitrary bytes: an error, no effect on data, deadlines, log, database or authentication
func VH_C01_arity() {
	s, c, m, _ := vC01Start()
	cmd := vArity[rt.Choose("command", len(vArity))]
	n := 1 + rt.Choose("argc", 7)
	if cmd.arity == n || cmd.arity < 0 && n >= -cmd.arity {
		return
	}
	full := append(vArgs(cmd.name, vKeyFor(cmd.name)), "1", "2", "3", "4", "5", "6")
	if cmd.name == "select" {
		full[1] = "1"
	}
	size := vLogSize()
	r := vDo(s, c, full[:n]...)
	vNoEffect("a wrong number of arguments", s, c, r, m, size)
	vStep(s, c, m, "set", "q", "1")
	vSame("a later command", vDump(s), m, 0)
	rt.Reach("refused")
}

// vNameByte is any ASCII byte or one of three others.
func vNameByte(what string) byte {
	switch rt.Choose("class", 4) {
	case 0:
		return 0x80
	case 1:
		return 0xc3
	case 2:
		return 0xff
	}
	return byte(rt.Int(what, 0, 127))
}

// names near a command (one byte replaced or appended: any ASCII byte or 3 others; or one removed; or several appended) and arbitrary ASCII names of 0..4 bytes that are no command: an error and no effect, with 0 or 2 arguments or those of the command
func VH_C01_unknown() {
	s, c, m, _ := vC01Start()
	var name string
	if rt.Choose("kind", 2) == 0 {
		b := []byte(vArity[rt.Choose("command", len(vArity))].name)
		switch rt.Choose("change", 4) {
		case 3: // a name and something behind it
			b = append(b, []string{"xxxxxxxxxxxxxxxx", "\x00", " ", "getgetget"}[rt.Choose("behind", 4)]...)
		case 0:
			b[rt.Choose("pos", len(b))] = vNameByte("other")
		case 1:
			b = append(b, vNameByte("extra"))
		case 2:
			b = b[:len(b)-1]
		}
		name = string(b)
	} else {
		b := make([]byte, rt.Choose("len", 5))
		for i := range b {
			b[i] = byte(rt.Int("name", 0, 127))
		}
		name = string(b)
	}
	low := strings.ToLower(name)
	for _, x := range vArity {
		if len(x.name) == len(name) {
			rt.Assume(low != x.name)
		}
	}
	a := []string{name}
	switch rt.Choose("args", 3) {
	case 0:
		a = append(a, "s", "1")
	case 1: // those of a command
		near := "set"
		for _, x := range vArity {
			if strings.HasPrefix(low, x.name) && len(x.name) > 3 {
				near = x.name
			}
		}
		a = append(a, vArgs(near, vKeyFor(near))[1:]...)
	}
	size := vLogSize()
	r := vDo(s, c, a...)
	vNoEffect("an unknown command", s, c, r, m, size)
	rt.Reach("refused")
}
