package server

import (
	"strconv"
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vAcked keeps the model of the acknowledged commands; one command may be under way when the server dies.
type vAcked struct {
	s   *Server
	c   *vsyscall.File
	m   *vModel
	cur []string
	n   int
}

// add pushes the next number to the list "way".
func (a *vAcked) add() {
	a.n++
	a.cur = []string{"rpush", "way", strconv.Itoa(a.n)}
	a.c.Out = nil
	vPost(a.c, vEnc(a.cur...))
	vResume(a.s)
	a.settle()
}

// settle takes the command under way as acknowledged if a byte of its reply was sent.
func (a *vAcked) settle() {
	if a.cur != nil && len(a.c.Out) > 0 {
		a.m.exec(0, a.cur)
		a.cur = nil
	}
}

func vWay(m *vModel) int {
	if k := m.find(0, "way"); k != nil {
		return len(k.val.f)
	}
	return 0
}

// kept asserts that a server started on the files has every acknowledged command, with or without the one under way, and that nothing is lost at the next restart.
func (a *vAcked) kept(what string, cfg *config.Config) {
	rt.OnOp = nil
	a.settle()
	s := vRestart(cfg)
	d := vDump(s).liveAll().dropEmpty()
	if a.cur != nil && vWay(d) > vWay(a.m) {
		a.m.exec(0, a.cur)
	}
	vSame(what, d, a.m.clone().liveAll().dropEmpty(), 999)
	vOn(s, vDial(s), a.m, 0, "rpush", "later", "x")
	vLoads(what+" and another restart", cfg, a.m)
}

func vStartAcked(cfg *config.Config) *vAcked {
	a := &vAcked{s: vBoot(cfg), m: vNewModel(2)}
	a.c = vDial(a.s)
	for _, q := range []string{"set s sv", "rpush l a b c", "zadd z 1 a 2 b", "expire l 100"} {
		vStep(a.s, a.c, a.m, strings.Split(q, " ")...)
	}
	vStep(a.s, a.c, a.m, "hset", "h", vBytes("f", 1), "1")
	d := vDial(a.s)
	vDo(a.s, d, "select", "1")
	vOn(a.s, d, a.m, 1, "sadd", "S", vBytes("v", 1))
	return a
}

// rewrite is a rewrite with a command before and behind it, and if busy before each of its steps.
func (a *vAcked) rewrite() {
	busy := rt.Choose("busy", 2) == 1
	a.add()
	d := vDial(a.s)
	vDo(a.s, d, "bgrewriteaof")
	if busy {
		a.add()
	}
	rt.RunTasks()
	if busy {
		a.add()
	}
	vCron(a.s, 1)
	a.add()
}
