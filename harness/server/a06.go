package server

import (
	"strings"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vGrowth is a server under the growth rule: percentage p, minimum size min, size base to compare with.
type vGrowth struct {
	cfg     *config.Config
	s       *Server
	c       *vsyscall.File
	base    int
	running bool
}

func vNewGrowth(log []byte) *vGrowth {
	cfg := vCfgAof()
	cfg.AofRewritePercent = uint(rt.U64("percentage"))
	cfg.AofRewriteMinSize = uint(rt.U64("minimum"))
	vos.SetContent(vAof, log)
	g := &vGrowth{cfg: cfg, base: 1}
	g.boot()
	return g
}

func (g *vGrowth) boot() {
	g.s = vRestart(g.cfg)
	g.c = vDial(g.s)
	g.base, g.running = 1, false
}

// cron is a cron tick; it asserts that a rewrite starts exactly when the rule says so.
func (g *vGrowth) cron(what string) {
	size, before := vLogSize(), rt.Tasks()
	p, min := g.cfg.AofRewritePercent, g.cfg.AofRewriteMinSize
	want := rt.And(p > 0, rt.And(uint(size) > min, size >= g.base && p <= uint((size-g.base)*100/g.base)))
	vCron(g.s, 1)
	n := rt.Tasks() - before
	if g.running {
		rt.Assert(n == 0, what+": no second rewrite starts while one runs")
		return
	}
	if n == 0 {
		rt.Assert(!want, what+": a rewrite that is due starts")
	} else {
		rt.Assert(want, what+": a rewrite starts only when due")
		rt.Assert(n == 1, what+": one rewrite starts")
		g.running = true
		rt.Reach("started")
	}
}

// finish lets the running rewrite complete.
func (g *vGrowth) finish(what string) {
	rt.RunTasks()
	g.cron(what + ", on completion")
	g.running = false
	g.base = vLogSize()
	if g.base == 0 {
		g.base = 1
	}
}

func (g *vGrowth) manual() {
	before := rt.Tasks()
	vDo(g.s, g.c, "bgrewriteaof")
	if g.running {
		rt.Assert(rt.Tasks() == before, "BGREWRITEAOF while a rewrite runs starts no other")
	} else {
		rt.Assert(rt.Tasks() == before+1, "BGREWRITEAOF starts a rewrite")
		g.running = true
	}
}

// write makes the log grow by about n bytes.
func (g *vGrowth) write(n int) {
	rt.Assert(vDo(g.s, g.c, "set", "k", strings.Repeat("v", n)) == vOK, "set: OK is replied")
}

func vSomeLog(n int) []byte {
	if n == 0 {
		return nil
	}
	b := append(vEnc("select", "0"), vEnc("set", "k", strings.Repeat("v", n))...)
	return append(b, vEnc("rpush", "l", "a", "b")...)
}

// any 64-bit percentage and minimum size; a log of 0 or about 100, 300, 1000 bytes (its last record cut off or not) at the start, a cron tick, three growths by 0..150 bytes each followed by a tick, a rewrite that became due or was asked for (BGREWRITEAOF) completing before any of them, right after it or later
func VH_A06_rule() {
	log := vSomeLog([]int{0, 20, 220, 920}[rt.Choose("log", 4)])
	if len(log) > 0 && rt.Choose("cut off", 2) == 1 {
		log = log[:len(log)-3]
	}
	g := vNewGrowth(log)
	g.cron("at the start")
	asked := rt.Choose("asked", 3)
	for i := 0; i < 3; i++ {
		if g.running && rt.Choose("finish", 2) == 1 {
			g.finish("a rewrite")
		}
		if i == asked {
			g.manual()
		}
		if n := rt.Choose("growth", 3); n > 0 {
			g.write([]int{0, 1, 150}[n])
		}
		g.cron("after growing")
	}
	rt.Reach("end")
}

// exactly around the limit: a completed rewrite, then the log grows byte by byte (two, thorough: three commands of 0..57 bytes) past the limit given by any percentage and minimum
func VH_A06_limit() {
	g := vNewGrowth(vSomeLog(1))
	g.manual()
	if rt.Choose("meanwhile", 2) == 1 {
		g.write(3)
	}
	g.finish("the first rewrite")
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		g.write(rt.Choose("bytes", 20) * 3)
		g.cron("around the limit")
		if g.running {
			return
		}
	}
	rt.Reach("end")
}

// rewrites one after another: each completed one makes the next possible, a restart forgets the base size
func VH_A06_again() {
	g := vNewGrowth(nil)
	for i := 0; i < 4; i++ {
		g.write([]int{40, 400}[rt.Choose("bytes", 2)])
		g.cron("after growing")
		if g.running {
			g.manual()
			g.cron("while a rewrite runs")
			g.finish("a rewrite")
			g.cron("right after a rewrite")
		}
		if i == 2 && rt.Choose("restart", 2) == 1 {
			g.boot()
			g.cron("after a restart")
		}
	}
	rt.Reach("end")
}

// without the append-only log no rewrite starts, whatever percentage and minimum, nor does BGREWRITEAOF start one
func VH_A06_off() {
	cfg := vCfg()
	cfg.AofRewritePercent = uint(rt.U64("percentage"))
	cfg.AofRewriteMinSize = uint(rt.U64("minimum"))
	s := vBoot(cfg)
	c := vDial(s)
	vDo(s, c, "set", "k", "v")
	vCron(s, 1)
	vDo(s, c, "bgrewriteaof")
	vCron(s, 1)
	rt.Assert(rt.Tasks() == 0, "without a log: no rewrite starts")
	rt.Assert(vDo(s, c, "get", "k") == vBulk("v"), "without a log: the server goes on")
	rt.Reach("end")
}
