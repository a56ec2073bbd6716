package server

import (
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vCrashes runs f with a crash at its n-th file operation (n counting from 1) and tells whether it came.
func vCrashes(n int, f func()) (crashed bool) {
	defer func() {
		rt.CrashIn, vos.Torn, rt.OnOp = 0, nil, nil
		if r := recover(); r != nil {
			rt.Unwinding = false
			if _, ok := r.(rt.Crash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	rt.CrashIn = n
	if k := rt.Choose("torn", 3); k > 0 {
		vos.Torn = func(n int) int { return n * k / 3 }
	}
	f()
	rt.Assume(rt.CrashIn <= 1) // the crash never came: one such run is enough
	return
}

// a crash (the process dies; with the always policy also: the power fails and only synced bytes survive) at any file operation while a log rewrite starts, runs and completes with a command before each step, or only before and after; a write in progress leaves nothing, a third or two thirds of itself; every type in the dataset, each fsync policy
func VH_A07_rewrite() {
	cfg := vCfgAof()
	p := rt.Choose("fsync", 3)
	cfg.AofFsync = vSyncs[p]
	a := vStartAcked(cfg)
	n := 1 + rt.Choose("crash", 32)
	if vCrashes(n, a.rewrite) {
		rt.Reach("crashed")
	} else {
		rt.Reach("completed")
	}
	if p == 0 && rt.Choose("power fails", 2) == 1 {
		vos.PowerLoss()
	}
	a.kept("after the crash", cfg)
}

// two rewrites, a crash in the second
func VH_A07_second() {
	cfg := vCfgAof()
	a := vStartAcked(cfg)
	a.rewrite()
	n := 1 + rt.Choose("crash", 32)
	if !vCrashes(n, a.rewrite) {
		return
	}
	if rt.Choose("power fails", 2) == 1 {
		vos.PowerLoss()
	}
	a.kept("after the crash", cfg)
	rt.Reach("crashed")
}

// a crash at any file operation of a restart (the loader cutting off an incomplete record) after a crash that tore the last write; then the server starts completely
func VH_A07_restart() {
	cfg := vCfgAof()
	a := vStartAcked(cfg)
	if !vCrashes(1+rt.Choose("first crash", 2), func() { a.add(); a.add() }) {
		return
	}
	a.settle()
	rt.DropTasks()
	vsyscall.Reset()
	var s *Server
	if vCrashes(1+rt.Choose("crash in the restart", 4), func() {
		s = vBoot(cfg)
		b := &vAcked{s: s, c: vDial(s), m: vNewModel(2)}
		b.n = a.n + 7
		vDo(b.s, b.c, "set", "x", "y")
	}) {
		rt.Reach("crashed twice")
	}
	s = vRestart(cfg)
	d := vDump(s).liveAll().dropEmpty()
	if a.cur != nil && vWay(d) > vWay(a.m) {
		a.m.exec(0, a.cur)
	}
	if d.find(0, "x") != nil {
		a.m.exec(0, []string{"set", "x", "y"})
	}
	vSame("after the crashes", d, a.m.clone().liveAll().dropEmpty(), 999)
	vOn(s, vDial(s), a.m, 0, "rpush", "later", "x")
	vLoads("after the crashes and another restart", cfg, a.m)
}
