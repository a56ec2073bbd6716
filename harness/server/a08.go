package server

import (
	"strconv"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
)

// vAnyTime lets the goroutines pending at the at-th file operation from now run right before it.
func vAnyTime(at int) *int {
	n := 0
	rt.OnOp = func() {
		if n == at {
			rt.RunTasks()
		}
		n++
	}
	return &n
}

// the everysec policy with 3..5 requests (an arbitrary byte each) 0 or 2 s apart and a log rewrite around them; what runs in the background (syncs, the dump) runs right before any chosen file operation, else after all of the requests or never; then the rewrite completes, and a restart
func VH_A08_everysec() {
	cfg := vCfgAof()
	cfg.AofFsync = config.TypeAppendFsyncEverySecond
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	vFix(s, c, m)
	at := rt.Choose("at operation", 60)
	ops := vAnyTime(at)
	add := func(i int) { vStep(s, c, m, "rpush", "w", strconv.Itoa(i), vBytes("v", 1)) }
	pass := func() { vCron(s, []int64{1, 2000}[rt.Choose("gap", 2)]) }
	add(1)
	pass()
	add(2)
	vDo(s, vDial(s), "bgrewriteaof")
	add(3)
	pass()
	if rt.Choose("dump", 2) == 1 {
		rt.RunTasks()
	}
	add(4)
	pass()
	add(5)
	rt.Assume(*ops > at)
	rt.OnOp = nil
	vSame("in the running server", vDump(s), m, 0)
	if rt.Choose("late tasks", 2) == 1 {
		rt.RunTasks()
		vCron(s, 1)
		rt.RunTasks()
	}
	s = vLoads("after a restart", cfg, m)
	vOn(s, vDial(s), m, 0, "rpush", "w", "6")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}

// two rewrites in succession whose background tasks run at any chosen file operation, the everysec syncs of before, between and after among them
func VH_A08_rewrites() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	s := vBoot(cfg)
	c := vDial(s)
	m := vNewModel(2)
	n := 0
	add := func() {
		n++
		vStep(s, c, m, "rpush", "w", strconv.Itoa(n), vBytes("v", 1))
		vStep(s, c, m, "hset", "h", "f"+strconv.Itoa(n%3), strconv.Itoa(n))
	}
	at := rt.Choose("at operation", 60)
	ops := vAnyTime(at)
	hold := rt.Choose("hold", 3)
	for i := 0; i < 2; i++ {
		add()
		vCron(s, 2000)
		vDo(s, vDial(s), "bgrewriteaof")
		add()
		if i != hold {
			rt.RunTasks()
		}
		add()
		vCron(s, 2000)
		add()
	}
	rt.Assume(*ops > at)
	rt.OnOp = nil
	vCron(s, 1)
	rt.RunTasks()
	vCron(s, 1)
	rt.RunTasks()
	vSame("in the running server", vDump(s), m, 0)
	add()
	s = vLoads("after a restart", cfg, m)
	vOn(s, vDial(s), m, 0, "rpush", "w", "x")
	vLoads("after another restart", cfg, m)
	rt.Reach("end")
}
