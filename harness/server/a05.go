package server

import (
	"strconv"
	"syscall"

	"github.com/IfanTsai/metis/config"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vOrder is the requests of connections in their order: the record each must have in the log and the length of its reply.
type vOrder struct {
	s     *Server
	cfg   *config.Config
	conns []*vsyscall.File
	recs  [][]string
	lens  [][]int
	n     int
	sends int
}

// vLogged finds the end of the record of a key in the log, 0 when there is none.
func vLogged(key string) int {
	b, p := vos.Content(vAof), 0
	for {
		a, n := vTakeRecord(b[p:])
		if n == 0 {
			return 0
		}
		p += n
		if len(a) > 1 && a[1] == key {
			return p
		}
	}
}

func vNewOrder(cfg *config.Config, conns int) *vOrder {
	o := &vOrder{s: vBoot(cfg), cfg: cfg}
	for i := 0; i < conns; i++ {
		o.conns = append(o.conns, vDial(o.s))
		o.recs = append(o.recs, nil)
		o.lens = append(o.lens, nil)
	}
	vsyscall.OnSend = func(f *vsyscall.File, n int) {
		o.sends++
		for i, c := range o.conns {
			if c != f {
				continue
			}
			at := 0
			for j, l := range o.lens[i] {
				if at >= len(c.Out)+n {
					break
				}
				at += l
				if o.recs[i][j] == "" {
					continue
				}
				end := vLogged(o.recs[i][j])
				rt.Assert(end > 0, "a byte of a reply leaves only when the command is in the log")
				if cfg.AofFsync == config.TypeAppendFsyncAlways {
					rt.Assert(vos.Synced(vAof) >= end, "with the always policy a byte of a reply leaves only when the log is synced")
				}
			}
		}
	}
	return o
}

// post queues a request of connection i: a write (kind 0, 1, 2) to a new key or a read.
func (o *vOrder) post(i, kind int) {
	o.n++
	key := "k" + strconv.Itoa(o.n)
	v := vBytes("v", 1)
	c := o.conns[i]
	l := 5
	switch kind {
	case 0:
		vPost(c, vEnc("set", key, v))
	case 1:
		vPost(c, vEnc("rpush", key, v))
		l = 4
	case 2:
		vPost(c, vEnc("zadd", key, "1", v))
		l = 4
	case 3:
		vPost(c, vEnc("ping"))
		key, l = "", 7
	}
	o.recs[i], o.lens[i] = append(o.recs[i], key), append(o.lens[i], l)
}

// done asserts that every reply was sent.
func (o *vOrder) done() {
	for i, c := range o.conns {
		n := 0
		for _, l := range o.lens[i] {
			n += l
		}
		rt.Assert(len(c.Out) == n, "every reply is sent")
	}
}

// vAnyOrder lets each of the next n waits of the event loop report an arbitrary selection of the ready descriptors in an arbitrary order.
func vAnyOrder(n int) {
	vsyscall.Select = func(r []syscall.EpollEvent) []syscall.EpollEvent {
		if n == 0 || len(r) < 2 {
			return r
		}
		n--
		var out []syscall.EpollEvent
		for len(r) > 0 {
			k := len(r)
			if len(out) > 0 {
				k++
			}
			i := rt.Choose("next", k)
			if i == len(r) {
				break
			}
			out = append(out, r[i])
			r = append(append([]syscall.EpollEvent(nil), r[:i]...), r[i+1:]...)
		}
		return out
	}
}

// 2 connections, each sending a first and pipelined second request (writes with an arbitrary byte or a read), the second arriving at any of the following waits; the first 3 (thorough: 4) waits with several ready descriptors report any selection of them in any order; each fsync policy
func VH_A05_order() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	o := vNewOrder(cfg, 2)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	o.post(0, rt.Choose("kind", 4))
	o.post(1, 0)
	late := rt.Choose("second request at wait", 4)
	waits := 0
	vsyscall.OnWait = func() {
		if waits == late {
			o.post(0, 1)
			o.post(1, 2)
		}
		waits++
	}
	vAnyOrder(n)
	vResume(o.s)
	vResume(o.s)
	o.done()
	rt.Reach("end")
}

// readiness with both directions: a connection whose earlier reply is still waiting for the kernel becomes readable and writable in the same wait (its reply refused or accepted in parts of 1..3 bytes before), another connection in between; any order
func VH_A05_blocked() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 2)]
	o := vNewOrder(cfg, 2)
	o.conns[0].NotReady = true
	o.post(0, 0)
	vResume(o.s)
	o.conns[0].NotReady = false
	if k := rt.Choose("parts", 4); k == 0 {
		o.conns[0].Plan = []vsyscall.WStep{{Err: syscall.EAGAIN}, {N: 2}}
	} else {
		o.conns[0].Plan = []vsyscall.WStep{{N: k}, {N: 1}, {Err: syscall.EAGAIN}, {N: 3}}
	}
	o.post(0, rt.Choose("kind", 4))
	o.post(1, 1)
	o.post(0, 0)
	vAnyOrder(3)
	vResume(o.s)
	o.done()
	rt.Reach("end")
}

// replies while a log rewrite starts, runs and completes, the cron running in the same iteration as requests of 2 connections
func VH_A05_rewrite() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	o := vNewOrder(cfg, 2)
	o.post(0, rt.Choose("kind", 3))
	vResume(o.s)
	vDo(o.s, vDial(o.s), "bgrewriteaof")
	stage := rt.Choose("stage", 3)
	for i := 0; i < 3; i++ {
		if i == stage {
			o.post(0, 0)
			o.post(1, rt.Choose("kind", 4))
			o.post(1, 1)
			vAnyOrder(2)
		}
		if i == 1 {
			rt.RunTasks()
		}
		vCron(o.s, 1)
	}
	o.post(1, 0)
	vResume(o.s)
	o.done()
	rt.Reach("end")
}

// a write to the log that fails (after 0, 1 or 20 bytes) or a sync that fails, at the first or a later one of 3 requests: no reply to a command that is not in the log
func VH_A05_failure() {
	cfg := vCfgAof()
	o := vNewOrder(cfg, 2)
	o.post(0, 0)
	vResume(o.s)
	n, at := 0, rt.Choose("at", 3)
	if rt.Choose("what", 2) == 0 {
		part := []int{0, 1, 20}[rt.Choose("written", 3)]
		vos.FailWrite = func(name string, want int) (int, error) {
			n++
			if name == vAof && n > at {
				if want > part {
					want = part
				}
				return want, syscall.ENOSPC
			}
			return want, nil
		}
	} else {
		vos.FailSync = func(name string) error {
			n++
			if name == vAof && n > at {
				return syscall.EIO
			}
			return nil
		}
	}
	died := false
	func() {
		defer func() {
			if recover() != nil {
				died = true
			}
			rt.Unwinding = false
		}()
		for i := 0; i < 3; i++ {
			o.post(i%2, i%3)
			vResume(o.s)
		}
	}()
	vos.FailWrite, vos.FailSync = nil, nil
	if died {
		rt.Reach("died")
	} else {
		rt.Reach("lived")
	}
}

// the everysec policy: 5 requests with 0, 1, 500, 1000 or 1001 ms between them, then silence: syncs are at least a second apart, and what is written is synced within two seconds though no request follows
func VH_A05_everysec() {
	cfg := vCfgAof()
	cfg.AofFsync = config.TypeAppendFsyncEverySecond
	rt.AutoRun = true
	var syncs []int64
	vos.FailSync = func(name string) error {
		if name == vAof {
			syncs = append(syncs, rt.NowMs())
		}
		return nil
	}
	s := vBoot(cfg)
	c := vDial(s)
	n := 4
	if rt.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		vDo(s, c, "rpush", "l", vBytes("v", 1))
		vCron(s, []int64{0, 1, 500, 1000, 1001}[rt.Choose("gap", 5)])
	}
	for i := 0; i < 8; i++ {
		vCron(s, 250)
	}
	rt.Assert(vos.Synced(vAof) == vLogSize(), "everysec: what is written is synced within two seconds")
	for i := 1; i < len(syncs); i++ {
		rt.Assert(syncs[i]-syncs[i-1] >= 1000, "everysec: syncs are at least a second apart")
	}
	rt.Reach("end")
}

// the no policy: 3 requests with 0..2 s between them, a log rewrite among them or not: the log in use is never synced
func VH_A05_never() {
	cfg := vCfgAof()
	cfg.AofFsync = config.TypeAppendFsyncNever
	s := vBoot(cfg)
	c := vDial(s)
	for i := 0; i < 3; i++ {
		before := vos.Synced(vAof)
		vDo(s, c, "rpush", "l", vBytes("v", 1))
		rt.Assert(rt.Tasks() == 0 && vos.Synced(vAof) == before, "no policy: nothing is synced")
		vCron(s, []int64{0, 999, 2000}[rt.Choose("gap", 3)])
		rt.Assert(rt.Tasks() == 0 && vos.Synced(vAof) == before, "no policy: nothing is synced")
		if rt.Choose("rewrite", 2) == 1 {
			vDo(s, c, "bgrewriteaof")
			rt.RunTasks()
			vCron(s, 1)
		}
	}
	rt.Reach("end")
}
