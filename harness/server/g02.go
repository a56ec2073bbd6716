package server

import (
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vos"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vStopped runs f; at its n-th moment (each system call the event loop or the rewrite makes is one, and so is the end of each write to a file) the signal arrives and
// Stop runs, and the process exits at the k-th moment after that, or when the event loop ends or dies.
func vStopped(s func() *Server, n, k int, f func()) (stopped bool) {
	moment := func() {
		if rt.Unwinding {
			return
		}
		n--
		if stopped {
			if n < 0 {
				rt.Unwinding = true
				panic(rt.Crash{})
			}
		} else if n == 0 {
			stopped = true
			n = 1000 // not while Stop runs
			s().Stop()
			n = k
		}
	}
	defer func() {
		rt.OnOp, rt.OnWritten, vsyscall.Fail, vsyscall.OnSend = nil, nil, nil, nil
		rt.Unwinding = false
		if r := recover(); r != nil {
			if _, ok := r.(rt.Crash); !ok && !stopped { // dying is one way to exit
				panic(r)
			}
		}
	}()
	rt.OnOp, rt.OnWritten = moment, moment
	vsyscall.Fail = func(call string) syscall.Errno {
		if call != "epoll_ctl add" {
			moment()
		}
		return 0
	}
	vsyscall.OnSend = func(*vsyscall.File, int) { moment() }
	f()
	rt.Assume(stopped)
	return
}

func vLater() int {
	if rt.Thorough() {
		return rt.Choose("later", 10)
	}
	return []int{0, 1, 4}[rt.Choose("later", 3)]
}

// vOnce makes sure that nothing runs after the event loop has ended.
func vOnce(f func()) func() {
	return func() {
		f()
		if !vListening() {
			rt.Unwinding = true
			panic(rt.Crash{})
		}
	}
}

// steps is a rewrite with a command before, between and behind its steps.
func (a *vAcked) steps() []func() {
	d := vDial(a.s)
	return []func(){
		a.add,
		func() { vDo(a.s, d, "bgrewriteaof") },
		a.add,
		func() { rt.RunTasks() },
		a.add,
		func() { vCron(a.s, 1) },
		a.add,
	}
}

// the stop arrives at any moment (before any system call and after any write to a file) of a history with a rewrite and commands before, between and behind its steps, for each fsync policy; the event loop goes on for 0, 1 or 4 more system calls (thorough: 0..9) before the process exits
func VH_G02_rewrite() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	a := vStartAcked(cfg)
	steps := a.steps()
	vStopped(func() *Server { return a.s }, 1+rt.Choose("stop", 84), vLater(), func() {
		for _, f := range steps {
			vOnce(f)()
		}
	})
	rt.Reach("stopped")
	a.kept("after the stop", cfg)
}

// the same while commands of two connections in different databases arrive together, with arbitrary values, one write of the log cut short by the exit
func VH_G02_commands() {
	cfg := vCfgAof()
	cfg.AofFsync = vSyncs[rt.Choose("fsync", 3)]
	a := vStartAcked(cfg)
	d := vDial(a.s)
	vDo(a.s, d, "select", "1")
	val := vBytes("v", 2)
	vStopped(func() *Server { return a.s }, 1+rt.Choose("stop", 29), vLater(), func() {
		for i := 0; i < 2; i++ {
			d.Out = nil
			vPost(d, vEnc("set", "other", val))
			vOnce(a.add)()
			rt.Tick(0, 1100)
		}
	})
	got := len(d.Out) > 0
	rt.Reach("stopped")
	a.settle()
	s := vRestart(cfg)
	m := vDump(s).liveAll().dropEmpty()
	if a.cur != nil && vWay(m) > vWay(a.m) {
		a.m.exec(0, a.cur)
	}
	if got || m.find(1, "other") != nil {
		a.m.exec(1, []string{"set", "other", val})
	}
	vSame("after the stop", m, a.m.clone().liveAll().dropEmpty(), 999)
}

// the stop arrives at any moment while the server starts on a log with a torn last record; started again it has everything
func VH_G02_loading() {
	cfg := vCfgAof()
	a := vStartAcked(cfg)
	a.add()
	vos.SetContent(vAof, append(vos.Content(vAof), []byte("*3\r\n$3\r\nset\r\n$1\r\nx")[:[]int{0, 1, 5, 13, 18}[rt.Choose("torn", 5)]]...))
	rt.DropTasks()
	vsyscall.Reset()
	vInit()
	s := NewServer(cfg)
	vStopped(func() *Server { return s }, 1+rt.Choose("stop", 16), rt.Choose("later", 3), func() {
		vIdle(func() { _ = s.Run() })
	})
	rt.Reach("stopped")
	a.kept("after the stop", cfg)
}

func vListening() bool {
	for fd := 3; fd < 64; fd++ {
		if f := vsyscall.Table[fd]; f != nil && f.Kind == "listen" {
			return true
		}
	}
	return false
}
