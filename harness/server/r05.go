package server

import (
	"syscall"

	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vStepsOf is n answers of the kernel to writes: any part of up to max bytes, all, EAGAIN or EINTR.
func vStepsOf(n, max int) []vsyscall.WStep {
	var p []vsyscall.WStep
	for i := 0; i < n; i++ {
		switch k := rt.Choose("write", max+4); {
		case k == 0:
			p = append(p, vsyscall.WStep{N: -1, Err: syscall.EAGAIN})
		case k == 1:
			p = append(p, vsyscall.WStep{N: -1, Err: syscall.EINTR})
		case k == 2:
			p = append(p, vsyscall.WStep{N: -1})
		default:
			p = append(p, vsyscall.WStep{N: k - 3})
		}
	}
	return p
}

// vWatch checks at each wait that a connection is watched for writability exactly
// while output is pending and that what it got is a prefix of the expected bytes.
func vWatch(s *Server, c *vsyscall.File, want *string) {
	vsyscall.OnWait = func() {
		if c.Closed {
			return
		}
		out := string(c.Out)
		rt.Assert(len(out) <= len(*want) && out == (*want)[:len(out)], "the client receives the replies, each byte once and in order")
		if len(c.In) == 0 { // else some of the replies do not exist yet
			pending := len(out) < len(*want)
			rt.Assert((vsyscall.Interest(c.FD)&syscall.EPOLLOUT != 0) == pending, "the connection is registered for writability exactly while output is pending")
		}
		rt.Assert(vsyscall.Interest(c.FD)&syscall.EPOLLIN != 0, "the connection stays registered for reading")
	}
}

// three pipelined replies (7, 8 and 5..8 bytes, arbitrary content) under up to 3 (thorough: 4) answers of the kernel: 0..9 bytes accepted, everything, EAGAIN, EINTR
func VH_R05_partial() {
	s := vBoot(vCfg())
	c := vDial(s)
	w := vBytes("w", 2)
	vDo(s, c, "set", "k", w)
	c.Out = nil
	want := "+PONG\r\n" + vBulk(w) + vNull
	vWatch(s, c, &want)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	c.Plan = vStepsOf(n, 9)
	vPost(c, append(append(vEnc("ping"), vEnc("get", "k")...), vEnc("get", "none")...))
	vResume(s)
	rt.Assert(string(c.Out) == want, "every byte is sent once the kernel accepts it")
	rt.Assert(!c.Closed, "the connection stays open")
	vsyscall.OnWait = nil
	rt.Assert(vDo(s, c, "ping") == "+PONG\r\n", "the connection goes on")
	rt.Reach("end")
}

// further requests arriving at any of the next 4 waits while a 10-byte reply is sent in 4 parts (0..9 bytes, EAGAIN, EINTR), the kernel being ready or not in between
func VH_R05_between() {
	s := vBoot(vCfg())
	c := vDial(s)
	vDo(s, c, "set", "k", "wxyz")
	c.Out = nil
	want := vBulk("wxyz")
	vWatch(s, c, &want)
	watch := vsyscall.OnWait
	at := rt.Choose("arrival", 4)
	waits := 0
	vsyscall.OnWait = func() {
		watch()
		if waits == at {
			v := vBytes("v", 1)
			vPost(c, append(vEnc("set", "k", v), vEnc("get", "k")...))
			want += vOK + vBulk(v)
		}
		waits++
	}
	c.Plan = vStepsOf(2, 9)
	c.Plan = append(c.Plan, vsyscall.WStep{N: rt.Choose("third", 4)})
	vPost(c, vEnc("get", "k"))
	vResume(s)
	rt.Assert(string(c.Out) == want, "every byte is sent once the kernel accepts it")
	rt.Reach("end")
}

// a slow reader: replies of two or three requests pile up while the connection is not writable, then leave in parts of 0..9 bytes, EAGAIN, EINTR or at once
func VH_R05_slow() {
	s := vBoot(vCfg())
	c, other := vDial(s), vDial(s)
	want := ""
	vWatch(s, c, &want)
	c.NotReady = true
	n := 2 + rt.Choose("requests", 2)
	for i := 0; i < n; i++ {
		vPost(c, vEnc("rpush", "l", "x"))
		want += vInt(i + 1)
		vResume(s)
		rt.Assert(len(c.Out) == 0 || !c.NotReady, "nothing is written while the connection is not writable")
		rt.Assert(vDo(s, other, "llen", "l") == vInt(i+1), "other connections are served meanwhile")
	}
	c.NotReady = false
	c.Plan = vStepsOf(2, 9)
	vResume(s)
	rt.Assert(string(c.Out) == want, "every byte is sent once the kernel accepts it")
	rt.Reach("end")
}

// a write that fails (EPIPE, ECONNRESET, EBADF, EIO, ENOBUFS) after 0..2 partial ones, with further replies queued: only that connection is closed, the other's pending reply arrives complete
func VH_R05_failed() {
	s := vBoot(vCfg())
	c, other := vDial(s), vDial(s)
	w := vBytes("w", 2)
	vDo(s, other, "set", "k", w)
	other.Out = nil
	c.Plan = vStepsOf(rt.Choose("before", 3), 4)
	for i := range c.Plan {
		if c.Plan[i].N < 0 && c.Plan[i].Err == 0 {
			return
		}
	}
	errs := []syscall.Errno{syscall.EPIPE, syscall.ECONNRESET, syscall.EIO, syscall.ENOBUFS}
	c.Plan = append(c.Plan, vsyscall.WStep{Err: errs[rt.Choose("error", len(errs))]})
	other.Plan = vStepsOf(1, 4)
	vPost(c, append(vEnc("get", "k"), vEnc("ping")...))
	vPost(other, append(vEnc("get", "k"), vEnc("ping")...))
	if rt.Choose("order", 2) == 1 {
		vsyscall.Select = func(r []syscall.EpollEvent) []syscall.EpollEvent {
			for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
				r[i], r[j] = r[j], r[i]
			}
			return r
		}
	}
	vResume(s)
	rt.Assert(c.Closed && c.Closes == 1, "the connection whose write failed is closed once")
	rt.Assert(!other.Closed && string(other.Out) == vBulk(w)+"+PONG\r\n", "another connection gets all its replies")
	rt.Assert(len(vClients(s)) == 1, "the server forgets the closed connection only")
	rt.Assert(len(vsyscall.Bad) == 0, "no closed descriptor is used")
	rt.Assert(vDo(s, other, "ping") == "+PONG\r\n", "the server goes on")
	rt.Reach("end")
}

// a reply of 9000 bytes (arbitrary first and last byte) accepted in parts of 1, 4095, 4096, 8999 bytes, then 0, 1 or 4097 bytes or the rest
func VH_R05_large() {
	s := vBoot(vCfg())
	c := vDial(s)
	b := make([]byte, 9000)
	for i := range b {
		b[i] = 'x'
	}
	b[0], b[8999] = rt.Byte("first"), rt.Byte("last")
	vDo(s, c, "set", "k", string(b))
	c.Out = nil
	want := vBulk(string(b)) + "+PONG\r\n"
	vWatch(s, c, &want)
	for i := 0; i < 3; i++ {
		c.Plan = append(c.Plan, vsyscall.WStep{N: []int{0, 1, 4095, 4096, 4097, 8999}[rt.Choose("n", 6)]})
	}
	vPost(c, append(vEnc("get", "k"), vEnc("ping")...))
	vResume(s)
	rt.Assert(string(c.Out) == want, "every byte is sent once the kernel accepts it")
	rt.Reach("end")
}
