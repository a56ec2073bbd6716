package server

import (
	"syscall"

	"github.com/IfanTsai/metis/socket"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vPeer is one connection and what it should have received.
type vPeer struct {
	f       *vsyscall.File
	want    string
	db      int
	half    string // key of a request whose second part has not been sent
	auth    bool
	gone    bool // its end is certain
	maybe   bool // the connection failed while replies were on their way
	refused bool // the kernel refused to watch it
}

type vNet struct {
	s     *Server
	peers []*vPeer
	pw    bool
	no    string // the reply to a connection that has not authenticated
}

func (w *vNet) value(db int, k string) string {
	if db == 0 {
		return vBulk("zero-" + k)
	}
	return vBulk("one-" + k)
}

// vNewNet is a server with two databases and n connections.
func vNewNet(n int, pw bool) *vNet {
	cfg := vCfgAof()
	if pw {
		cfg.RequirePassword = "pw"
	}
	w := &vNet{s: vBoot(cfg), pw: pw}
	c := vDial(w.s)
	if pw {
		w.no = vDo(w.s, c, "get", "a")
		rt.Assert(vIsErr(w.no), "a connection that has not authenticated gets an error")
		vDo(w.s, c, "auth", "pw")
	}
	for _, k := range []string{"a", "b", "c"} {
		rt.Assert(vDo(w.s, c, "set", k, "zero-"+k) == vOK, "a command before anything fails")
	}
	vDo(w.s, c, "select", "1")
	for _, k := range []string{"a", "b", "c"} {
		vDo(w.s, c, "set", k, "one-"+k)
	}
	c.Out = nil
	w.peers = append(w.peers, &vPeer{f: c, db: 1, auth: true})
	for i := 1; i < n; i++ {
		w.peers = append(w.peers, &vPeer{f: vDial(w.s), auth: !pw})
	}
	return w
}

func (w *vNet) request(p *vPeer, k string) []byte {
	switch {
	case !p.auth:
		p.want += w.no
	default:
		p.want += w.value(p.db, k)
	}
	return vEnc("get", k)
}

// vErrno is any error number.
func vErrno() syscall.Errno { return syscall.Errno(rt.Int("errno", 1, 133)) }

// temporary tells whether an error leaves the connection open.
func vTemporary(e syscall.Errno) bool {
	return rt.SplitBool(rt.Or(e == syscall.EAGAIN, e == syscall.EINTR))
}

const (
	vNothing = iota
	vGet
	vEOF
	vReset
	vMalformed
	vWriteFails
	vGetThenEOF
	vHalf
	vSlow
	vSelectDB
	vAuth
	vReadFails
	vShortWrite
	vActs
)

// act lets something happen at a connection; the server sees it when it runs.
func (w *vNet) act(p *vPeer, k string, what int) {
	if p.gone || p.maybe {
		return
	}
	f := p.f
	f.NotReady = false
	if p.half != "" && what != vEOF && what != vReset && what != vReadFails {
		vPost(f, vEnc("get", p.half)[9:])
		w.request(p, p.half)
		p.half = ""
	}
	switch what {
	case vGet:
		vPost(f, w.request(p, k))
	case vEOF:
		f.In = append(f.In, vsyscall.Chunk{})
		p.gone = true
	case vReset:
		f.In = append(f.In, vsyscall.Chunk{Err: syscall.ECONNRESET})
		f.Hup = true
		p.gone = true
	case vMalformed:
		b := rt.Byte("bad length")
		rt.Assume(rt.Or(b < '0', b > '9'))
		rt.Assume(rt.And(b != '\r', b != '\n'))
		vPost(f, []byte{'*', '1', '\r', '\n', '$', b, '\r', '\n'})
		p.gone = true
	case vWriteFails:
		vPost(f, w.request(p, k))
		e := vErrno()
		f.Plan = append(f.Plan, vsyscall.WStep{N: rt.Choose("sent before", 3)}, vsyscall.WStep{Err: e})
		if !vTemporary(e) {
			p.gone = true
		}
	case vShortWrite:
		vPost(f, w.request(p, k))
		f.Plan = append(f.Plan, vsyscall.WStep{N: rt.Choose("sent", 5)}, vsyscall.WStep{N: 1}, vsyscall.WStep{Err: syscall.EAGAIN})
	case vGetThenEOF:
		vPost(f, w.request(p, k))
		f.In = append(f.In, vsyscall.Chunk{})
		p.gone = true
	case vHalf:
		vPost(f, vEnc("get", k)[:9])
		p.half = k
	case vSlow:
		f.NotReady = true
		vPost(f, w.request(p, k))
	case vSelectDB:
		vPost(f, vEnc("select", "1"))
		if p.auth {
			p.db = 1
			p.want += vOK
		} else {
			p.want += w.no
		}
	case vAuth:
		if w.pw {
			vPost(f, vEnc("auth", "pw"))
			p.auth = true
			p.want += vOK
		} else {
			vPost(f, w.request(p, k))
		}
	case vReadFails:
		e := vErrno()
		f.In = append(f.In, vsyscall.Chunk{Err: e})
		if !vTemporary(e) {
			p.gone = true
		}
	}
}

// arrive puts a new connection into the backlog.
func (w *vNet) arrive() *vPeer {
	p := &vPeer{f: &vsyscall.File{Kind: "conn"}, auth: !w.pw}
	vsyscall.Table[w.listener()].Backlog = append(vsyscall.Table[w.listener()].Backlog, p.f)
	w.peers = append(w.peers, p)
	return p
}

func (w *vNet) listener() int {
	for fd := 3; fd < 64; fd++ {
		if f := vsyscall.Table[fd]; f != nil && f.Kind == "listen" {
			return fd
		}
	}
	panic("no listening socket")
}

// order makes the next wait report the ready events in any order.
func vShuffle() {
	vsyscall.Select = func(ready []syscall.EpollEvent) []syscall.EpollEvent {
		if len(ready) > 1 {
			vsyscall.Select = nil
			for i := 0; i < len(ready)-1; i++ {
				j := i + rt.Choose("order", len(ready)-i)
				ready[i], ready[j] = ready[j], ready[i]
			}
		}
		return ready
	}
}

// check compares every connection with what should have become of it.
func (w *vNet) check() {
	rt.Assert(len(vsyscall.Bad) == 0, "no descriptor that is not open is used")
	open := 0
	for _, p := range w.peers {
		switch {
		case p.gone:
			rt.Assert(p.f.Closes == 1, "a connection that ended is closed exactly once")
			out := string(p.f.Out)
			rt.Assert(len(out) <= len(p.want) && out == p.want[:len(out)], "a connection that ended got a part of its own replies")
		case p.maybe:
		default:
			rt.Assert(p.f.Closes == 0, "no other connection is closed")
			open++
			rt.Assert(vsyscall.Table[p.f.FD] == p.f, "a connection keeps its descriptor")
			c := vClients(w.s)[socket.FD(p.f.FD)]
			rt.Assert(c != nil, "an open connection has a client")
			if !p.f.NotReady {
				rt.Assert(string(p.f.Out) == p.want, "a connection gets exactly the replies to its own requests")
			} else {
				rt.Assert(len(p.f.Out) <= len(p.want), "a connection gets only replies to its own requests")
			}
		}
	}
	rt.Assert(len(vClients(w.s)) == open, "clients that ended are forgotten")
}

// finish lets the connections that are left and a new one work.
func (w *vNet) finish() {
	w.arrive()
	for _, p := range w.peers {
		w.act(p, "c", vGet)
	}
	vResume(w.s)
	vCron(w.s, 1)
	w.check()
	fds := len(vClients(w.s)) + 3 // listening socket, epoll, log are not connections
	n := 0
	for fd := 3; fd < 64; fd++ {
		if vsyscall.Table[fd] != nil {
			n++
		}
	}
	rt.Assert(n <= fds, "no descriptor is leaked")
	rt.Reach("end")
}

// 2 connections (one with another database selected, one possibly with half a request or an unsent reply), any of: nothing, a request, end of stream, reset, malformed request (any wrong byte), a write that fails with any errno after 0..2 bytes, a request followed by end of stream, half a request; events reported in any order; a new connection arrives in the same wait or after
func VH_N02_pair() {
	w := vNewNet(2, false)
	a, b := w.peers[0], w.peers[1]
	w.act(b, "b", []int{vNothing, vHalf, vSlow, vSelectDB}[rt.Choose("before", 4)])
	vResume(w.s)
	w.act(a, "a", rt.Choose("first", vGetThenEOF+1))
	w.act(b, "b", rt.Choose("second", vHalf+1))
	if rt.Choose("arrival", 2) == 1 {
		w.act(w.arrive(), "a", vGet)
	}
	vShuffle()
	vResume(w.s)
	w.check()
	w.finish()
}

// 1 connection with any 3 of these actions (thorough: 4), the first two also short writes, reads that fail with any errno, a slow reader; a second connection stays
func VH_N02_history() {
	w := vNewNet(2, false)
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		what := vGet
		if i < 2 || rt.Thorough() {
			what = 1 + rt.Choose("act", vActs-1)
		} else {
			what = 1 + rt.Choose("act", vWriteFails)
		}
		w.act(w.peers[1], vLetter(i%3), what)
		if i == 1 {
			w.act(w.peers[0], "b", vSlow)
		}
		vShuffle()
		vResume(w.s)
		w.check()
	}
	w.finish()
}

// 3 connections of a server that asks for a password, one of them authenticated; all disconnect, authenticate, select or send requests at the same time, in any order; a new connection takes over the descriptor of one that left and is not authenticated
func VH_N02_reuse() {
	w := vNewNet(3, true)
	acts := []int{vEOF, vReset, vAuth, vGet, vHalf, vReadFails}
	for i, p := range w.peers {
		k := rt.Choose("act", len(acts))
		w.act(p, vLetter(i), acts[k])
	}
	n := w.arrive()
	w.act(n, "a", vGet)
	vShuffle()
	vResume(w.s)
	w.check()
	w.act(n, "b", vAuth)
	vResume(w.s)
	w.act(n, "b", vGet)
	vResume(w.s)
	w.check()
	w.finish()
}

// accept, making the new socket non-blocking or watching it fails with any errno for 1 of 2 arriving connections while 2 others work; the accept is retried, the other failures end the connection
func VH_N02_refused() {
	w := vNewNet(2, false)
	call := []string{"accept", "setnonblock", "epoll_ctl add"}[rt.Choose("call", 3)]
	at := rt.Choose("at", 2)
	e := vErrno()
	n := 0
	p := [2]*vPeer{w.arrive(), w.arrive()}
	vsyscall.Fail = func(c string) syscall.Errno {
		if c == call {
			n++
			if n == at+1 {
				return e
			}
		}
		return 0
	}
	for i, q := range p {
		w.act(q, vLetter(i), vGet)
		if call != "accept" && i == at {
			q.gone = true
			q.want = ""
		}
	}
	w.act(w.peers[0], "c", rt.Choose("first", vGetThenEOF+1))
	w.act(w.peers[1], "c", vGet)
	vShuffle()
	vResume(w.s)
	vsyscall.Fail = nil
	w.check()
	w.finish()
}
