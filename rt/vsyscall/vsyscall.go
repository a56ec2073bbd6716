// Package vsyscall is the part of package syscall metis uses, on a simulated
// kernel: descriptors, sockets, level-triggered epoll.
package vsyscall

import (
	"strconv"
	"syscall"

	"github.com/IfanTsai/metis/verif/rt"
)

type (
	Errno         = syscall.Errno
	SockaddrInet4 = syscall.SockaddrInet4
	SockaddrInet6 = syscall.SockaddrInet6
	Sockaddr      = syscall.Sockaddr
	EpollEvent    = syscall.EpollEvent
)

// Chunk is one unit of arriving input: Data, or an error, or (both empty) end of stream.
type Chunk struct {
	Data []byte
	Err  syscall.Errno
}

// WStep is the kernel's answer to one write: accept at most N bytes (all when
// N < 0), or fail with Err.
type WStep struct {
	N   int
	Err syscall.Errno
}

// File is an open descriptor.
type File struct {
	Kind     string // sock, listen, conn, epoll
	FD       int
	Addr     [4]byte
	Port     int
	Bound    bool
	Backlog  []*File
	In       []Chunk
	Out      []byte
	Plan     []WStep
	NotReady bool // not writable at present
	Hup      bool
	NonBlock bool
	Reuse    bool
	Closed   bool
	Closes   int
	Reads    int
	Writes   int
	Conn     bool
	interest map[int]uint32
	order    []int
	Peer     string // connect target
}

// Idle is the panic value raised by EpollWait when nothing is left to report.
type Idle struct{}

var (
	// Table maps descriptors to open files.
	Table = map[int]*File{}
	// Bad records accesses to descriptors that are not open.
	Bad []string
	// Wakes is the number of times EpollWait still reports a timeout instead of Idle.
	Wakes int
	// Timeouts records the timeout given to each EpollWait.
	Timeouts []int
	// Select, when set, picks and orders the ready events that one EpollWait reports.
	Select func(ready []syscall.EpollEvent) []syscall.EpollEvent
	// OnWait, when set, runs at each EpollWait before readiness is determined.
	OnWait func()
	// OnSend, when set, runs when n bytes are accepted for a connection, before they are in Out.
	OnSend func(f *File, n int)
	// Fail, when set, may make a call fail.
	Fail func(call string) syscall.Errno
	// CtlLog records successful epoll_ctl calls when LogCtl is set.
	LogCtl bool
	CtlLog []CtlRec
	// spin detection
	idleWaits int
	maxFD     int
	waits     int
)

// CtlRec is one epoll_ctl call.
type CtlRec struct {
	Op     int
	FD     int
	Events uint32
}

// Reset forgets all descriptors (the process ended).
func Reset() {
	Table = map[int]*File{}
	maxFD = 0
	Wakes = 0
	idleWaits = 0
	Select, OnWait, OnSend, Fail = nil, nil, nil, nil
}

func fail(call string) error {
	if Fail != nil {
		if e := Fail(call); e != 0 {
			return e
		}
	}
	return nil
}

func newFD(f *File) int {
	fd := 3
	for Table[fd] != nil {
		fd++
	}
	f.FD = fd
	Table[fd] = f
	if fd > maxFD {
		maxFD = fd
	}
	return fd
}

func get(call string, fd int) (*File, error) {
	f := Table[fd]
	if f == nil {
		Bad = append(Bad, call+" "+strconv.Itoa(fd))
		return nil, syscall.EBADF
	}
	return f, nil
}

func Socket(domain, typ, proto int) (int, error) {
	if err := fail("socket"); err != nil {
		return -1, err
	}
	return newFD(&File{Kind: "sock"}), nil
}

func SetsockoptInt(fd, level, opt, value int) error {
	f, err := get("setsockopt", fd)
	if err != nil {
		return err
	}
	if err := fail("setsockopt"); err != nil {
		return err
	}
	if opt == syscall.SO_REUSEADDR {
		f.Reuse = value != 0
	}
	return nil
}

func SetNonblock(fd int, nb bool) error {
	f, err := get("setnonblock", fd)
	if err != nil {
		return err
	}
	if err := fail("setnonblock"); err != nil {
		return err
	}
	f.NonBlock = nb
	return nil
}

func Bind(fd int, sa syscall.Sockaddr) error {
	f, err := get("bind", fd)
	if err != nil {
		return err
	}
	if err := fail("bind"); err != nil {
		return err
	}
	a, ok := sa.(*syscall.SockaddrInet4)
	if !ok {
		return syscall.EINVAL
	}
	f.Addr, f.Port, f.Bound = a.Addr, a.Port, true
	rt.Note("bind", "", fd, a.Port)
	return nil
}

// Connects records connect calls.
var Connects []*syscall.SockaddrInet4

func Connect(fd int, sa syscall.Sockaddr) error {
	_, err := get("connect", fd)
	if err != nil {
		return err
	}
	if err := fail("connect"); err != nil {
		return err
	}
	a, ok := sa.(*syscall.SockaddrInet4)
	if !ok {
		return syscall.EINVAL
	}
	Connects = append(Connects, a)
	return nil
}

func Listen(fd, backlog int) error {
	f, err := get("listen", fd)
	if err != nil {
		return err
	}
	if err := fail("listen"); err != nil {
		return err
	}
	f.Kind = "listen"
	return nil
}

func Getsockname(fd int) (syscall.Sockaddr, error) {
	f, err := get("getsockname", fd)
	if err != nil {
		return nil, err
	}
	return &syscall.SockaddrInet4{Addr: f.Addr, Port: f.Port}, nil
}

func Accept4(fd, flags int) (int, syscall.Sockaddr, error) {
	f, err := get("accept", fd)
	if err != nil {
		return -1, nil, err
	}
	if err := fail("accept"); err != nil {
		return -1, nil, err
	}
	if len(f.Backlog) == 0 {
		return -1, nil, syscall.EAGAIN
	}
	c := f.Backlog[0]
	f.Backlog = f.Backlog[1:]
	idleWaits = 0
	nfd := newFD(c)
	c.Conn = true
	if flags&syscall.SOCK_NONBLOCK != 0 {
		c.NonBlock = true
	}
	return nfd, &syscall.SockaddrInet4{}, nil
}

func Accept(fd int) (int, syscall.Sockaddr, error) { return Accept4(fd, 0) }

func Read(fd int, p []byte) (int, error) {
	f, err := get("read", fd)
	if err != nil {
		return -1, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if err := fail("read"); err != nil {
		return -1, err
	}
	if len(f.In) == 0 {
		return -1, syscall.EAGAIN
	}
	idleWaits = 0
	f.Reads++
	c := &f.In[0]
	if c.Err != 0 {
		e := c.Err
		f.In = f.In[1:]
		return -1, e
	}
	if len(c.Data) == 0 {
		return 0, nil // end of stream stays
	}
	n := copy(p, c.Data)
	if n == len(c.Data) {
		f.In = f.In[1:]
	} else {
		c.Data = c.Data[n:]
	}
	return n, nil
}

func Write(fd int, p []byte) (int, error) {
	f, err := get("write", fd)
	if err != nil {
		return -1, err
	}
	if rt.Unwinding {
		return len(p), nil
	}
	idleWaits = 0
	f.Writes++
	n := len(p)
	if len(f.Plan) > 0 {
		s := f.Plan[0]
		f.Plan = f.Plan[1:]
		if s.Err != 0 {
			return -1, s.Err
		}
		if s.N >= 0 && s.N < n {
			n = s.N
		}
	}
	if OnSend != nil {
		OnSend(f, n)
	}
	f.Out = append(f.Out, p[:n]...)
	rt.Note("send", "", fd, n)
	return n, nil
}

func Close(fd int) error {
	if rt.Unwinding {
		return nil
	}
	f, err := get("close", fd)
	if err != nil {
		return err
	}
	f.Closed = true
	f.Closes++
	delete(Table, fd)
	// a closed descriptor leaves every interest set
	for i := 3; i <= maxFD; i++ {
		if e := Table[i]; e != nil && e.Kind == "epoll" {
			if _, ok := e.interest[fd]; ok {
				e.drop(fd)
			}
		}
	}
	rt.Note("close", "", fd, 0)
	return nil
}

func (f *File) drop(fd int) {
	delete(f.interest, fd)
	for i, x := range f.order {
		if x == fd {
			f.order = append(f.order[:i:i], f.order[i+1:]...)
			return
		}
	}
}

func EpollCreate1(flag int) (int, error) {
	if err := fail("epoll_create"); err != nil {
		return -1, err
	}
	return newFD(&File{Kind: "epoll", interest: map[int]uint32{}}), nil
}

func EpollCreate(size int) (int, error) { return EpollCreate1(0) }

func EpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) error {
	e, err := get("epoll_ctl", epfd)
	if err != nil {
		return err
	}
	if e.Kind != "epoll" {
		return syscall.EINVAL
	}
	if rt.Unwinding {
		return nil
	}
	if _, err := get("epoll_ctl", fd); err != nil {
		return err
	}
	if err := fail("epoll_ctl"); err != nil {
		return err
	}
	if op == syscall.EPOLL_CTL_ADD {
		if err := fail("epoll_ctl add"); err != nil {
			return err
		}
	}
	_, has := e.interest[fd]
	switch op {
	case syscall.EPOLL_CTL_ADD:
		if has {
			return syscall.EEXIST
		}
		e.interest[fd] = ev.Events
		e.order = append(e.order, fd)
	case syscall.EPOLL_CTL_MOD:
		if !has {
			return syscall.ENOENT
		}
		e.interest[fd] = ev.Events
	case syscall.EPOLL_CTL_DEL:
		if !has {
			return syscall.ENOENT
		}
		e.drop(fd)
	default:
		return syscall.EINVAL
	}
	if LogCtl {
		r := CtlRec{Op: op, FD: fd}
		if op != syscall.EPOLL_CTL_DEL {
			r.Events = ev.Events
		}
		CtlLog = append(CtlLog, r)
	}
	return nil
}

// Interest returns the events watched for a descriptor by any epoll instance.
func Interest(fd int) uint32 {
	for i := 3; i <= maxFD; i++ {
		if e := Table[i]; e != nil && e.Kind == "epoll" {
			return e.interest[fd]
		}
	}
	return 0
}

func (f *File) events(want uint32) uint32 {
	var ev uint32
	switch f.Kind {
	case "listen":
		if len(f.Backlog) > 0 {
			ev |= syscall.EPOLLIN
		}
	default:
		if len(f.In) > 0 {
			ev |= syscall.EPOLLIN
		}
		if !f.NotReady {
			ev |= syscall.EPOLLOUT
		}
	}
	ev &= want
	if f.Hup {
		ev |= syscall.EPOLLHUP | syscall.EPOLLERR
	}
	return ev
}

func EpollWait(epfd int, events []syscall.EpollEvent, msec int) (int, error) {
	e, err := get("epoll_wait", epfd)
	if err != nil {
		return -1, err
	}
	Timeouts = append(Timeouts, msec)
	if err := fail("epoll_wait"); err != nil {
		return -1, err
	}
	if OnWait != nil {
		OnWait()
	}
	var ready []syscall.EpollEvent
	for _, fd := range e.order {
		f := Table[fd]
		if f == nil {
			continue
		}
		if ev := f.events(e.interest[fd]); ev != 0 {
			ready = append(ready, syscall.EpollEvent{Events: ev, Fd: int32(fd)})
		}
	}
	if Select != nil {
		ready = Select(ready)
	}
	if len(ready) == 0 {
		if Wakes > 0 {
			Wakes--
			return 0, nil
		}
		rt.Unwinding = true
		panic(Idle{})
	}
	idleWaits++
	if idleWaits > 40 {
		panic("the event loop spins: events are reported again and again without any progress")
	}
	n := copy(events, ready)
	return n, nil
}
