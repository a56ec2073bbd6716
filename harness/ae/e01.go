package ae

import (
	"syscall"

	"github.com/IfanTsai/metis/socket"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vInterest checks sequences of n registrations and removals on the given descriptors.
func vInterest(n int, fds []int, faults bool) {
	el, err := NewEventLoop()
	rt.Assert(err == nil, "an event loop is created")
	for _, fd := range fds {
		vsyscall.Table[fd] = &vsyscall.File{Kind: "conn", FD: fd}
	}
	nop := func(*EventLoop, socket.FD, any) {}
	masks := []TypeFileEvent{TypeFileEventReadable, TypeFileEventWritable}
	bits := []uint32{syscall.EPOLLIN, syscall.EPOLLOUT}
	want := make([]uint32, len(fds))
	for i := 0; i < n; i++ {
		k, d := rt.Choose("descriptor", len(fds)), rt.Choose("direction", 2)
		add := rt.Choose("operation", 2) == 0
		refuse := faults && rt.Choose("refused", 2) == 1
		asked := false
		vsyscall.Fail = func(call string) syscall.Errno {
			if call == "epoll_ctl" {
				asked = true
				if refuse {
					return syscall.ENOMEM
				}
			}
			return 0
		}
		var err error
		if add {
			err = el.AddFileEvent(socket.FD(fds[k]), masks[d], nop, nil)
		} else {
			err = el.RemoveFileEvent(socket.FD(fds[k]), masks[d])
		}
		vsyscall.Fail = nil
		has := want[k]&bits[d] != 0
		switch {
		case add == has:
			rt.Assert(err != nil, "registering twice or removing an unregistered handler fails")
		case refuse && asked:
			rt.Assert(err != nil, "what the kernel refuses fails")
		default:
			rt.Assert(err == nil, "a valid registration or removal succeeds")
			want[k] ^= bits[d]
		}
		for j, fd := range fds {
			rt.Assert(vsyscall.Interest(fd) == want[j], "the kernel watches exactly the registered events")
		}
	}
	rt.Reach("end")
}

// 4 (thorough: 6) registrations and removals on 2 descriptors, arbitrary numbers from 4 to 2^31-1, and both directions
func VH_E01_descriptors() {
	a, b := rt.Int("a", 4, 1<<31-1), rt.Int("b", 4, 1<<31-1)
	rt.Assume(a != b)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	vInterest(n, []int{a, b}, false)
}

// 4 (thorough: 5) registrations and removals on 2 descriptors, any of which the kernel may refuse
func VH_E01_refused() {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	vInterest(n, []int{7, 1 << 16}, true)
}

// 3 (thorough: 4) registrations and removals on 3 descriptors
func VH_E01_three() {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	vInterest(n, []int{4, 5, 1<<16 + 4}, false)
}
