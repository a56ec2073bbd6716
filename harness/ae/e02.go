package ae

import (
	"syscall"

	"github.com/IfanTsai/metis/socket"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vSlot is a descriptor and direction with its current handler, numbered by generation (0: none).
type vSlot struct {
	fd  socket.FD
	dir TypeFileEvent
	bit uint32
	gen int
}

type vReactor struct {
	el    *EventLoop
	slots []*vSlot
	gens  int
	// per iteration
	ready   []bool // reported for the slot
	old     []int  // handler at the time of the report
	ran     []int  // runs of the slot in this iteration
	removed []bool
	acts    int
	shared  *int // the client data of all handlers, if not their own
}

func vNewReactor(fds ...int) *vReactor {
	el, err := NewEventLoop()
	rt.Assert(err == nil, "an event loop is created")
	r := &vReactor{el: el}
	for _, fd := range fds {
		vsyscall.Table[fd] = &vsyscall.File{Kind: "conn", FD: fd}
		r.slots = append(r.slots, &vSlot{fd: socket.FD(fd), dir: TypeFileEventReadable, bit: syscall.EPOLLIN}, &vSlot{fd: socket.FD(fd), dir: TypeFileEventWritable, bit: syscall.EPOLLOUT})
	}
	n := len(r.slots)
	r.ready, r.old, r.ran, r.removed = make([]bool, n), make([]int, n), make([]int, n), make([]bool, n)
	return r
}

func (r *vReactor) add(i int) {
	s := r.slots[i]
	r.gens++
	gen := r.gens
	data := &gen
	if r.shared != nil {
		data = r.shared
	}
	err := r.el.AddFileEvent(s.fd, s.dir, func(el *EventLoop, fd socket.FD, cd any) {
		rt.Assert(el == r.el, "a handler gets its event loop")
		rt.Assert(fd == s.fd, "a handler gets its own descriptor")
		rt.Assert(cd == any(data), "a handler gets its own client data")
		rt.Assert(s.gen == gen, "a handler that was removed does not run")
		rt.Assert(r.ready[i], "a handler runs only for a direction reported ready")
		r.ran[i]++
		rt.Assert(r.ran[i] == 1, "a handler runs once for an event")
		r.act(i)
	}, data)
	rt.Assert(err == nil, "a handler is registered")
	s.gen = gen
}

func (r *vReactor) remove(i int) {
	rt.Assert(r.el.RemoveFileEvent(r.slots[i].fd, r.slots[i].dir) == nil, "a handler is removed")
	r.slots[i].gen = 0
	r.removed[i] = true
}

// act is what a handler does: nothing, or remove, replace or add a handler of any slot, or close the other descriptor.
func (r *vReactor) act(i int) {
	if r.acts == 0 {
		return
	}
	r.acts--
	what := rt.Choose("action", 4)
	if what == 0 {
		return
	}
	if what == 3 {
		fd := r.slots[i].fd
		for j, s := range r.slots {
			if s.fd != fd && s.gen != 0 {
				r.remove(j)
			}
		}
		return
	}
	j := rt.Choose("target", len(r.slots))
	if r.slots[j].gen != 0 {
		r.remove(j)
		if what == 2 {
			r.add(j)
		}
	} else {
		r.add(j)
	}
}

// run lets the event loop do n iterations with arbitrary ready events; before each one the harness may run f.
func (r *vReactor) run(n int) {
	it := 0
	check := func() {
		for i := range r.slots {
			if r.ready[i] && r.old[i] != 0 && !r.removed[i] {
				rt.Assert(r.ran[i] == 1, "every reported event with a handler is delivered")
			}
		}
	}
	vsyscall.Wakes = n + 1
	vsyscall.Select = func(got []syscall.EpollEvent) []syscall.EpollEvent {
		if it > 0 {
			check()
		}
		if it == n {
			r.el.Stop()
			return nil
		}
		it++
		for i, s := range r.slots {
			r.ready[i], r.old[i], r.ran[i], r.removed[i] = false, s.gen, 0, false
		}
		var out []syscall.EpollEvent
		for i := 0; i < len(r.slots); i += 2 {
			var want, ev uint32
			for j := i; j < i+2; j++ {
				if r.slots[j].gen != 0 {
					want |= r.slots[j].bit
				}
			}
			if want == 0 {
				continue
			}
			for j := i; j < i+2; j++ {
				if r.slots[j].gen != 0 && rt.Choose("ready", 2) == 1 {
					ev |= r.slots[j].bit
					r.ready[j] = true
				}
			}
			if ev == 0 {
				continue
			}
			e := syscall.EpollEvent{Events: ev, Fd: int32(r.slots[i].fd)}
			if rt.Choose("hangup", 2) == 1 {
				e.Events |= syscall.EPOLLHUP | syscall.EPOLLERR
			}
			if len(out) > 0 && rt.Choose("order", 2) == 1 {
				out = append([]syscall.EpollEvent{e}, out...)
			} else {
				out = append(out, e)
			}
		}
		return out
	}
	rt.Assert(r.el.Main() == nil, "the event loop ends without error")
	vsyscall.Select = nil
}

// 2 descriptors with any handlers, any ready directions in any order (with or without a hangup flag), the first 2 handlers invoked each removing, replacing or adding a handler of any slot or all of the other descriptor; 1 iteration (thorough: 2)
func VH_E02_two() {
	r := vNewReactor(5, 6)
	for i := range r.slots {
		if rt.Choose("registered", 2) == 1 {
			r.add(i)
		}
	}
	r.acts = 2
	n := 1
	if rt.Thorough() {
		n = 2
	}
	r.run(n)
	rt.Reach("end")
}

// 2 iterations: 2 descriptors, handlers on three slots, one action in any invocation
func VH_E02_iterations() {
	r := vNewReactor(5, 6)
	r.add(0)
	r.add(1)
	r.add(2)
	r.acts = 1
	r.run(2)
	rt.Reach("end")
}

// 3 descriptors with readable handlers, any ready in any order, 2 actions
func VH_E02_three() {
	r := vNewReactor(5, 6, 1<<16+5)
	for i := 0; i < len(r.slots); i += 2 {
		r.add(i)
	}
	r.acts = 2
	r.run(1)
	rt.Reach("end")
}

// a timer of the same iteration removing, replacing or adding a handler of a ready descriptor
func VH_E02_timer() {
	r := vNewReactor(5, 6)
	for i := range r.slots {
		if rt.Choose("registered", 2) == 1 {
			r.add(i)
		}
	}
	_ = r.el.AddTimeEvent(TypeTimeEventOnce, 0, func(*EventLoop, int64, any) {
		r.acts++
		r.act(0)
	}, nil)
	r.run(1)
	rt.Reach("end")
}

// 2 descriptors with readable handlers and one writable one, all with the same client data, 2 actions
func VH_E02_data() {
	r := vNewReactor(5, 6)
	r.shared = new(int)
	r.add(0)
	r.add(1)
	r.add(2)
	r.acts = 2
	r.run(1)
	rt.Reach("end")
}
