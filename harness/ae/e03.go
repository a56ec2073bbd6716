package ae

import (
	"syscall"

	"github.com/IfanTsai/metis/socket"
	rt "github.com/IfanTsai/metis/verif/rt"
	"github.com/IfanTsai/metis/verif/vsyscall"
)

// vTimer is what is known of a timer.
type vTimer struct {
	mask     TypeTimeEvent
	interval int64
	id       int64
	started  int64 // registration or begin of the latest run
	ended    int64 // registration or end of the latest run
	runs     int
	gone     bool
	inIter   int // runs in this iteration
	action   int
	due      bool // due and not removed when the wait returned
}

type vClock struct {
	el     *EventLoop
	timers []*vTimer
	ms     int
	acts   int
}

// pass lets an arbitrary time go by: the clock stays within one second of arbitrary milliseconds.
func (w *vClock) pass(hi int) {
	t := rt.Int("clock", 0, 999)
	rt.Assume(rt.And(t >= w.ms, t <= w.ms+hi))
	w.ms = t
	rt.ClockMs = int64(t)
}

func (w *vClock) add(mask TypeTimeEvent, interval int64) {
	t := &vTimer{mask: mask, interval: interval, id: -1, started: rt.NowMs(), ended: rt.NowMs()}
	w.timers = append(w.timers, t)
	data := &t.runs
	err := w.el.AddTimeEvent(mask, interval, func(el *EventLoop, id int64, cd any) {
		rt.Assert(el == w.el && cd == any(data), "a timer's handler gets its event loop and client data")
		rt.Assert(!t.gone, "a removed timer or a one-shot timer that ran does not run")
		rt.Assert(rt.NowMs() >= t.started+t.interval, "a timer does not run before its interval has passed")
		for _, o := range w.timers {
			rt.Assert(o == t || o.id != id, "timer ids are unique")
		}
		rt.Assert(t.id == -1 || t.id == id, "a timer keeps its id")
		t.id = id
		t.runs++
		t.inIter++
		rt.Assert(t.inIter == 1, "a timer runs once in an iteration")
		t.started = rt.NowMs()
		w.act(t)
		t.ended = rt.NowMs()
		if mask == TypeTimeEventOnce {
			t.gone = true
		}
	}, data)
	rt.Assert(err == nil, "a timer is registered")
}

// act is what a handler does: it takes time, removes itself or another timer, or adds one.
func (w *vClock) act(t *vTimer) {
	if w.acts == 0 {
		return
	}
	w.acts--
	switch rt.Choose("action", 5) {
	case 1:
		w.pass(200)
	case 2:
		rt.Assert(w.el.RemoveTimeEvent(t.id) == nil, "a handler removes its own timer")
		t.gone = true
	case 3:
		o := w.timers[rt.Choose("target", len(w.timers))]
		if o.id == -1 || o == t {
			return
		}
		w.drop(o)
	case 4:
		w.add(TypeTimeEventOnce, int64(rt.Int("interval", 0, 300)))
	}
}

// drop removes a timer whose id is known.
func (w *vClock) drop(o *vTimer) {
	err := w.el.RemoveTimeEvent(o.id)
	rt.Assert((err != nil) == o.gone, "removing succeeds exactly for a timer that is registered")
	o.gone = true
}

// run lets the event loop do n iterations, an arbitrary time of up to hi ms passing in each wait.
func (w *vClock) run(n, hi int) {
	it := 0
	pipe := &vsyscall.File{Kind: "conn", FD: 9, NotReady: true}
	vsyscall.Table[9] = pipe
	files := 0
	_ = w.el.AddFileEvent(socket.FD(9), TypeFileEventReadable, func(*EventLoop, socket.FD, any) { files++ }, nil)
	vsyscall.Wakes = n + 1
	vsyscall.Select = func([]syscall.EpollEvent) []syscall.EpollEvent {
		if it > 0 {
			for _, t := range w.timers {
				if t.due {
					rt.Assert(rt.Or(t.inIter == 1, t.gone), "a timer that is due runs in the iteration")
				}
			}
		}
		if it == n {
			// the iteration under way still runs its timers
			for _, t := range w.timers {
				t.inIter = 0
			}
			w.el.Stop()
			return nil
		}
		it++
		wait := int64(vsyscall.Timeouts[len(vsyscall.Timeouts)-1])
		for _, t := range w.timers {
			if !t.gone {
				left := t.ended + t.interval - rt.NowMs()
				rt.Assert(rt.And(wait >= 0, rt.Or(wait <= 10, wait <= left+10)), "a wait never outlasts a due timer by more than 10 ms")
			}
		}
		w.pass(hi)
		for _, t := range w.timers {
			t.inIter = 0
			t.due = !t.gone && rt.SplitBool(rt.NowMs() >= t.ended+t.interval)
		}
		if it == 1 && rt.Choose("a file event too", 2) == 1 {
			return []syscall.EpollEvent{{Events: syscall.EPOLLIN, Fd: 9}}
		}
		return nil
	}
	rt.Assert(w.el.Main() == nil, "the event loop ends without error")
	vsyscall.Select = nil
}

func vNewClock() *vClock {
	el, err := NewEventLoop()
	rt.Assert(err == nil, "an event loop is created")
	w := &vClock{el: el}
	w.pass(999)
	return w
}

func vMask() TypeTimeEvent {
	return []TypeTimeEvent{TypeTimeEventNormal, TypeTimeEventOnce}[rt.Choose("kind", 2)]
}

// 2 timers of any kind with any intervals of 0..300 ms, registered at any moments, any time passing in each of 3 waits (thorough: 4); no timer changed by a handler
func VH_E03_clock() {
	w := vNewClock()
	w.add(vMask(), int64(rt.Int("interval", 0, 300)))
	w.pass(50)
	w.add(vMask(), int64(rt.Int("interval", 0, 300)))
	n := 3
	if rt.Thorough() {
		n = 4
	}
	w.run(n, 500)
	rt.Reach("end")
}

// 2 timers, intervals 0..300 ms, 3 iterations; the first 2 handler runs each take time, remove their own or another timer or add a one-shot timer
func VH_E03_actions() {
	w := vNewClock()
	w.add(vMask(), int64(rt.Int("interval", 0, 300)))
	w.add(vMask(), int64([]int{0, 100}[rt.Choose("second interval", 2)]))
	w.acts = 2
	w.run(2, 500)
	rt.Reach("end")
}

// 3 timers of any kind that are all due, 2 iterations; the first 3 handler runs act
func VH_E03_due() {
	w := vNewClock()
	for i := 0; i < 3; i++ {
		w.add(vMask(), 0)
	}
	w.acts = 3
	w.run(2, 5)
	rt.Reach("end")
}

// a timer removed, an unknown one removed, between iterations; intervals up to 2^40 ms
func VH_E03_remove() {
	w := vNewClock()
	w.add(TypeTimeEventNormal, 0)
	w.add(TypeTimeEventNormal, int64(rt.Int("interval", 0, 1<<40)))
	w.run(1, 300)
	for _, t := range w.timers {
		if t.id != -1 && rt.Choose("remove", 2) == 1 {
			w.drop(t)
			w.drop(t)
		}
	}
	rt.Assert(w.el.RemoveTimeEvent(int64(rt.Int("unknown", 2, 1<<40))) != nil, "removing an unknown timer fails")
	vsyscall.Select = nil
	rt.Reach("end")
}

// one timer with an interval of up to 2^40 ms, any time passing in each of 2 waits: it runs when it is due, not before
func VH_E03_long() {
	w := vNewClock()
	w.add(vMask(), int64(rt.Int("interval", 0, 1<<40)))
	w.run(2, 1<<41)
	rt.Reach("end")
}
