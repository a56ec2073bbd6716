package rt

// State of the simulated environment shared by the shims. Everything below runs
// as ordinary code under the engine.

// ---- background tasks: metis' go statements ----

var tasks []func()

// AutoRun makes a started goroutine run to completion at its start.
var AutoRun bool

// Go is what a go statement of the target becomes.
func Go(f func()) {
	if AutoRun {
		run(f)
		return
	}
	tasks = append(tasks, f)
}

// InTask tells how many background tasks are running (one inside another).
var InTask int

func run(f func()) {
	InTask++
	defer func() { InTask-- }()
	f()
}

// Tasks is the number of goroutines that have not run yet.
func Tasks() int { return len(tasks) }

// RunTasks runs every pending goroutine to completion.
func RunTasks() {
	for len(tasks) > 0 {
		f := tasks[0]
		tasks = tasks[1:]
		run(f)
	}
}

// DropTasks forgets pending goroutines (the process died).
func DropTasks() { tasks = nil }

// ---- clock ----

// Base is the wall clock second at the start; ClockSec and ClockMs are added.
var (
	Base     int64 = 1_700_000_000
	ClockSec int64
	ClockMs  int64 // 0..999
)

// ClockRead runs at each reading of the clock when set.
var ClockRead func()

// NowMs is the current time in milliseconds.
func NowMs() int64 { return (Base+ClockSec)*1000 + ClockMs }

// Tick advances the clock by whole seconds and milliseconds (ms concrete).
func Tick(sec, ms int64) {
	ClockMs += ms
	for ClockMs >= 1000 {
		ClockMs -= 1000
		ClockSec++
	}
	ClockSec += sec
}

// Unwinding is set while the event loop is suspended: effects of deferred
// calls that run then are not effects of the server.
var Unwinding bool

// Trace records environment operations.
var Trace []Op

// Op is one operation on the environment.
type Op struct {
	Kind string // write, fsync, send, bind, ...
	File string
	FD   int
	N    int
}

// TraceOn enables Trace.
var TraceOn bool

// Note appends to the trace.
func Note(kind, file string, fd, n int) {
	if TraceOn {
		Trace = append(Trace, Op{kind, file, fd, n})
	}
}

// Crash is the panic value of a simulated crash.
type Crash struct{}

// CrashIn counts down file operations until a simulated crash; 0 is off.
var CrashIn int

// OnOp, when set, runs before each file operation (not within another run of
// itself): what other goroutines and the clock do at that moment.
var OnOp func()

// OnWritten, when set, runs right after each write to a file, before the writer learns of it.
var OnWritten func()

// Written is called after each write.
func Written() {
	if OnWritten != nil && !inOp && !Unwinding {
		inOp = true
		defer func() { inOp = false }()
		OnWritten()
	}
}

var inOp bool

// FileOp is called before each file operation.
func FileOp() {
	if OnOp != nil && !inOp && !Unwinding {
		inOp = true
		defer func() { inOp = false }()
		OnOp()
	}
}

// CrashPoint is called before each file operation that changes state.
func CrashPoint() {
	FileOp()
	if CrashIn > 0 {
		CrashIn--
		if CrashIn == 0 {
			Unwinding = true
			panic(Crash{})
		}
	}
}
