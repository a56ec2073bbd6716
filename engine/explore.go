package main

// Exploration: a pool of workers re-executes harness paths under decision
// prefixes until every feasible path has been covered or a limit is reached.

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var verbose = os.Getenv("VERIF_VERBOSE") != ""
var dumpSlow = func() int { n, _ := strconv.Atoi(os.Getenv("VERIF_SLOW")); return n }()

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
func logv(f string, a ...any) {
	if verbose {
		logf(f, a...)
	}
}

type Config struct {
	Thorough  bool
	Workers   int
	Deadline  time.Time
	Limit     int64 // instructions per path
	SolverMs  int
	SolverBin []string
	CrossBin  []string
	CrossN    int
	Seed      int64
	Samples   int
	MaxViol   int
}

type assertStat struct {
	N       int64 `json:"evaluated"`
	Trivial int64 `json:"constant_true"`
}

type PathSample struct {
	Harness string
	Tape    []TapeEnt
	Obs     []string
}

// Run is the exploration of one harness function.
type Run struct {
	name string
	fn   *Func
	cfg  *Config
	p    *Program
	pool *Pool

	mu       sync.Mutex
	queue    []*WorkItem
	active   int
	viols    []*Violation
	vkeys    map[string]int
	ends     map[string]int64
	incom    map[string]int64
	asserts  map[string]*assertStat
	reach    map[string]int64
	samples  []*PathSample
	nsample  int64
	cover    map[*Func]bool
	decs     int64
	instrs   int64
	maxInstr int64
	inputs   int
	notes    map[string]bool
	rng      *rand.Rand
	started  time.Time
	ended    time.Time
	stop     atomic.Bool
	violN    int64
	deadline time.Time
}

func (r *Run) stopped() bool {
	return r.stop.Load()
}

func (r *Run) incomplete(msg string) {
	r.mu.Lock()
	r.incom[msg]++
	r.mu.Unlock()
}

func (r *Run) countAssert(label string, trivial bool) {
	r.mu.Lock()
	a := r.asserts[label]
	if a == nil {
		a = &assertStat{}
		r.asserts[label] = a
	}
	a.N++
	if trivial {
		a.Trivial++
	}
	r.mu.Unlock()
}

func (r *Run) violation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violN++
	if r.violN > 2000 {
		r.stop.Store(true)
	}
	k := v.Kind + "|" + v.Label
	if v.Kind == "panic" {
		k += v.Detail + "|" + v.Stack
	}
	r.vkeys[k]++
	if r.vkeys[k] > 3 {
		return
	}
	r.viols = append(r.viols, v)
	logv("  violation %s: %s %q %s [%s]", r.name, v.Kind, v.Label, v.Detail, v.Stack)
	if len(r.viols) >= r.cfg.MaxViol {
		r.stop.Store(true)
	}
}

type Pool struct {
	cfg     *Config
	p       *Program
	mu      sync.Mutex
	cond    *sync.Cond
	runs    []*Run
	pending int // items queued or running
	workers []*Worker
	closed  bool
}

type Worker struct {
	pool             *Pool
	id               int
	tt               *TT
	sol              *Solver
	run              *Run
	globals          map[*GlobalInfo]Value
	inits            map[*PkgInfo]bool
	uniq             map[string][]uniqEnt
	nat              map[*Struct]any
	natStd           map[*Struct]any
	cover            map[*Func]bool
	ev               *evaluator
	ev2              *evaluator
	ev3              *evaluator
	truths           map[uint32]*domSet
	stdEx            bool
	stats            SolverStats
	terms            int64
	nConfirm, nPaths int
}

var onceMark = &Struct{ti: &TypeInfo{kind: kStruct, agg: true}}

func (w *Worker) coverFn(f *Func) {
	if !w.cover[f] {
		w.cover[f] = true
	}
}

func (w *Worker) natObj(s *Struct, o any) { w.nat[s] = o }
func (w *Worker) natGet(s *Struct) any {
	if o := w.nat[s]; o != nil {
		return o
	}
	return w.natStd[s]
}

func (w *Worker) push(it *WorkItem) {
	r := w.run
	if r.stopped() {
		return
	}
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.mu.Unlock()
	w.pool.mu.Lock()
	w.pool.pending++
	w.pool.cond.Signal()
	w.pool.mu.Unlock()
}

func newPool(p *Program, cfg *Config) *Pool {
	pl := &Pool{cfg: cfg, p: p}
	pl.cond = sync.NewCond(&pl.mu)
	return pl
}

func (pl *Pool) add(name string, fn *Func) *Run {
	r := &Run{name: name, fn: fn, cfg: pl.cfg, p: pl.p, pool: pl, vkeys: map[string]int{}, ends: map[string]int64{}, incom: map[string]int64{},
		asserts: map[string]*assertStat{}, reach: map[string]int64{}, cover: map[*Func]bool{}, notes: map[string]bool{}, rng: rand.New(rand.NewSource(pl.cfg.Seed)), deadline: pl.cfg.Deadline}
	r.queue = []*WorkItem{{model: map[string]uint64{}}}
	pl.runs = append(pl.runs, r)
	pl.pending++
	return r
}

// next picks an item from the run with the fewest active workers.
func (pl *Pool) next() (*Run, *WorkItem) {
	pl.mu.Lock()
	defer pl.mu.Unlock()
	for {
		var best *Run
		for _, r := range pl.runs {
			r.mu.Lock()
			n := len(r.queue)
			r.mu.Unlock()
			if n > 0 && (best == nil || r.active < best.active) {
				best = r
			}
		}
		if best != nil {
			best.mu.Lock()
			it := best.queue[len(best.queue)-1]
			best.queue = best.queue[:len(best.queue)-1]
			if best.started.IsZero() {
				best.started = time.Now()
			}
			best.mu.Unlock()
			best.active++
			return best, it
		}
		if pl.pending == 0 {
			pl.cond.Broadcast()
			return nil, nil
		}
		pl.cond.Wait()
	}
}

func (pl *Pool) done(r *Run) {
	pl.mu.Lock()
	r.active--
	pl.pending--
	if r.stopped() {
		r.mu.Lock()
		pl.pending -= len(r.queue)
		r.queue = nil
		r.mu.Unlock()
	}
	r.ended = time.Now()
	if pl.pending == 0 {
		pl.cond.Broadcast()
	}
	pl.mu.Unlock()
}

func (pl *Pool) explore() {
	n := pl.cfg.Workers
	stopTimer := make(chan struct{})
	go func() {
		t := time.NewTicker(50 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopTimer:
				return
			case <-t.C:
				now := time.Now()
				for _, r := range pl.runs {
					if now.After(r.deadline) && !r.stopped() {
						r.mu.Lock()
						busy := len(r.queue) > 0 || r.active > 0
						r.mu.Unlock()
						if busy {
							r.incomplete("time budget used up before every path was explored")
							r.stop.Store(true)
							pl.mu.Lock()
							r.mu.Lock()
							pl.pending -= len(r.queue)
							r.queue = nil
							r.mu.Unlock()
							pl.cond.Broadcast()
							pl.mu.Unlock()
						}
					}
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		w := &Worker{pool: pl, id: i, cover: map[*Func]bool{}}
		w.reset()
		pl.workers = append(pl.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				r, it := pl.next()
				if r == nil {
					break
				}
				w.exec(r, it)
				pl.done(r)
			}
			w.stats.add(&w.sol.stats)
			w.sol.close()
		}()
	}
	wg.Wait()
	close(stopTimer)
}

func (w *Worker) reset() {
	if w.sol != nil {
		w.stats.add(&w.sol.stats)
		w.sol.close()
	}
	w.tt = newTT()
	w.ev, w.ev2, w.ev3 = newEvaluator(), newEvaluator(), newEvaluator()
	w.truths = map[uint32]*domSet{}
	w.sol = newSolver(w.tt, w.pool.cfg.SolverBin, w.pool.cfg.SolverMs)
	w.sol.crossBin = w.pool.cfg.CrossBin
	w.sol.crossN = w.pool.cfg.CrossN
	w.globals = map[*GlobalInfo]Value{}
	w.inits = map[*PkgInfo]bool{}
	w.uniq = map[string][]uniqEnt{}
	w.nat = map[*Struct]any{}
	w.natStd = map[*Struct]any{}
}

func (w *Worker) exec(r *Run, it *WorkItem) {
	if len(w.tt.terms) > 1_500_000 || len(w.sol.cache) > 400_000 {
		w.reset()
	}
	if w.run != r {
		w.nConfirm, w.nPaths = 0, 0
	}
	w.run = r
	clear(w.nat)
	ex := &Exec{w: w, p: r.p, tt: w.tt, sol: w.sol, ev: w.ev, known: map[uint32]bool{}, stated: map[uint32]bool{}, pd: pathDom{fixed: map[uint32]*Term{}, memo: map[uint32]*Term{}, dom: map[uint32]*domSet{}}, prefix: it.prefix, model: it.model,
		limit: r.cfg.Limit, globals: map[*GlobalInfo]Value{}, inits: map[*PkgInfo]bool{}, reach: map[string]bool{}, nativeV: map[string]any{}}
	if ex.model == nil {
		ex.model = map[string]uint64{}
	}
	ex.ev.reset()
	ex.regStack = make([]Value, 0, 1<<16)
	end := "done"
	msg := ""
	func() {
		defer func() {
			rec := recover()
			if rec == nil {
				return
			}
			switch e := rec.(type) {
			case pathEnd:
				end, msg = e.kind, e.msg
			case *targetPanic:
				end, msg = "panic", e.msg
				ex.stack = nil
				v := &Violation{Harness: r.name, Kind: "panic", Label: "no panic", Detail: e.msg, Tape: ex.tape(ex.model), Stack: e.stack, decs: len(ex.decs)}
				r.violation(v)
			case targetExit:
				end = "exit"
			default:
				end = "engine"
				msg = fmt.Sprintf("engine failure: %v @ %s", rec, ex.backtrace())
				logv("%s\n%s", msg, debug.Stack())
			}
		}()
		ex.callFn(r.fn, nil, nil)
	}()
	if len(ex.pend) > 0 && !ex.replaying() {
		func() {
			defer func() {
				if rec := recover(); rec != nil {
					if _, ok := rec.(pathEnd); ok {
						return
					}
					end, msg = "engine", fmt.Sprintf("engine failure: %v", rec)
				}
			}()
			ex.flush()
		}()
	}
	if end == "done" && !ex.failed {
		ex.confirmPath()
	}
	if ex.failed && end == "done" {
		end = "violation"
	}
	switch end {
	case "limit":
		r.violation(&Violation{Harness: r.name, Kind: "hang", Label: "terminates", Detail: fmt.Sprintf("no end after %d instructions", ex.limit), Tape: ex.tape(ex.model), Stack: ex.backtrace(), decs: len(ex.decs)})
	case "deadlock":
		r.violation(&Violation{Harness: r.name, Kind: "deadlock", Label: "does not block", Detail: msg, Tape: ex.tape(ex.model), Stack: ex.backtrace(), decs: len(ex.decs)})
	case "unsupported":
		r.incomplete("unsupported: " + msg)
	case "engine":
		r.incomplete(msg)
	case "done":
		if len(ex.decs) < len(ex.prefix) {
			r.incomplete("replay of a decision prefix diverged")
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ends[end]++
	r.decs += int64(len(ex.decs))
	r.instrs += ex.nInstr
	if ex.nInstr > r.maxInstr {
		r.maxInstr = ex.nInstr
	}
	if len(ex.inputs) > r.inputs {
		r.inputs = len(ex.inputs)
	}
	for k := range ex.reach {
		if end == "done" || end == "violation" {
			r.reach[k]++
		}
	}
	for _, s := range ex.soft {
		r.notes[s] = true
	}
	for f := range w.cover {
		r.cover[f] = true
	}
	clear(w.cover)
	if end == "done" && len(ex.viols) == 0 {
		r.nsample++
		if len(r.samples) < r.cfg.Samples {
			r.samples = append(r.samples, ex.sample())
		} else if k := r.rng.Int63n(r.nsample); k < int64(r.cfg.Samples) {
			r.samples[k] = ex.sample()
		}
	}
}

// pathConfirm is the number of complete paths of a harness each worker has the
// solver confirm; behind it every 64th is.
const pathConfirm = 100

// confirmPath has the solver confirm that values exist for the path just explored.
func (ex *Exec) confirmPath() {
	w := ex.w
	w.nPaths++
	if len(ex.raw) == 0 || w.nPaths > pathConfirm && w.nPaths%64 != 0 {
		return
	}
	all := tTrue
	for _, c := range ex.raw {
		all = ex.tt.And(all, c)
	}
	switch res, _ := ex.sol.Check(nil, all); res {
	case sat:
		w.stats.PathsSat++
	case unsat:
		w.run.incomplete("the solver refutes the condition of an explored path")
	}
}

func (ex *Exec) sample() *PathSample {
	s := &PathSample{Harness: ex.w.run.name, Tape: ex.tape(ex.model)}
	ev := ex.w.ev2
	ev.reset()
	for _, o := range ex.obs {
		var parts []string
		for _, v := range o.vals {
			parts = append(parts, renderObs(v.(*Iface), ev, ex.model))
		}
		s.Obs = append(s.Obs, o.label+"="+strings.Join(parts, ","))
	}
	return s
}

func evalStr(s *Str, ev *evaluator, m map[string]uint64) string {
	b := make([]byte, s.n)
	for i := range b {
		b[i] = byte(ev.eval(s.at(i), m))
	}
	return string(b)
}

func renderObs(v *Iface, ev *evaluator, m map[string]uint64) string {
	if v.t == nil {
		return "nil"
	}
	switch v.t.kind {
	case kBool:
		return strconv.FormatBool(ev.eval(v.v.(*Term), m) == 1)
	case kInt:
		u := ev.eval(v.v.(*Term), m)
		if v.t.signed {
			return strconv.FormatInt(sext64(u, v.t.w), 10)
		}
		return strconv.FormatUint(u, 10)
	case kFloat:
		f := math.Float64frombits(ev.eval(v.v.(*Term), m))
		return strconv.FormatFloat(f, 'g', -1, 64)
	case kString:
		return strconv.Quote(evalStr(v.v.(*Str), ev, m))
	case kSlice:
		var parts []string
		for _, e := range v.v.(Tuple) {
			iv, ok := e.(*Iface)
			if !ok {
				iv = &Iface{t: v.t.elem, v: e}
			}
			parts = append(parts, renderObs(iv, ev, m))
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	return "<" + v.t.t.String() + ">"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
