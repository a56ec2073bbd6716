package main

// SMT back end: one incremental solver process per worker, independence
// slicing, and a result cache.

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

type SolverStats struct {
	Queries   int64 // queries sent to the solver process
	Cached    int64
	Domain    int64 // single-variable conditions decided by domain propagation
	DomOK     int64 // refutations by domain confirmed by the solver
	DomBad    int64
	PathsSat  int64 // complete paths whose condition the solver confirmed satisfiable
	Sat       int64
	Unsat     int64
	Unknown   int64
	TimeNs    int64
	MaxNs     int64
	Errors    int64
	CrossDone int64 // unsat answers re-checked with the second solver
	CrossBad  int64
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.Cached += o.Cached
	s.Domain += o.Domain
	s.DomOK += o.DomOK
	s.DomBad += o.DomBad
	s.PathsSat += o.PathsSat
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.TimeNs += o.TimeNs
	s.Errors += o.Errors
	s.CrossDone += o.CrossDone
	s.CrossBad += o.CrossBad
	if o.MaxNs > s.MaxNs {
		s.MaxNs = o.MaxNs
	}
}

type cacheEnt struct {
	res satRes
	m   map[string]uint64
}

type Solver struct {
	tt       *TT
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	buf      strings.Builder
	cache    map[string]cacheEnt
	stats    SolverStats
	timeout  int // ms
	bin      []string
	dead     bool
	crossN   int
	crossBin []string
	bit      uint8   // which process: definitions are tracked per process
	fp       *Solver // second process, for queries with floating-point terms
}

func newSolver(tt *TT, bin []string, timeoutMs int) *Solver {
	s := &Solver{tt: tt, cache: map[string]cacheEnt{}, timeout: timeoutMs, bin: bin, bit: 1}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.buf.Reset()
	for _, t := range s.tt.terms {
		if t != nil {
			t.smt &^= s.bit
		}
	}
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(&s.buf, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout)
		if s.bit == 1 {
			s.buf.WriteString("(set-logic QF_BV)\n")
		}
	} else {
		fmt.Fprintf(&s.buf, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic ALL)\n")
	}
	s.dead = false
}

func (s *Solver) close() {
	if s.fp != nil {
		s.stats.add(&s.fp.stats)
		s.fp.close()
		s.fp = nil
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	fp := s.fp
	s.fp = nil
	s.close()
	s.fp = fp
	s.start()
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	}
	if t.op == OpVar {
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor",
	OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle", OpConcat: "concat",
}

// declareVar declares a variable with just the bits its upper bound needs.
func declareVar(sb *strings.Builder, x *Term) {
	if n := bits.Len64(x.hi); x.w > 0 && n < int(x.w) && n > 0 {
		fmt.Fprintf(sb, "(declare-const r%s (_ BitVec %d))\n(define-fun %s () %s ((_ zero_extend %d) r%s))\n", ref(x), n, ref(x), sortStr(x.w), int(x.w)-n, ref(x))
		return
	}
	fmt.Fprintf(sb, "(declare-const %s %s)\n", ref(x), sortStr(x.w))
}

// define emits definitions for t and everything below it.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.smt&s.bit != 0 {
		return
	}
	// iterative post-order to keep the Go stack small
	type fr struct {
		t    *Term
		done bool
	}
	st := []fr{{t, false}}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		x := f.t
		if x == nil || x.op == OpConst || x.smt&s.bit != 0 {
			continue
		}
		if !f.done && x.op != OpVar {
			st = append(st, fr{x, true}, fr{x.a, false}, fr{x.b, false}, fr{x.c, false})
			continue
		}
		x.smt |= s.bit
		if x.op == OpVar {
			declareVar(&s.buf, x)
			continue
		}
		s.buf.WriteString("(define-fun ")
		s.buf.WriteString(ref(x))
		s.buf.WriteString(" () ")
		s.buf.WriteString(sortStr(x.w))
		s.buf.WriteString(" ")
		s.buf.WriteString(s.expr(x))
		s.buf.WriteString(")\n")
	}
}

func fpOf(t *Term) string {
	if t.w == 32 {
		return "((_ to_fp 8 24) " + ref(t) + ")"
	}
	return "((_ to_fp 11 53) " + ref(t) + ")"
}

func (s *Solver) expr(x *Term) string {
	switch x.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.w-x.a.w, ref(x.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.w-x.a.w, ref(x.a))
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", x.val>>8&0xff, x.val&0xff, ref(x.a))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[x.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, fpOf(x.a), fpOf(x.b))
	case OpSToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", ref(x.a))
	case OpUToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", ref(x.a))
	case OpFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", x.w, fpOf(x.a))
	case OpFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", x.w, fpOf(x.a))
	case OpF64To32:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 8 24) RNE %s))", fpOf(x.a))
	case OpF32To64:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", fpOf(x.a))
	}
	n, ok := opNames[x.op]
	if !ok {
		panic(fmt.Sprintf("no SMT name for op %d", x.op))
	}
	r := "(" + n + " " + ref(x.a)
	if x.b != nil {
		r += " " + ref(x.b)
	}
	if x.c != nil {
		r += " " + ref(x.c)
	}
	return r + ")"
}

func rangeConstraint(tt *TT, v *Term) []*Term {
	var out []*Term
	if v.w == 0 {
		return nil
	}
	if v.lo > 0 {
		out = append(out, tt.mk(OpULe, 0, 0, K(v.w, v.lo), v, nil))
	}
	if v.hi < mask(uint8(bits.Len64(v.hi))) || v.hi == 0 && v.w > 0 {
		out = append(out, tt.mk(OpULe, 0, 0, v, K(v.w, v.hi), nil))
	}
	return out
}

// slice returns the constraints connected to cond through shared variables.
func (s *Solver) slice(pc []*Term, cond *Term) []*Term {
	need := map[uint32]bool{}
	for _, v := range s.tt.varSet(cond) {
		need[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			vs := s.tt.varSet(c)
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// Check decides pc ∧ cond. On sat it returns values for the variables of the slice.
func (s *Solver) Check(pc []*Term, cond *Term) (satRes, map[string]uint64) {
	if cond.isConst() {
		if cond.val == 0 {
			return unsat, nil
		}
		return sat, nil
	}
	cs := s.slice(pc, cond)
	ids := make([]int, 0, len(cs)+1)
	for _, c := range cs {
		ids = append(ids, int(c.id))
	}
	ids = append(ids, int(cond.id))
	sort.Ints(ids)
	var kb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.stats.Cached++
		return e.res, e.m
	}
	q := s
	if s.hasFP(cs, cond) {
		if s.fp == nil {
			s.fp = &Solver{tt: s.tt, timeout: s.timeout, bin: s.bin, bit: 2}
			s.fp.start()
		}
		q = s.fp
	}
	res, m := q.query(append(cs, cond))
	s.cache[key] = cacheEnt{res, m}
	if res == unsat && s.crossN > 0 && s.stats.Unsat%int64(s.crossN) == 1 {
		s.crossCheck(append(cs, cond))
	}
	return res, m
}

func (s *Solver) hasFP(cs []*Term, cond *Term) bool {
	if cond.fp {
		return true
	}
	for _, c := range cs {
		if c.fp {
			return true
		}
	}
	return false
}

func (s *Solver) query(cs []*Term) (satRes, map[string]uint64) {
	t0 := time.Now()
	var vars []uint32
	for _, c := range cs {
		vars = mergeU32(vars, s.tt.varSet(c))
		s.define(c)
	}
	var rcs []*Term
	for _, v := range vars {
		vt := s.tt.terms[v]
		s.define(vt)
		rcs = append(rcs, rangeConstraint(s.tt, vt)...)
	}
	for _, c := range rcs {
		s.define(c)
	}
	s.buf.WriteString("(push 1)\n")
	for _, c := range rcs {
		s.buf.WriteString("(assert " + ref(c) + ")\n")
	}
	for _, c := range cs {
		s.buf.WriteString("(assert " + ref(c) + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	s.stats.Queries++
	ans := s.readLine()
	var res satRes
	var m map[string]uint64
	switch ans {
	case "sat":
		res = sat
		s.stats.Sat++
		m = map[string]uint64{}
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(ref(s.tt.terms[v]) + " ")
			}
			s.buf.WriteString("))\n")
			s.flush()
			txt := s.readSexp()
			s.parseValues(txt, vars, m)
		}
		s.buf.WriteString("(pop 1)\n")
	case "unsat":
		res = unsat
		s.stats.Unsat++
		s.buf.WriteString("(pop 1)\n")
	default:
		if strings.HasPrefix(ans, "(error") {
			s.stats.Errors++
			logf("solver error: %s", ans)
		}
		res = unknown
		s.stats.Unknown++
		s.restart()
	}
	d := time.Since(t0).Nanoseconds()
	s.stats.TimeNs += d
	if d > s.stats.MaxNs {
		s.stats.MaxNs = d
	}
	if dumpSlow > 0 && d > int64(dumpSlow)*1e6 {
		if os.Getenv("VERIF_DUMP") != "" {
			for _, c := range cs {
				logf("   %s", s.show(c, 12))
			}
		}
		logf("slow query %dms %v: %d constraints, %d vars, cond size %d", d/1e6, ans, len(cs), len(vars), cs[len(cs)-1].size)
	}
	return res, m
}

func (s *Solver) flush() {
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
	}
	s.buf.Reset()
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "(error \"solver died: " + err.Error() + "\")"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		sb.WriteString(l)
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
				started = true
			} else if l[i] == ')' {
				depth--
			}
		}
		if started && depth <= 0 {
			return sb.String()
		}
	}
}

func (s *Solver) parseValues(txt string, vars []uint32, m map[string]uint64) {
	byRef := map[string]*Term{}
	for _, v := range vars {
		byRef[ref(s.tt.terms[v])] = s.tt.terms[v]
	}
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i < len(toks); i++ {
		t, ok := byRef[toks[i]]
		if !ok {
			continue
		}
		i++
		if i >= len(toks) {
			break
		}
		v := toks[i]
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_":
			i++
			u, _ = strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			i++
		}
		m[t.name] = u
	}
}

// crossCheck asks a second solver about constraints the first one refuted.
func (s *Solver) crossCheck(cs []*Term) {
	if len(s.crossBin) == 0 {
		return
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var vars []uint32
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		def(t.a)
		def(t.b)
		def(t.c)
		if t.op == OpVar {
			declareVar(&sb, t)
			return
		}
		if fpTerm(t) {
			return
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", ref(t), sortStr(t.w), s.expr(t))
	}
	for _, c := range cs {
		vars = mergeU32(vars, s.tt.varSet(c))
		def(c)
	}
	all := append([]*Term(nil), cs...)
	for _, v := range vars {
		for _, c := range rangeConstraint(s.tt, s.tt.terms[v]) {
			def(c)
			all = append(all, c)
		}
	}
	for t := range seen {
		if fpTerm(t) {
			return // to_ieee_bv is a z3 extension
		}
	}
	for _, c := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(c))
	}
	sb.WriteString("(check-sat)\n")
	cmd := exec.Command(s.crossBin[0], s.crossBin[1:]...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, err := cmd.Output()
	a := strings.TrimSpace(string(out))
	if err != nil && a == "" {
		return
	}
	switch a {
	case "unsat":
		s.stats.CrossDone++
	case "sat":
		s.stats.CrossDone++
		s.stats.CrossBad++
		logf("solver disagreement on a query of %d constraints", len(cs))
	}
}

func fpTerm(t *Term) bool {
	switch t.op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpSToF, OpUToF, OpFToS, OpFToU, OpF64To32, OpF32To64:
		return true
	}
	return false
}

// show writes a term out, for looking at slow queries.
func (s *Solver) show(t *Term, depth int) string {
	switch {
	case t == nil:
		return ""
	case t.op == OpVar:
		return t.name
	case t.isConst():
		return fmt.Sprintf("%d:%d", int64(t.val), t.w)
	case depth == 0:
		return fmt.Sprintf("...%d", t.size)
	}
	n, ok := opNames[t.op]
	if !ok {
		n = fmt.Sprintf("op%d:%d", t.op, t.w)
		if t.op == OpExtract {
			n = fmt.Sprintf("ext[%d:%d]", t.val>>8, t.val&255)
		}
	}
	r := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + s.show(x, depth-1)
		}
	}
	return r + ")"
}
