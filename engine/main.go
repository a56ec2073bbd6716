package main

// Command line: one invocation decides one property.

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type harnessInfo struct {
	name string
	dir  string // package directory below the repository
	file string
	doc  string
}

var reHarness = regexp.MustCompile(`(?m)((?:^//[^\n]*\n)*)^func (VH_([A-Z]\d\d)_([A-Za-z0-9_]+))\(\)`)

// collect finds the harness functions of a property and the files they need.
func collect(verif, prop, only string, thorough bool) ([]harnessInfo, []HarnessFile, string, error) {
	root := filepath.Join(verif, "harness")
	var hs []harnessInfo
	var files []HarnessFile
	dirs := map[string]bool{}
	var all []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			all = append(all, p)
		}
		return nil
	})
	sort.Strings(all)
	virtual := func(p string) (string, string) {
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		return dir, filepath.Join(dir, "zz_verif_"+filepath.Base(rel))
	}
	for _, p := range all {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, nil, "", err
		}
		use := false
		for _, m := range reHarness.FindAllStringSubmatch(string(b), -1) {
			if m[3] != prop {
				continue
			}
			use = true
			if strings.HasPrefix(m[4], "T_") && !thorough {
				continue
			}
			if only != "" && !strings.Contains(m[2], only) {
				continue
			}
			d, _ := virtual(p)
			hs = append(hs, harnessInfo{name: m[2], dir: d, file: p, doc: docOf(m[1])})
		}
		if use {
			d, v := virtual(p)
			dirs[d] = true
			files = append(files, HarnessFile{p, v})
		}
	}
	for _, p := range all {
		d, v := virtual(p)
		if dirs[d] && strings.HasPrefix(filepath.Base(p), "common") {
			files = append(files, HarnessFile{p, v})
		}
	}
	if len(hs) == 0 {
		return nil, nil, "", fmt.Errorf("no harness for property %s", prop)
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\trt \"" + rtPath + "\"\n")
	var ds []string
	seen := map[string]bool{}
	for _, h := range hs {
		if !seen[h.dir] {
			seen[h.dir] = true
			ds = append(ds, h.dir)
		}
	}
	for i, d := range ds {
		fmt.Fprintf(&sb, "\th%d %q\n", i, modPath+"/"+d)
	}
	sb.WriteString(")\n\nfunc main() {\n\trt.Main(map[string]func(){\n")
	for _, h := range hs {
		for i, d := range ds {
			if d == h.dir {
				fmt.Fprintf(&sb, "\t\t%q: h%d.%s,\n", h.name, i, h.name)
			}
		}
	}
	sb.WriteString("\t})\n}\n")
	return hs, files, sb.String(), nil
}

func docOf(c string) string {
	var out []string
	for _, l := range strings.Split(c, "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//"))
		if l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, " ")
}

type buildResult struct {
	bin string
	err error
}

func nativeBuild(repo string, p *Program) buildResult {
	bin := filepath.Join(p.overlayDir, "vmain.bin")
	cmd := exec.Command("go", "build", "-overlay", p.overlayJSON, "-modfile="+p.modfile, "-o", bin, modPath+"/verif/vmain")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return buildResult{"", fmt.Errorf("native build: %v\n%s", err, out)}
	}
	return buildResult{bin, nil}
}

type replayOut struct {
	obs     []string
	failed  string // label of a failed assertion
	panicM  string
	timeout bool
	assume  bool
	oom     bool
	text    string
}

func replay(bin, harness string, tape []TapeEnt, dir string, thorough bool, timeout time.Duration) (*replayOut, string) {
	f, err := os.CreateTemp(dir, "tape-*.json")
	if err != nil {
		return nil, ""
	}
	js, _ := json.Marshal(map[string]any{"harness": harness, "tape": tape, "thorough": thorough})
	f.Write(js)
	f.Close()
	defer os.Remove(f.Name())
	return replayFile(bin, f.Name(), dir, timeout), f.Name()
}

func replayFile(bin, file, dir string, timeout time.Duration) *replayOut {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 12000000; exec \"$0\" \"$1\"", bin, file)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	out, err := cmd.CombinedOutput()
	r := &replayOut{text: string(out)}
	if ctx.Err() != nil {
		r.timeout = true
	}
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "OBS "):
			r.obs = append(r.obs, l[4:])
		case strings.HasPrefix(l, "ASSERT-FAIL "):
			r.failed = l[12:]
		case strings.HasPrefix(l, "ASSUME-FAIL"):
			r.assume = true
		case strings.HasPrefix(l, "panic: ") && r.panicM == "":
			r.panicM = l[7:]
		case strings.HasPrefix(l, "fatal error: "):
			m := l[13:]
			if strings.Contains(m, "out of memory") || strings.Contains(m, "cannot allocate") {
				r.oom = true
			}
			if r.panicM == "" {
				r.panicM = "fatal: " + m
			}
		}
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !r.timeout {
		r.panicM = ""
	}
	return r
}

func reproduces(v *Violation, r *replayOut) bool {
	if r == nil || r.assume {
		return false
	}
	switch v.Kind {
	case "assert":
		return r.failed != "" || r.panicM != "" || r.timeout || r.oom
	case "panic":
		return r.panicM != "" || r.failed != ""
	case "hang":
		return r.timeout || r.panicM != "" || r.oom
	case "deadlock":
		return r.timeout || strings.Contains(r.panicM, "deadlock") || r.panicM != ""
	}
	return false
}

type knownFinding struct {
	prop, harness, label, what string
}

func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := knownFinding{}
		parts := strings.SplitN(l[7:], " | ", 2)
		if len(parts) == 2 {
			k.what = parts[1]
		}
		for _, f := range strings.Fields(parts[0]) {
			kv := strings.SplitN(f, "=", 2)
			if len(kv) != 2 {
				continue
			}
			v := strings.ReplaceAll(kv[1], "_", " ")
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "harness":
				k.harness = kv[1]
			case "label":
				k.label = v
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	only := flag.String("only", "", "substring of harness names")
	tier := flag.String("tier", "", "quick or thorough")
	replayOf := flag.String("replay", "", "replay file to run natively")
	workers := flag.Int("workers", 0, "workers")
	budget := flag.Int("budget", 0, "time budget for exploration in seconds")
	noEv := flag.Bool("noevidence", false, "do not write evidence")
	nsamp := flag.Int("samples", 0, "native replays per harness")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	thorough := *tier == "thorough"
	os.Exit(check(*prop, *repo, *verif, *only, *tier, seed, thorough, *workers, *budget, *noEv, *replayOf, *nsamp))
}

func check(prop, repo, verif, only, tier string, seed int64, thorough bool, workers, budget int, noEv bool, replayOf string, nsamp int) int {
	t0 := time.Now()
	if replayOf != "" {
		thorough = replayThorough(replayOf)
	}
	hs, files, mainSrc, err := collect(verif, prop, only, thorough)
	if err != nil {
		logf("error: %v", err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "metisverif-")
	if err != nil {
		logf("error: %v", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	p, err := loadProgram(repo, verif, scratch, files, mainSrc)
	if err != nil {
		logf("error: %v", err)
		return 2
	}
	tLoad := time.Since(t0)
	nb := make(chan buildResult, 1)
	go func() { nb <- nativeBuild(repo, p) }()
	if replayOf != "" {
		b := <-nb
		if b.err != nil {
			logf("%v", b.err)
			return 2
		}
		r := replayFile(b.bin, replayOf, scratch, 60*time.Second)
		fmt.Println(r.text)
		if r.timeout {
			fmt.Println("(timed out)")
		}
		return 0
	}
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	if budget == 0 {
		budget = 150
		if thorough {
			budget = 3000
		}
	}
	cfg := &Config{Thorough: thorough, Workers: workers, Deadline: time.Now().Add(time.Duration(budget) * time.Second), Limit: 30_000_000,
		SolverMs: 20000, SolverBin: []string{"z3-new", "-in", "-smt2"}, CrossBin: []string{"cvc5", "--lang=smt2", "--tlimit=10000"}, CrossN: 997, Seed: seed, Samples: 6, MaxViol: 8}
	if s := os.Getenv("VERIF_SOLVER"); s != "" {
		cfg.SolverBin = []string{s, "-in", "-smt2"}
	}
	if thorough {
		cfg.Samples = 40
		cfg.CrossN = 499
	}
	if nsamp > 0 {
		cfg.Samples = nsamp
	}
	pool := newPool(p, cfg)
	for _, h := range hs {
		sp := p.pkgs[modPath+"/"+h.dir]
		if sp == nil {
			logf("error: package of %s not loaded", h.name)
			return 2
		}
		fn := sp.Func(h.name)
		if fn == nil {
			logf("error: %s not found", h.name)
			return 2
		}
		pool.add(h.name, p.funcOf(fn))
	}
	pool.explore()
	tExplore := time.Since(t0) - tLoad

	// native confirmation
	b := <-nb
	if b.err != nil {
		logf("%v", b.err)
		return 2
	}
	exit := 0
	known := loadKnown(verif)
	type job struct {
		r *Run
		v *Violation
		s *PathSample
		o *replayOut
	}
	var jobs []*job
	for _, r := range pool.runs {
		for _, v := range r.viols {
			jobs = append(jobs, &job{r: r, v: v})
		}
		for _, s := range r.samples {
			jobs = append(jobs, &job{r: r, s: s})
		}
	}
	sem := make(chan struct{}, workers)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(j *job) {
			defer func() { <-sem; wg.Done() }()
			tape := []TapeEnt(nil)
			to := 60 * time.Second
			if j.v != nil {
				tape = j.v.Tape
				if j.v.Kind == "hang" || j.v.Kind == "deadlock" {
					to = 15 * time.Second
				}
			} else {
				tape = j.s.Tape
			}
			j.o, _ = replay(b.bin, j.r.name, tape, scratch, thorough, to)
		}(j)
	}
	wg.Wait()

	validated, mismatches, unconfirmed, nviol := 0, 0, 0, 0
	var mism []string
	seen := map[string]bool{}
	knownSeen := map[string]bool{}
	repDir := filepath.Join(verif, "evidence", "replays")
	for _, j := range jobs {
		if j.s != nil {
			ok := j.o != nil && j.o.failed == "" && j.o.panicM == "" && !j.o.timeout && !j.o.assume && len(j.o.obs) == len(j.s.Obs)
			if ok {
				for i := range j.s.Obs {
					if j.s.Obs[i] != j.o.obs[i] {
						ok = false
					}
				}
			}
			if ok {
				validated++
			} else {
				mismatches++
				if len(mism) < 5 {
					d := ""
					if j.o != nil {
						d = fmt.Sprintf("native: failed=%q panic=%q timeout=%v assume=%v obs=%v", j.o.failed, j.o.panicM, j.o.timeout, j.o.assume, j.o.obs)
					}
					mism = append(mism, fmt.Sprintf("%s tape=%s symbolic obs=%v %s", j.r.name, tapeStr(j.s.Tape), j.s.Obs, d))
				}
			}
			continue
		}
		if !reproduces(j.v, j.o) {
			unconfirmed++
			j.r.incom["a solver counterexample did not reproduce natively and was discarded: "+j.v.Kind+" "+j.v.Label+" "+j.v.Detail]++
			if verbose {
				logf("unconfirmed: %s %s %q %s [%s]\n tape %s\n native: %+v", j.r.name, j.v.Kind, j.v.Label, j.v.Detail, j.v.Stack, tapeStr(j.v.Tape), j.o)
			}
			continue
		}
		kf := ""
		for _, k := range known {
			if k.prop == prop && (k.harness == "" || k.harness == j.r.name) && (k.label == "" || strings.Contains(j.v.Label+" "+j.v.Detail, k.label)) {
				kf = k.what
			}
		}
		if kf != "" {
			if !knownSeen[kf] {
				knownSeen[kf] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf)
			}
			continue
		}
		key := j.r.name + "|" + j.v.Kind + "|" + j.v.Label
		if j.v.Kind == "panic" {
			key += "|" + j.v.Detail
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		nviol++
		if nviol > 10 {
			continue
		}
		os.MkdirAll(repDir, 0o755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d.json", prop, j.r.name, nviol))
		js, _ := json.MarshalIndent(map[string]any{"harness": j.r.name, "property": prop, "kind": j.v.Kind, "label": j.v.Label, "detail": j.v.Detail, "stack": j.v.Stack,
			"tape": j.v.Tape, "thorough": thorough, "native_output": trunc(j.o.text, 4000)}, "", " ")
		os.WriteFile(path, js, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s: %s %q %s\n  at %s\n  input %s\n  native: failed=%q panic=%q timeout=%v\n", j.r.name, j.v.Kind, j.v.Label, j.v.Detail, j.v.Stack, tapeStr(j.v.Tape), j.o.failed, j.o.panicM, j.o.timeout)
		exit = 1
	}

	ev := evidence(prop, tier, seed, hs, pool, t0, tLoad, tExplore, validated, mismatches, unconfirmed, nviol, mism)
	if !noEv {
		js, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), js, 0o644); err != nil {
			logf("evidence: %v", err)
			return 2
		}
	}
	summary(pool, tLoad, tExplore, time.Since(t0), validated, mismatches)
	for _, m := range mism {
		logf("MISMATCH %s", m)
	}
	return exit
}

func replayThorough(f string) bool {
	b, err := os.ReadFile(f)
	if err != nil {
		return false
	}
	var x struct {
		Thorough bool `json:"thorough"`
	}
	json.Unmarshal(b, &x)
	return x.Thorough
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tapeStr(t []TapeEnt) string {
	var sb strings.Builder
	for i, e := range t {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%d", e.Name, e.V)
	}
	return sb.String()
}

func summary(pool *Pool, tLoad, tExplore, tAll time.Duration, validated, mismatches int) {
	st := &SolverStats{}
	for _, w := range pool.workers {
		st.add(&w.stats)
	}
	for _, r := range pool.runs {
		vac := []string{}
		for _, n := range sortedKeys(r.reach) {
			vac = append(vac, fmt.Sprintf("%s:%d", n, r.reach[n]))
		}
		logf("%-34s paths=%v decs=%d maxinstr=%d asserts=%d viol=%d %.1fs reach=%v", r.name, r.ends, r.decs, r.maxInstr, len(r.asserts), r.violN, r.ended.Sub(r.started).Seconds(), vac)
		for _, k := range sortedKeys(r.incom) {
			logf("    incomplete x%d: %s", r.incom[k], k)
		}
		for n := range r.notes {
			logf("    note: %s", n)
		}
	}
	logf("load %.1fs explore %.1fs total %.1fs; solver: %d queries (%d cached, %d by domain) dom ok %d bad %d, paths sat %d; sat %d unsat %d unknown %d errors %d, %.1fs, max %.0fms; cross %d bad %d; native %d ok %d mismatching", tLoad.Seconds(), tExplore.Seconds(), tAll.Seconds(),
		st.Queries, st.Cached, st.Domain, st.DomOK, st.DomBad, st.PathsSat, st.Sat, st.Unsat, st.Unknown, st.Errors, float64(st.TimeNs)/1e9, float64(st.MaxNs)/1e6, st.CrossDone, st.CrossBad, validated, mismatches)
}

func evidence(prop, tier string, seed int64, hs []harnessInfo, pool *Pool, t0 time.Time, tLoad, tExplore time.Duration, validated, mismatches, unconfirmed, nviol int, mism []string) map[string]any {
	st := &SolverStats{}
	for _, w := range pool.workers {
		st.add(&w.stats)
	}
	var states, trans, instr int64
	cover := map[string]bool{}
	var harn []map[string]any
	var samples []any
	complete := true
	var bounds []string
	for i, r := range pool.runs {
		for k, n := range r.ends {
			if k != "infeasible" && k != "stop" {
				states += n
			}
		}
		trans += r.decs
		instr += r.instrs
		for f := range r.cover {
			cover[f.name] = true
		}
		if len(r.incom) > 0 {
			complete = false
		}
		asserts := map[string]any{}
		for k, a := range r.asserts {
			asserts[k] = a
		}
		harn = append(harn, map[string]any{"harness": r.name, "bounds": hs[i].doc, "paths": r.ends, "decisions": r.decs, "instructions": r.instrs, "max_instructions_on_a_path": r.maxInstr,
			"symbolic_inputs_max": r.inputs, "assertions": asserts, "reached": r.reach, "not_covered": r.incom, "approximations": sortedKeys(r.notes), "seconds": r.ended.Sub(r.started).Seconds()})
		bounds = append(bounds, r.name+": "+hs[i].doc)
		for k, s := range r.samples {
			if k < 2 {
				samples = append(samples, map[string]any{"harness": r.name, "input": tapeStr(s.Tape), "observed": s.Obs})
			}
		}
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":                  complete,
			"explanation":                 "bounded symbolic execution of the real code: states = explored symbolic paths, transitions = symbolic branch decisions on them; each path stands for all input values satisfying its path condition",
			"functions_encoded":           sortedKeys(cover),
			"harnesses":                   harn,
			"bounds":                      bounds,
			"queries":                     st.Queries,
			"queries_answered_from_cache": st.Cached,
			"conditions_decided_by_domain_propagation":  st.Domain,
			"refutations_by_domain_confirmed_by_solver": st.DomOK,
			"refutations_by_domain_contradicted":        st.DomBad,
			"path_conditions_confirmed_satisfiable":     st.PathsSat,
			"queries_sat":                               st.Sat,
			"queries_unsat":                             st.Unsat,
			"queries_unknown":                           st.Unknown,
			"solver_seconds":                            float64(st.TimeNs) / 1e9,
			"slowest_query_ms":                          float64(st.MaxNs) / 1e6,
			"second_solver_rechecks":                    st.CrossDone,
			"second_solver_disagreements":               st.CrossBad,
			"instructions_executed":                     instr,
			"load_seconds":                              tLoad.Seconds(),
			"exploration_seconds":                       tExplore.Seconds(),
			"native_replay_mismatches":                  mismatches,
			"native_mismatch_examples":                  mism,
			"counterexamples_not_reproduced":            unconfirmed,
		},
		"assumptions": []string{
			"metis code runs against the shims of /verif/rt for time, math/rand, os, os/exec, syscall; goroutines started by metis run to completion at moments chosen by the harness",
			"bounds as listed per harness; nothing is claimed outside them",
			"z3 4.8.12 is trusted for unsat answers (a sample is re-checked with cvc5); go/ssa and the executor are validated by native replay of sampled paths",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nviol,
	}
}
