package main

// Loading: source transform, overlay, go/packages, go/ssa.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/IfanTsai/metis"

// packages of metis whose environment is replaced by the shims
var shimmedDirs = []string{"ae", "socket", "server", "datastruct", "database", "config"}

var shimOf = map[string]string{
	"time":        "vtime",
	"math/rand":   "vrand",
	"os":          "vos",
	"os/exec":     "vexec",
	"syscall":     "vsyscall",
	"hash/fnv":    "vfnv",
	"sync":        "vsync",
	"sync/atomic": "vatomic",
	"log":         "vlog",

	"github.com/spf13/viper":       "vviper",
	"github.com/fsnotify/fsnotify": "vfsnotify",
}

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fmu     sync.RWMutex
	funcs   map[*ssa.Function]*Func
	buildMu sync.Mutex
	gmu     sync.Mutex
	globals map[*ssa.Global]*GlobalInfo
	pinfos  map[*ssa.Package]*PkgInfo
	clos    map[*ssa.Function]*Closure
	mmu     sync.RWMutex
	meths   map[methKey]*Func
	impls   map[implKey]bool

	tRTErr, tError           *TypeInfo
	tErrStruct, tErrPtr      *TypeInfo
	tWrapStruct, tWrapPtr    *TypeInfo
	overlayDir               string
	overlayJSON              string
	modfile                  string
	metisFiles, harnessFiles []string
	fset                     *token.FileSet
}

type methKey struct {
	ti  *TypeInfo
	pkg *types.Package
	n   string
}

type implKey struct{ a, b *TypeInfo }

func (p *Program) isMetis(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.HasPrefix(path, modPath+"/verif")
}

func (p *Program) perPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Program) pkgInfo(sp *ssa.Package) *PkgInfo {
	pi := p.pinfos[sp]
	if pi == nil {
		pi = &PkgInfo{pkg: sp, path: sp.Pkg.Path(), perPath: p.perPath(sp.Pkg.Path())}
		p.pinfos[sp] = pi
	}
	return pi
}

func (p *Program) globalOf(g *ssa.Global) *GlobalInfo {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	gi := p.globals[g]
	if gi == nil {
		pi := p.pkgInfo(g.Pkg)
		gi = &GlobalInfo{g: g, ti: tinfo(g.Type().Underlying().(*types.Pointer).Elem()), pkg: pi, perPath: pi.perPath, idx: len(p.globals)}
		p.globals[g] = gi
	}
	return gi
}

func (p *Program) closureOf(fn *ssa.Function) *Closure {
	f := p.funcOf(fn)
	p.gmu.Lock()
	defer p.gmu.Unlock()
	c := p.clos[fn]
	if c == nil {
		c = &Closure{fn: f}
		p.clos[fn] = c
	}
	return c
}

func (p *Program) lookupMethod(ti *TypeInfo, pkg *types.Package, name string) *Func {
	k := methKey{ti, pkg, name}
	p.mmu.RLock()
	f, ok := p.meths[k]
	p.mmu.RUnlock()
	if ok {
		return f
	}
	p.buildMu.Lock()
	var fn *ssa.Function
	sel := p.prog.MethodSets.MethodSet(ti.t).Lookup(pkg, name)
	if sel != nil {
		fn = p.prog.MethodValue(sel)
	}
	p.buildMu.Unlock()
	if fn != nil {
		f = p.funcOf(fn)
	}
	p.mmu.Lock()
	p.meths[k] = f
	p.mmu.Unlock()
	return f
}

func (p *Program) method(ti *TypeInfo, m *types.Func) *Func {
	return p.lookupMethod(ti, m.Pkg(), m.Name())
}

func (p *Program) methodByName(ti *TypeInfo, name string) *Func {
	return p.lookupMethod(ti, nil, name)
}

func (p *Program) implements(ti, iface *TypeInfo) bool {
	k := implKey{ti, iface}
	p.mmu.RLock()
	r, ok := p.impls[k]
	p.mmu.RUnlock()
	if ok {
		return r
	}
	p.buildMu.Lock()
	r = types.Implements(ti.t, iface.t.Underlying().(*types.Interface))
	p.buildMu.Unlock()
	p.mmu.Lock()
	p.impls[k] = r
	p.mmu.Unlock()
	return r
}

func (p *Program) namedType(pkg, name string) *TypeInfo {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return tinfo(o.Type())
}

// ---------- source transform ----------

type xform struct {
	repo    string
	out     string // scratch directory holding the overlay files
	replace map[string]string
	shimUse map[string]map[string]bool // import path -> referenced names
}

func (x *xform) put(virtual string, data []byte) error {
	name := filepath.Join(x.out, fmt.Sprintf("%03d_%s", len(x.replace), filepath.Base(virtual)))
	if err := os.WriteFile(name, data, 0o644); err != nil {
		return err
	}
	x.replace[virtual] = name
	return nil
}

func (x *xform) file(path string) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return err
	}
	names := map[string]string{} // local name -> import path
	changed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shimOf[p]
		if !ok {
			continue
		}
		local := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			local = im.Name.Name
		}
		if local == "_" {
			continue
		}
		names[local] = p
		im.Path.Value = strconv.Quote(rtBase + sh)
		im.Name = ast.NewIdent(local)
		changed = true
	}
	if len(names) > 0 {
		ast.Inspect(f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			if p, ok := names[id.Name]; ok {
				if x.shimUse[p] == nil {
					x.shimUse[p] = map[string]bool{}
				}
				x.shimUse[p][se.Sel.Name] = true
			}
			return true
		})
	}
	goUsed := x.goStmts(f)
	if goUsed {
		addImport(f, "verifrt", rtPath)
		changed = true
	}
	if !changed {
		return nil
	}
	var buf bytes.Buffer
	// comments are dropped except directives: positions would be misplaced otherwise
	var keep []*ast.CommentGroup
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:") && cg.End() < f.Package {
				keep = append(keep, cg)
				break
			}
		}
	}
	f.Comments = keep
	if err := printer.Fprint(&buf, fset, f); err != nil {
		return err
	}
	return x.put(path, buf.Bytes())
}

const rtBase = modPath + "/verif/"

func addImport(f *ast.File, name, path string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}

// goStmts rewrites "go f(args)" into verifrt.Go(func() { f(args) }) with the
// function value and the arguments evaluated first.
func (x *xform) goStmts(f *ast.File) bool {
	used := false
	n := 0
	var fix func(list []ast.Stmt) []ast.Stmt
	conv := func(g *ast.GoStmt) []ast.Stmt {
		used = true
		var pre []ast.Stmt
		call := g.Call
		hoist := func(e ast.Expr) ast.Expr {
			switch v := e.(type) {
			case *ast.BasicLit:
				return v
			case *ast.Ident:
				if v.Name == "nil" || v.Name == "true" || v.Name == "false" {
					return v
				}
			}
			n++
			id := ast.NewIdent("verifgo" + strconv.Itoa(n))
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
			return ast.NewIdent(id.Name)
		}
		var args []ast.Expr
		for _, a := range call.Args {
			args = append(args, hoist(a))
		}
		fun := call.Fun
		if se, ok := fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); !ok || id.Obj != nil {
				fun = hoist(fun)
			}
		}
		nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
		run := &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifrt"), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{lit}}}
		if len(pre) == 0 {
			return []ast.Stmt{run}
		}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, run)}}
	}
	fix = func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			if g, ok := s.(*ast.GoStmt); ok {
				out = append(out, conv(g)...)
				continue
			}
			out = append(out, s)
		}
		return out
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch b := nd.(type) {
		case *ast.BlockStmt:
			b.List = fix(b.List)
		case *ast.CaseClause:
			b.Body = fix(b.Body)
		case *ast.CommClause:
			b.Body = fix(b.Body)
		}
		return true
	})
	return used
}

func exportedDecls(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.IsExported() {
					out[x.Name.Name] = "func"
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						out[y.Name.Name] = "type"
					case *ast.ValueSpec:
						for _, id := range y.Names {
							if x.Tok == token.CONST {
								out[id.Name] = "const"
							} else {
								out[id.Name] = "var"
							}
						}
					}
				}
			}
		}
	}
	return out
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "/opt/veriftools/go1.27.3"
	}
	return strings.TrimSpace(string(b))
}

// buildOverlay writes the overlay files and returns their mapping.
func buildOverlay(repo, verif, out string, harness []HarnessFile, mainSrc string) (*xform, error) {
	x := &xform{repo: repo, out: out, replace: map[string]string{}, shimUse: map[string]map[string]bool{}}
	for _, d := range shimmedDirs {
		dir := filepath.Join(repo, d)
		es, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if err := x.file(filepath.Join(dir, n)); err != nil {
				return nil, err
			}
		}
	}
	// shim packages
	rtDir := filepath.Join(verif, "rt")
	shims, err := os.ReadDir(rtDir)
	if err != nil {
		return nil, err
	}
	for _, s := range shims {
		if !s.IsDir() {
			continue
		}
		fs, err := os.ReadDir(filepath.Join(rtDir, s.Name()))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(filepath.Join(rtDir, s.Name(), f.Name()))
			if err != nil {
				return nil, err
			}
			if err := x.put(filepath.Join(repo, "verif", s.Name(), f.Name()), b); err != nil {
				return nil, err
			}
		}
	}
	gr := ""
	var paths []string
	for p := range x.shimUse {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sh := shimOf[p]
		own := exportedDecls(filepath.Join(rtDir, sh))
		var miss []string
		for n := range x.shimUse[p] {
			if own[n] == "" {
				miss = append(miss, n)
			}
		}
		if len(miss) == 0 {
			continue
		}
		sort.Strings(miss)
		if gr == "" {
			gr = goroot()
		}
		std := exportedDecls(filepath.Join(gr, "src", filepath.FromSlash(p)))
		var sb strings.Builder
		base := p[strings.LastIndex(p, "/")+1:]
		fmt.Fprintf(&sb, "package %s\n\nimport real%s %q\n\n", sh, base, p)
		for _, n := range miss {
			switch std[n] {
			case "type":
				fmt.Fprintf(&sb, "type %s = real%s.%s\n", n, base, n)
			case "const":
				fmt.Fprintf(&sb, "const %s = real%s.%s\n", n, base, n)
			default:
				fmt.Fprintf(&sb, "var %s = real%s.%s\n", n, base, n)
			}
		}
		if err := x.put(filepath.Join(repo, "verif", sh, "zz_auto.go"), []byte(sb.String())); err != nil {
			return nil, err
		}
	}
	for _, h := range harness {
		b, err := os.ReadFile(h.Path)
		if err != nil {
			return nil, err
		}
		if err := x.put(filepath.Join(repo, h.Virtual), b); err != nil {
			return nil, err
		}
	}
	for _, a := range accessFiles {
		use := false
		for _, h := range harness {
			use = use || filepath.Dir(h.Virtual) == a.dir
		}
		if !use {
			continue
		}
		src, err := a.source(repo)
		if err != nil {
			return nil, err
		}
		if err := x.put(filepath.Join(repo, a.dir, "zz_verif_access.go"), []byte(src)); err != nil {
			return nil, err
		}
	}
	if err := x.put(filepath.Join(repo, "verif", "vmain", "main.go"), []byte(mainSrc)); err != nil {
		return nil, err
	}
	return x, nil
}

type HarnessFile struct {
	Path    string // file under /verif/harness
	Virtual string // path below the repository
}

func loadProgram(repo, verif, out string, harness []HarnessFile, mainSrc string) (*Program, error) {
	x, err := buildOverlay(repo, verif, out, harness, mainSrc)
	if err != nil {
		return nil, err
	}
	js, _ := json.Marshal(map[string]any{"Replace": x.replace})
	ovj := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ovj, js, 0o644); err != nil {
		return nil, err
	}
	modfile := filepath.Join(out, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(out, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	overlay := map[string][]byte{}
	for v, r := range x.replace {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		overlay[v] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Fset:       fset,
		Overlay:    overlay,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
		BuildFlags: []string{"-modfile=" + modfile},
	}
	pkgs, err := packages.Load(cfg, modPath+"/verif/vmain")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == "" {
				nerr++
				if nerr < 20 {
					logf("load: %v", e)
				}
			}
		}
	})
	if os.Getenv("VERIF_DEPS") != "" {
		printDeps(pkgs)
	}
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading /repo with the harness", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*GlobalInfo{},
		pinfos: map[*ssa.Package]*PkgInfo{}, clos: map[*ssa.Function]*Closure{}, meths: map[methKey]*Func{}, impls: map[implKey]bool{},
		overlayDir: out, overlayJSON: ovj, modfile: modfile, fset: fset}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			sp.Build()
		}
	}
	p.tError = tinfo(types.Universe.Lookup("error").Type())
	if t := p.namedType("runtime", "plainError"); t != nil {
		p.tRTErr = t
	} else {
		return nil, fmt.Errorf("runtime.plainError not found")
	}
	p.tErrStruct = p.namedType("errors", "errorString")
	p.tErrPtr = tinfo(types.NewPointer(p.tErrStruct.t))
	if t := p.namedType("fmt", "wrapError"); t != nil {
		p.tWrapStruct, p.tWrapPtr = t, tinfo(types.NewPointer(t.t))
	}
	return p, nil
}

// printDeps lists what the harness files use of metis (VERIF_DEPS=1).
func printDeps(pkgs []*packages.Package) {
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) || strings.HasPrefix(p.PkgPath, modPath+"/verif") {
			return
		}
		for id, o := range p.TypesInfo.Uses {
			f, of := p.Fset.Position(id.Pos()).Filename, p.Fset.Position(o.Pos()).Filename
			if o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), modPath) || strings.HasPrefix(o.Pkg().Path(), modPath+"/verif") {
				continue
			}
			if isHarness(f) && !isHarness(of) {
				t := o.Type().String()
				fmt.Println("DEP", filepath.Base(f), o.Pkg().Name()+"."+o.Name(), strings.ReplaceAll(t, modPath+"/", ""))
			}
		}
	})
}

func isHarness(f string) bool { return strings.HasPrefix(filepath.Base(f), "zz_verif_") }

// accessFile is a generated file with functions that give the harness the
// fields of a struct by their types, whatever their names are.
type accessFile struct {
	dir, structName, imports string
	fields                   []accessField
}

type accessField struct{ fn, typ, deflt string }

var accessFiles = []accessFile{{"server", "Server", `
import (
	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/socket"
)
`, []accessField{
	{"vDbs", "[]*database.Databse", "dbs"},
	{"vClients", "map[socket.FD]*Client", "clients"},
	{"vLoop", "*ae.EventLoop", "eventLoop"},
}}}

func (a accessFile) source(repo string) (string, error) {
	names := map[string]string{}
	es, err := os.ReadDir(filepath.Join(repo, a.dir))
	if err != nil {
		return "", err
	}
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(repo, a.dir, e.Name()), nil, 0)
		if err != nil {
			return "", err
		}
		ast.Inspect(f, func(n ast.Node) bool {
			ts, ok := n.(*ast.TypeSpec)
			if !ok || ts.Name.Name != a.structName {
				return true
			}
			st, ok := ts.Type.(*ast.StructType)
			if !ok {
				return false
			}
			for _, fl := range st.Fields.List {
				var sb strings.Builder
				_ = printer.Fprint(&sb, fset, fl.Type)
				for _, id := range fl.Names {
					if names[sb.String()] == "" {
						names[sb.String()] = id.Name
					}
				}
			}
			return false
		})
	}
	var sb strings.Builder
	sb.WriteString("package " + a.dir + "\n" + a.imports)
	for _, f := range a.fields {
		n := names[f.typ]
		if n == "" {
			n = f.deflt
		}
		fmt.Fprintf(&sb, "\nfunc %s(s *%s) %s { return s.%s }\n", f.fn, a.structName, f.typ, n)
	}
	return sb.String(), nil
}
