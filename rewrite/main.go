// Command rewrite copies the non-test sources of the code under test into a
// build directory and puts every source of nondeterminism they use behind the
// simulator's seams:
//
//   - sync, sync/atomic, time, math/rand, crypto/rand and runtime identifiers
//     that block, tell the time, or are random are redirected to the shims
//     under verifsim/;
//   - go statements, channel operations and select become simulator calls;
//   - ranging over a map visits the keys in an order the simulator chooses;
//   - every statement is preceded by a scheduling point, and read-modify-write
//     statements on shared memory get one in the middle;
//   - every package gets a SimReset function that re-runs its package
//     variable initialisers and init functions, so that one process can start
//     the library afresh for every simulated run.
//
// It works on whatever the sources say now: nothing in it names a function,
// type or variable of the code under test.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "go.opencensus.io"
const simBase = modPath + "/verifsim/"

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles, Imports              []string
	Standard                      bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

// skipped are packages that hold no behaviour of the library: examples, test
// scaffolding, generated protobuf types of the tests, maintenance commands.
func skipped(p string) bool {
	rel := strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/")
	for _, s := range []string{"examples", "internal/testpb", "internal/readme", "internal/check", "metric/test", "verifsim"} {
		if rel == s || strings.HasPrefix(rel, s+"/") {
			return true
		}
	}
	return false
}

// shims maps an import path to the identifiers the simulator replaces, the
// shim package that has them, and an identifier that keeps the original
// import used.
var shims = map[string]struct {
	pkg  string
	keep string
	ids  map[string]bool
}{
	"sync": {"simsync", "sync.NewCond", set("Mutex RWMutex Once WaitGroup Cond NewCond Map Pool OnceFunc OnceValue OnceValues")},
	"sync/atomic": {"simatomic", "atomic.AddInt32", set("AddInt32 AddInt64 AddUint32 AddUint64 AddUintptr CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64 CompareAndSwapUintptr CompareAndSwapPointer " +
		"LoadInt32 LoadInt64 LoadUint32 LoadUint64 LoadUintptr LoadPointer StoreInt32 StoreInt64 StoreUint32 StoreUint64 StoreUintptr StorePointer SwapInt32 SwapInt64 SwapUint32 SwapUint64 SwapUintptr SwapPointer Value Int32 Int64 Uint32 Uint64 Uintptr Bool Pointer")},
	"time":          {"simtime", "time.Unix", set("Now Since Until Sleep After AfterFunc NewTimer NewTicker Tick Timer Ticker")},
	"math/rand":     {"simrand", "rand.NewSource", set("New Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 Perm Shuffle Seed Read NormFloat64 ExpFloat64")},
	"crypto/rand":   {"simcrand", "rand.Int", set("Read Reader")},
	"runtime/trace": {"simexectrace", "trace.StartRegion", set("IsEnabled NewTask Task")},
	"os":            {"simos", "os.Exit", set("Getenv LookupEnv")},
	"runtime":       {"simruntime", "runtime.GC", set("ReadMemStats NumGoroutine NumCgoCall Gosched")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func main() {
	log.SetFlags(0)
	log.SetPrefix("rewrite: ")
	repo := flag.String("repo", "/repo", "code under test")
	out := flag.String("out", "", "build directory")
	flag.Parse()
	if *out == "" {
		log.Fatal("-out is required")
	}
	pkgs := load(*repo)
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	var order []string
	nSites := map[string]int{}
	for _, p := range pkgs { // go list -deps: dependencies come first
		if p.Module == nil || p.Module.Path != modPath || skipped(p.ImportPath) {
			continue
		}
		if p.Error != nil {
			log.Fatalf("%s: %s", p.ImportPath, p.Error.Err)
		}
		rewritePkg(fset, imp, p, *repo, *out, nSites)
		order = append(order, p.ImportPath)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		check(err)
		write(filepath.Join(*out, f), b)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.18\n\n// Package simreset describes what the rewriter did.\npackage simreset\n\n// Packages lists the rewritten packages.\nvar Packages = []string{\n")
	for _, p := range order {
		fmt.Fprintf(&b, "\t%q,\n", p)
	}
	b.WriteString("}\n\n// Sites counts the seams the rewriter put in, by kind.\nvar Sites = map[string]int{\n")
	var ks []string
	for k := range nSites {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\t%q: %d,\n", k, nSites[k])
	}
	b.WriteString("}\n")
	write(filepath.Join(*out, "verifsim", "simreset", "simreset.go"), b.Bytes())
}

func check(err error) {
	if err != nil {
		log.Fatal(err)
	}
}

func write(path string, b []byte) {
	check(os.MkdirAll(filepath.Dir(path), 0o755))
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	check(os.WriteFile(path, b, 0o644))
}

func load(repo string) []*listPkg {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,Imports,Standard,Module,Error", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	var ps []*listPkg
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		ps = append(ps, p)
	}
	return ps
}

// ---------------------------------------------------------------- edits

type edit struct {
	start, end int // end > start: replacement
	text       string
	kind       int // 0 closer (insert after a node), 1 opener (insert before one), 2 replacement
	seq        int
}

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	file    *ast.File
	tf      *token.File
	src     []byte
	edits   []edit
	seq     int
	n       int
	used    map[string]bool // shim packages used
	keep    map[string]string
	sites   map[string]int
	inFunc  int
	imports map[string]string // local name -> path
}

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rw) add(e edit) { r.seq++; e.seq = r.seq; r.edits = append(r.edits, e) }
func (r *rw) before(p token.Pos, s string) {
	o := r.off(p)
	r.add(edit{o, o, s, 1, 0})
}
func (r *rw) after(p token.Pos, s string) {
	o := r.off(p)
	r.add(edit{o, o, s, 0, 0})
}
func (r *rw) replace(a, b token.Pos, s string) { r.add(edit{r.off(a), r.off(b), s, 2, 0}) }

func (r *rw) in(e edit, a, b int) bool { return e.start >= a && e.end <= b }

func less(x, y edit) bool {
	if x.start != y.start {
		return x.start < y.start
	}
	if x.kind != y.kind {
		return x.kind < y.kind
	}
	if x.kind == 1 {
		return x.seq > y.seq // openers: the outer one was added later
	}
	return x.seq < y.seq
}

func apply(src []byte, a, b int, es []edit) string {
	sort.SliceStable(es, func(i, j int) bool { return less(es[i], es[j]) })
	var out strings.Builder
	at := a
	for _, e := range es {
		if e.start < at {
			log.Fatalf("overlapping edits at %d: %q", e.start, e.text)
		}
		out.Write(src[at:e.start])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:b])
	return out.String()
}

// text renders a node with the edits made inside it; take also removes them,
// so that the node can be moved.
func (r *rw) text(n ast.Node) string { return r.render(n.Pos(), n.End(), false) }
func (r *rw) take(n ast.Node) string { return r.render(n.Pos(), n.End(), true) }
func (r *rw) render(p, q token.Pos, remove bool) string {
	a, b := r.off(p), r.off(q)
	var inside, rest []edit
	for _, e := range r.edits {
		if r.in(e, a, b) {
			inside = append(inside, e)
		} else {
			rest = append(rest, e)
		}
	}
	s := apply(r.src, a, b, inside)
	if remove {
		r.edits = rest
	}
	return s
}

func (r *rw) tmp(p string) string { r.n++; return fmt.Sprintf("sim%s%d_", p, r.n) }
func (r *rw) site(k string)       { r.sites[k]++ }

// ---------------------------------------------------------------- packages

func rewritePkg(fset *token.FileSet, imp types.Importer, p *listPkg, repo, out string, sites map[string]int) {
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, name := range p.GoFiles {
		full := filepath.Join(p.Dir, name)
		b, err := os.ReadFile(full)
		check(err)
		f, err := parser.ParseFile(fset, full, b, parser.ParseComments|parser.SkipObjectResolution)
		check(err)
		files, srcs, names = append(files, f), append(srcs, b), append(names, name)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		log.Fatalf("%s: %v", p.ImportPath, err)
	}
	rel, err := filepath.Rel(repo, p.Dir)
	check(err)

	rws := make([]*rw, len(files))
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: tpkg, file: f, tf: fset.File(f.Pos()), src: srcs[i],
			used: map[string]bool{}, keep: map[string]string{}, sites: sites}
		rws[i] = r
		r.walkFile()
	}
	tails := make([]strings.Builder, len(files))
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		log.Fatal("no file")
		return 0
	}
	var calls []string
	n := 0
	// variables without initialiser go back to zero first
	for i, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, name := range vs.Names {
					if name.Name == "_" {
						continue
					}
					n++
					fmt.Fprintf(&tails[i], "\nfunc simZero%d_() { var z %s; %s = z }\n", n, rws[i].text(vs.Type), name.Name)
					calls = append(calls, fmt.Sprintf("simZero%d_()", n))
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		i := fileOf(in.Rhs.Pos())
		n++
		fmt.Fprintf(&tails[i], "\nfunc simInit%d_() { %s = %s }\n", n, strings.Join(lhs, ", "), rws[i].text(in.Rhs))
		calls = append(calls, fmt.Sprintf("simInit%d_()", n))
	}
	for i, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			n++
			rws[i].replace(fd.Name.Pos(), fd.Name.End(), fmt.Sprintf("simInitFn%d_", n))
			calls = append(calls, fmt.Sprintf("simInitFn%d_()", n))
		}
	}
	for i := range files {
		write(filepath.Join(out, rel, names[i]), rws[i].finish(tails[i].String()))
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.18\n\npackage %s\n\nimport simrt %q\n\nfunc init() { simrt.RegisterReset(%q, SimReset) }\n\n// SimReset re-runs the package's variable initialisers and init functions.\nfunc SimReset() {\n", p.Name, simBase+"simrt", p.ImportPath)
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s\n", c)
	}
	b.WriteString("}\n")
	write(filepath.Join(out, rel, "zz_sim_reset.go"), []byte(b.String()))
}

func (r *rw) finish(tail string) []byte {
	// the package clause gets the simulator's imports on its own line
	var imps strings.Builder
	fmt.Fprintf(&imps, "; import simrt %q", simBase+"simrt")
	var us []string
	for u := range r.used {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&imps, "; import %s %q", u, simBase+u)
	}
	r.after(r.file.Name.End(), imps.String())
	for _, cg := range r.file.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				r.replace(c.Pos(), c.End(), "//")
			}
		}
	}
	body := apply(r.src, 0, len(r.src), r.edits)
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.18\n\n//line %s:1\n", r.tf.Name())
	b.WriteString(body)
	b.WriteString("\n//line simulated:1\nvar _ = simrt.Y\n")
	var ks []string
	for _, k := range r.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "var _ = %s\n", k)
	}
	b.WriteString(tail)
	return b.Bytes()
}

// ---------------------------------------------------------------- walking

func (r *rw) walkFile() {
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.node(d.Type)
			if d.Recv != nil {
				r.node(d.Recv)
			}
			if d.Body != nil {
				r.inFunc++
				r.node(d.Body)
				r.inFunc--
			}
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.node(d)
			}
		}
	}
}

// node rewrites n after its children.
func (r *rw) node(n ast.Node) {
	if n == nil {
		return
	}
	switch n := n.(type) {
	case *ast.SelectStmt:
		r.selectStmt(n, "")
		return
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			r.replace(n.Pos(), n.Colon+1, "")
			r.selectStmt(s, n.Label.Name)
			return
		}
	}
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			r.node(c)
		}
		return false
	})
	switch n := n.(type) {
	case *ast.BlockStmt:
		r.stmts(n.List)
	case *ast.CaseClause:
		r.stmts(n.Body)
	case *ast.SelectorExpr:
		r.selector(n)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			// "v, ok := <-c" is handled where it is assigned
			r.site("chan recv")
			fn := "simrt.Recv("
			if tv, ok := r.info.Types[n]; ok {
				if _, tuple := tv.Type.(*types.Tuple); tuple {
					fn = "simrt.Recv2("
				}
			}
			r.replace(n.OpPos, n.OpPos+2, fn)
			r.after(n.End(), ")")
		}
	case *ast.SendStmt:
		r.site("chan send")
		r.before(n.Chan.Pos(), "simrt.SendTo(")
		r.replace(n.Arrow, n.Arrow+2, ").Send(")
		r.after(n.Value.End(), ")")
	case *ast.CallExpr:
		if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
				r.site("chan close")
				r.replace(n.Fun.Pos(), n.Fun.End(), "simrt.Close")
			}
		}
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			r.after(n.Body.Lbrace+1, " simrt.Y() ")
		}
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.RangeStmt:
		r.rangeStmt(n)
	case *ast.IndexExpr:
		r.touchIndex(n)
	}
}

func (r *rw) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	sh, ok := shims[pn.Imported().Path()]
	if !ok || !sh.ids[n.Sel.Name] {
		return
	}
	r.site("seam " + pn.Imported().Path())
	r.used[sh.pkg] = true
	r.keep[id.Name] = id.Name + sh.keep[strings.Index(sh.keep, "."):]
	r.replace(n.X.Pos(), n.X.End(), sh.pkg)
}

// touchIndex gives the key of a map insertion a stable identity, so that maps
// keyed by pointers or interfaces can be visited in a reproducible order.
func (r *rw) touchIndex(n *ast.IndexExpr) {
	tv, ok := r.info.Types[n.X]
	if !ok {
		return
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return
	}
	if !identityKey(m.Key()) {
		return
	}
	ktv := r.info.Types[n.Index]
	if ktv.IsNil() || !types.Identical(ktv.Type, m.Key()) {
		// a conversion happens here; make it explicit through the map's own key type
		r.before(n.Index.Pos(), "simrt.TouchFor("+r.text(n.X)+", ")
		r.after(n.Index.End(), ")")
		return
	}
	r.before(n.Index.Pos(), "simrt.Touch(")
	r.after(n.Index.End(), ")")
}

func identityKey(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if identityKey(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return identityKey(u.Elem())
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (r *rw) goStmt(n *ast.GoStmt) {
	r.site("go")
	call := n.Call
	if _, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		// go func() {...}()  ->  simrt.Go(func() {...})
		r.replace(n.Go, n.Go+2, "simrt.Go(")
		r.replace(call.Lparen, call.Rparen+1, ")")
		return
	}
	var pre, args strings.Builder
	fn := r.tmp("f")
	fmt.Fprintf(&pre, "%s := %s; ", fn, r.take(call.Fun))
	for i, a := range call.Args {
		if i > 0 {
			args.WriteString(", ")
		}
		tv := r.info.Types[a]
		_, isTuple := tv.Type.(*types.Tuple)
		if tv.Value != nil || tv.IsNil() || isTuple {
			args.WriteString(r.take(a))
			continue
		}
		v := r.tmp("a")
		fmt.Fprintf(&pre, "%s := %s; ", v, r.take(a))
		args.WriteString(v)
	}
	if call.Ellipsis.IsValid() {
		args.WriteString("...")
	}
	r.render(n.Pos(), n.End(), true)
	r.replace(n.Pos(), n.End(), fmt.Sprintf("{ %ssimrt.Go(func() { %s(%s) }) }", pre.String(), fn, args.String()))
}

func (r *rw) rangeStmt(n *ast.RangeStmt) {
	tv, ok := r.info.Types[n.X]
	if !ok {
		return
	}
	var ctor string
	nvars := 2
	switch tv.Type.Underlying().(type) {
	case *types.Map:
		ctor = "simrt.MapIter"
		r.site("map range")
	case *types.Chan:
		ctor = "simrt.ChanIter"
		nvars = 1
		r.site("chan range")
	default:
		return
	}
	x := r.take(n.X)
	it := r.tmp("it")
	vars := []ast.Expr{n.Key, n.Value}[:nvars]
	var lhs, ptrs []string
	for _, v := range vars {
		blank := v == nil
		if id, ok := v.(*ast.Ident); ok && id.Name == "_" {
			blank = true
		}
		switch {
		case blank:
			lhs, ptrs = append(lhs, "_"), append(ptrs, "nil")
		case n.Tok == token.DEFINE:
			t := r.take(v)
			lhs, ptrs = append(lhs, t), append(ptrs, "&"+t)
		default:
			lhs, ptrs = append(lhs, "_"), append(ptrs, "&"+r.take(v))
		}
	}
	hdr := fmt.Sprintf("for %s, %s := %s(%s); %s.Next(%s); ", strings.Join(lhs, ", "), it, ctor, x, it, strings.Join(ptrs, ", "))
	r.replace(n.Pos(), n.Body.Lbrace, hdr)
}

func (r *rw) selectStmt(n *ast.SelectStmt, label string) {
	r.site("select")
	sel := r.tmp("sel")
	var hdr strings.Builder
	hasDefault := false
	for _, c := range n.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	fmt.Fprintf(&hdr, "{ %s := simrt.NewSel(%v); ", sel, hasDefault)
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			for _, s := range cc.Body {
				r.node(s)
			}
			r.stmts(cc.Body)
			continue
		}
		var caseText string
		var ch ast.Expr
		caseVar := r.tmp("c")
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			r.node(s.Chan)
			r.node(s.Value)
			fmt.Fprintf(&hdr, "simrt.SelSend(%s, %s).Set(%s); ", sel, r.take(s.Chan), r.take(s.Value))
		case *ast.ExprStmt:
			ch = ast.Unparen(s.X).(*ast.UnaryExpr).X
			r.node(ch)
			fmt.Fprintf(&hdr, "simrt.SelRecv(%s, %s); ", sel, r.take(ch))
		case *ast.AssignStmt:
			ch = ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr).X
			r.node(ch)
			fmt.Fprintf(&hdr, "%s := simrt.SelRecv(%s, %s); ", caseVar, sel, r.take(ch))
			var l []string
			for _, e := range s.Lhs {
				r.node(e)
				l = append(l, r.take(e))
			}
			get := ".Val()"
			if len(s.Lhs) == 2 {
				get = ".Val2()"
			}
			caseText = fmt.Sprintf(" %s %s %s%s;", strings.Join(l, ", "), s.Tok, caseVar, get)
			// a receive whose variables are all blank still needs the case variable used
			fmt.Fprintf(&hdr, "_ = %s; ", caseVar)
		}
		for _, s := range cc.Body {
			r.node(s)
		}
		r.stmts(cc.Body)
		r.replace(cc.Comm.Pos(), cc.Comm.End(), fmt.Sprint(i))
		r.after(cc.Colon+1, caseText)
		i++
	}
	if label != "" {
		hdr.WriteString(label + ": ")
	}
	fmt.Fprintf(&hdr, "switch %s.Wait() ", sel)
	r.replace(n.Select, n.Body.Lbrace, hdr.String())
	end := "}"
	if !hasDefault {
		end = "}"
		r.before(n.Body.Rbrace, `; default: panic("simrt: select") `)
	}
	r.after(n.Body.End(), end)
}

// stmts puts a scheduling point before every statement of a list.
func (r *rw) stmts(list []ast.Stmt) {
	if r.inFunc == 0 && len(list) == 0 {
		return
	}
	for _, s := range list {
		r.split(s)
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.site("yield")
		r.before(s.Pos(), "simrt.Y(); ")
	}
}

// split puts a scheduling point between the read and the write of a
// read-modify-write statement on memory other tasks may reach.
func (r *rw) split(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if !r.shared(s.X) {
			return
		}
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		x, t := r.take(s.X), r.tmp("t")
		r.render(s.Pos(), s.End(), true)
		r.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s %s 1; simrt.Y(); %s = %s }", t, x, op, x, t))
		r.site("split rmw")
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !r.shared(s.Lhs[0]) {
			return
		}
		rt := r.info.Types[s.Rhs[0]]
		lt := r.info.Types[s.Lhs[0]]
		if rt.Value != nil && s.Tok == token.ASSIGN || rt.IsNil() || rt.Type == nil || lt.Type == nil {
			return
		}
		switch s.Tok {
		case token.DEFINE:
			return
		case token.ASSIGN:
			if !reads(s.Rhs[0]) {
				return
			}
			if b, ok := rt.Type.Underlying().(*types.Basic); ok && (b.Info()&types.IsUntyped != 0 || b.Kind() == types.Bool) {
				return
			}
			if !types.Identical(rt.Type, lt.Type) {
				return
			}
			x, v, t := r.take(s.Lhs[0]), r.take(s.Rhs[0]), r.tmp("t")
			r.render(s.Pos(), s.End(), true)
			r.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s; simrt.Y(); %s = %s }", t, v, x, t))
		default:
			x, v, t := r.take(s.Lhs[0]), r.take(s.Rhs[0]), r.tmp("t")
			op := strings.TrimSuffix(s.Tok.String(), "=")
			r.render(s.Pos(), s.End(), true)
			r.replace(s.Pos(), s.End(), fmt.Sprintf("{ %s := %s %s (%s); simrt.Y(); %s = %s }", t, x, op, v, x, t))
		}
		r.site("split rmw")
	}
}

// shared reports whether e denotes memory another task might reach and can be
// evaluated twice.
func (r *rw) shared(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	if !ok {
		return false
	}
	switch x := ast.Unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		// maps keyed by identity carry a Touch call; keep those simple
		if tv, ok := r.info.Types[x.X]; ok {
			if m, ok := tv.Type.Underlying().(*types.Map); ok && identityKey(m.Key()) {
				return false
			}
		}
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	}
	return false
}

func reads(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr:
			found = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return found
}
