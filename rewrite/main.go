// Command simrewrite translates the packages of a Go module, as they are now, into
// a form that runs under the deterministic simulator (package simverif/rt).
//
// The translation is source to source and keeps the program's meaning: goroutines,
// channel operations, select, range over channels and maps, and the imports through
// which time, locks, randomness, processes, files, signals and the network are
// reached go to the simulator; scheduling points are inserted between statements
// that may touch shared memory, and between the read and the write of a
// read-modify-write. Nothing is keyed to names or shapes in the code under test.
//
//	simrewrite -repo DIR -out DIR -modfile FILE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const rtName = "simrt__"

// shims maps import paths to their simulated counterparts.
var shims = map[string]string{
	"time":                               "simverif/shim/time",
	"sync":                               "simverif/shim/sync",
	"sync/atomic":                        "simverif/shim/atomic",
	"context":                            "simverif/shim/context",
	"golang.org/x/net/context":           "simverif/shim/context",
	"os":                                 "simverif/shim/os",
	"path/filepath":                      "simverif/shim/filepath",
	"os/exec":                            "simverif/shim/exec",
	"os/signal":                          "simverif/shim/signal",
	"crypto/rand":                        "simverif/shim/crand",
	"math/rand":                          "simverif/shim/mrand",
	"math/rand/v2":                       "simverif/shim/mrandv2",
	"io":                                 "simverif/shim/io",
	"io/ioutil":                          "simverif/shim/ioutil",
	"runtime":                            "simverif/shim/runtime",
	"syscall":                            "simverif/shim/syscall",
	"fmt":                                "simverif/shim/fmt",
	"log":                                "simverif/shim/log",
	"google.golang.org/grpc":             "simverif/stub/grpc",
	"google.golang.org/grpc/credentials": "simverif/stub/credentials",
	"github.com/stvp/rollbar":            "simverif/stub/rollbar",
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Error *struct{ Err string }
}

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrewrite: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "module to translate")
	out := flag.String("out", "", "output directory")
	modfile := flag.String("modfile", "", "copy of go.mod to use")
	dep := flag.String("dep", "github.com/cenkalti/backoff", "dependencies to translate as well (comma separated)")
	noRewrite := flag.String("plain", "pkg/pb", "packages (suffix) whose imports only are translated")
	flag.Parse()

	args := []string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Error"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	exports := map[string]string{}
	deps := map[string]bool{}
	for _, d := range strings.Split(*dep, ",") {
		deps[d] = true
	}
	var todo []pkgInfo
	main := ""
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail("go list output: %v", err)
		}
		if p.Error != nil {
			fail("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			main = p.Module.Path
			todo = append(todo, p)
		} else if deps[p.ImportPath] {
			todo = append(todo, p)
		}
	}
	if main == "" {
		fail("no packages")
	}
	remap := map[string]string{}
	for k, v := range shims {
		remap[k] = v
	}
	for d := range deps {
		remap[d] = main + "/xdep/" + d
	}
	var all []string
	for _, p := range todo {
		dst := filepath.Join(*out, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, main), "/"))
		if deps[p.ImportPath] {
			dst = filepath.Join(*out, "xdep", p.ImportPath)
		}
		plain := strings.HasSuffix(p.ImportPath, *noRewrite)
		if err := translate(p, dst, exports, remap, plain); err != nil {
			fail("%s: %v", p.ImportPath, err)
		}
		if !plain {
			ip := p.ImportPath
			if deps[ip] {
				ip = main + "/xdep/" + ip
			}
			all = append(all, ip)
		}
	}
	writeAll(filepath.Join(*out, "simall"), all)
}

// writeAll emits package simall, which resets every package in dependency order.
func writeAll(dir string, pkgs []string) {
	var b strings.Builder
	b.WriteString("// Package simall is generated by simrewrite.\npackage simall\n\nimport (\n")
	for i, p := range pkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\n// Reset puts every package's variables back.\nfunc Reset() {\n")
	for i := range pkgs {
		fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
	}
	b.WriteString("}\n")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "all.go"), []byte(b.String()), 0o644); err != nil {
		fail("%v", err)
	}
}

func translate(p pkgInfo, dst string, exports map[string]string, remap map[string]string, plain bool) error {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	t := &tr{fset: fset, info: info, pkg: tp}
	for i, f := range files {
		isMain := f.Name.Name == "main"
		t.file(f, plain, isMain, remap, i)
	}
	if !plain {
		t.resets(files)
	}
	for i, f := range files {
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return fmt.Errorf("%s: print: %v", p.GoFiles[i], err)
		}
		b.WriteString(t.extra[i])
		if err := os.WriteFile(filepath.Join(dst, "sim_"+strings.TrimSuffix(p.GoFiles[i], ".go")+"_x.go"), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

type tr struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	n        int
	captured map[types.Object]bool
	funcs    []ast.Node // enclosing functions, innermost last
	extra    map[int]string
	declFn   map[types.Object]ast.Node
	inits    []string
	gotos    map[*ast.Ident]bool
	initVar  map[types.Object]string
}

func (t *tr) tmp(p string) *ast.Ident {
	t.n++
	return ast.NewIdent(fmt.Sprintf("sim_%s%d", p, t.n))
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (t *tr) file(f *ast.File, plain, isMain bool, remap map[string]string, idx int) {
	if t.extra == nil {
		t.extra = map[int]string{}
	}
	if isMain {
		f.Name.Name = "monnymain"
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if to, ok := remap[path]; ok {
			im.Path.Value = strconv.Quote(to)
			if im.Name == nil {
				im.Name = ast.NewIdent(t.importName(path))
			}
		}
	}
	if plain {
		return
	}
	t.findCaptured(f)
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO {
			if t.gotos == nil {
				t.gotos = map[*ast.Ident]bool{}
			}
			t.gotos[b.Label] = true
		}
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				t.funcs = append(t.funcs, d)
				d.Body.List = t.block(d.Body.List)
				t.funcs = t.funcs[:len(t.funcs)-1]
			}
			if d.Recv == nil && d.Name.Name == "main" && isMain {
				d.Name.Name = "Main"
			}
			if d.Recv == nil && d.Name.Name == "init" {
				n := fmt.Sprintf("simInitFn%d_%d", idx, len(t.inits))
				t.inits = append(t.inits, n)
				d.Name.Name = n
				t.extra[idx] += fmt.Sprintf("\nfunc init() { %s() }\n", n)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					t.valueSpec(vs)
				}
			}
		}
	}
	// import the runtime
	spec := &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simverif/rt"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	t.extra[idx] += fmt.Sprintf("\nvar _ = %s.Y\n", rtName)
}

func (t *tr) importName(path string) string {
	for _, im := range t.pkg.Imports() {
		if im.Path() == path {
			return im.Name()
		}
	}
	return path[strings.LastIndex(path, "/")+1:]
}

// resets emits SimReset, which puts package variables back to their initial state.
func (t *tr) resets(files []*ast.File) {
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	var order []string
	seen := map[types.Object]bool{}
	for i, in := range t.info.InitOrder {
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			seen[v] = true
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		fi := fileOf(in.Lhs[0].Pos())
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), t.rewrittenInit(in, files)); err != nil {
			fail("initialiser: %v", err)
		}
		name := fmt.Sprintf("simInitVar%d", i)
		t.extra[fi] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), b.String())
		order = append(order, name)
	}
	var zero []string
	names := t.pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if v, ok := t.pkg.Scope().Lookup(n).(*types.Var); ok && !seen[v] {
			zero = append(zero, n)
		}
	}
	var b strings.Builder
	b.WriteString("\n// SimReset restores the package's variables to their initial values.\nfunc SimReset() {\n")
	for _, z := range zero {
		fmt.Fprintf(&b, "\t%s.Zero(&%s)\n", rtName, z)
	}
	for _, o := range order {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	for _, o := range t.inits {
		fmt.Fprintf(&b, "\t%s()\n", o)
	}
	b.WriteString("}\n")
	t.extra[0] += b.String()
}

func (t *tr) rewrittenInit(in *types.Initializer, files []*ast.File) ast.Expr {
	// the expression in the tree has been rewritten in place where it is a
	// composite; find it again through its ValueSpec, since the root may be new
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if t.info.Defs[n] == in.Lhs[0] {
						if len(vs.Values) == len(vs.Names) {
							return vs.Values[i]
						}
						if len(vs.Values) == 1 {
							return vs.Values[0]
						}
					}
				}
			}
		}
	}
	return in.Rhs
}

// --- captured variables -------------------------------------------------------

func (t *tr) findCaptured(f *ast.File) {
	if t.captured == nil {
		t.captured = map[types.Object]bool{}
		t.declFn = map[types.Object]ast.Node{}
	}
	var stack []ast.Node
	var visit func(n ast.Node) bool
	depthFn := func() ast.Node {
		if len(stack) == 0 {
			return nil
		}
		return stack[len(stack)-1]
	}
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			stack = append(stack, n)
			if n.Recv != nil {
				ast.Inspect(n.Recv, visit)
			}
			ast.Inspect(n.Type, visit)
			if n.Body != nil {
				ast.Inspect(n.Body, visit)
			}
			stack = stack[:len(stack)-1]
			return false
		case *ast.FuncLit:
			stack = append(stack, n)
			ast.Inspect(n.Type, visit)
			ast.Inspect(n.Body, visit)
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if o := t.info.Defs[n]; o != nil {
				if _, ok := o.(*types.Var); ok {
					t.declFn[o] = depthFn()
				}
			}
			if o := t.info.Uses[n]; o != nil {
				if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != t.pkg.Scope() && v.Pkg() == t.pkg {
					if d, ok := t.declFn[o]; ok && d != depthFn() {
						t.captured[o] = true
					}
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	// address-taken locals are shared as well
	ast.Inspect(f, func(n ast.Node) bool {
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
			if id, ok := ast.Unparen(u.X).(*ast.Ident); ok {
				if o := t.info.Uses[id]; o != nil {
					t.captured[o] = true
				}
			}
		}
		return true
	})
}

// sharedIn reports whether evaluating n (not counting nested blocks and function
// literals) may touch memory another task can see, or calls something.
func (t *tr) sharedIn(ns ...ast.Node) bool {
	found := false
	for _, n := range ns {
		if n == nil || reflect.ValueOf(n).IsNil() {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			if found {
				return false
			}
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.SelectorExpr:
				if _, ok := t.info.Selections[n]; ok {
					found = true
					return false
				}
				if v, ok := t.info.Uses[n.Sel].(*types.Var); ok && !v.IsField() {
					found = true // package variable of another package
				}
				return false
			case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr:
				found = true
				return false
			case *ast.CallExpr:
				if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
					if _, isB := t.info.Uses[id].(*types.Builtin); isB {
						return true
					}
				}
				if tv, ok := t.info.Types[n.Fun]; ok && tv.IsType() {
					return true
				}
				found = true
				return false
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					found = true
					return false
				}
			case *ast.Ident:
				if v, ok := t.info.Uses[n].(*types.Var); ok && !v.IsField() {
					if v.Parent() == t.pkg.Scope() || t.captured[v] {
						found = true
					}
				}
			}
			return true
		})
	}
	return found
}

// --- statements ----------------------------------------------------------------

func (t *tr) yield() ast.Stmt { return &ast.ExprStmt{X: call(rt("Y"))} }

func (t *tr) block(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if t.wantsYield(s) {
			out = append(out, t.yield())
		}
		out = append(out, t.stmt(s, nil)...)
	}
	return out
}

func (t *tr) wantsYield(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return t.wantsYield(s.Stmt)
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.DeclStmt:
		return t.sharedIn(s)
	case *ast.IfStmt:
		return t.sharedIn(s.Init, s.Cond)
	case *ast.SwitchStmt:
		return t.sharedIn(s.Init, s.Tag)
	case *ast.TypeSwitchStmt:
		return t.sharedIn(s.Init, s.Assign)
	case *ast.ForStmt:
		return t.sharedIn(s.Init, s.Cond)
	case *ast.RangeStmt:
		return t.sharedIn(s.X)
	case *ast.DeferStmt:
		return t.sharedIn(s.Call)
	}
	return false
}

// splitLabel renames the break and continue uses of a label that is also the target
// of a goto, and returns the new name (nil if there are none).
func (t *tr) splitLabel(s *ast.LabeledStmt) (inner *ast.Ident, isTarget bool) {
	switch s.Stmt.(type) {
	case *ast.RangeStmt, *ast.SelectStmt:
	default:
		return nil, false
	}
	obj := t.info.Defs[s.Label]
	for id, o := range t.info.Uses {
		if o == obj && obj != nil && t.gotos[id] {
			isTarget = true
		}
	}
	if !isTarget {
		return nil, false
	}
	name := t.tmp("l").Name
	ast.Inspect(s.Stmt, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil && b.Tok != token.GOTO && t.info.Uses[b.Label] == obj {
			b.Label = ast.NewIdent(name)
			inner = ast.NewIdent(name)
		}
		return true
	})
	return inner, true
}

func one(ss []ast.Stmt) ast.Stmt {
	if len(ss) == 1 {
		return ss[0]
	}
	return &ast.BlockStmt{List: ss}
}

func labelled(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (t *tr) stmt(s ast.Stmt, label *ast.Ident) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		// a goto must find its label in front of what the translation puts before
		// the statement, break and continue must find theirs on the loop itself
		if inner, isTarget := t.splitLabel(s); isTarget {
			return []ast.Stmt{&ast.LabeledStmt{Label: s.Label, Stmt: &ast.BlockStmt{List: t.stmt(s.Stmt, inner)}}}
		}
		return t.stmt(s.Stmt, s.Label)
	case *ast.BlockStmt:
		s.List = t.block(s.List)
		return []ast.Stmt{labelled(label, s)}
	case *ast.GoStmt:
		return []ast.Stmt{labelled(label, one(t.goStmt(s)))}
	case *ast.SendStmt:
		x := &ast.ExprStmt{X: call(call(rt("SendTo"), t.expr(s.Chan)), t.expr(s.Value))}
		return []ast.Stmt{labelled(label, x)}
	case *ast.SelectStmt:
		return t.selectStmt(s, label)
	case *ast.RangeStmt:
		return t.rangeStmt(s, label)
	case *ast.ForStmt:
		s.Init = t.simple(s.Init)
		if s.Cond != nil {
			s.Cond = t.expr(s.Cond)
		}
		s.Post = t.simple(s.Post)
		s.Body.List = append([]ast.Stmt{t.yield()}, t.block(s.Body.List)...)
		return []ast.Stmt{labelled(label, s)}
	case *ast.AssignStmt:
		return []ast.Stmt{labelled(label, t.assign(s))}
	case *ast.IncDecStmt:
		return []ast.Stmt{labelled(label, t.incdec(s))}
	case *ast.IfStmt:
		s.Init = t.simple(s.Init)
		s.Cond = t.expr(s.Cond)
		s.Body.List = t.block(s.Body.List)
		if s.Else != nil {
			s.Else = one(t.stmt(s.Else, nil))
		}
		return []ast.Stmt{labelled(label, s)}
	case *ast.SwitchStmt:
		s.Init = t.simple(s.Init)
		if s.Tag != nil {
			s.Tag = t.expr(s.Tag)
		}
		t.clauses(s.Body)
		return []ast.Stmt{labelled(label, s)}
	case *ast.TypeSwitchStmt:
		s.Init = t.simple(s.Init)
		s.Assign = t.simple(s.Assign)
		t.clauses(s.Body)
		return []ast.Stmt{labelled(label, s)}
	case *ast.DeferStmt:
		t.deferCall(s.Call)
		return []ast.Stmt{labelled(label, s)}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					t.valueSpec(vs)
				}
			}
		}
		return []ast.Stmt{labelled(label, s)}
	default:
		t.children(s)
		return []ast.Stmt{labelled(label, s)}
	}
}

// deferCall keeps `defer recover()` and other builtins native, but sends close to
// the simulator.
func (t *tr) deferCall(c *ast.CallExpr) {
	r := t.expr(c)
	if rc, ok := r.(*ast.CallExpr); ok {
		*c = *rc
	}
}

func (t *tr) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := t.stmt(s, nil)
	if len(r) != 1 {
		fail("%s: cannot translate statement in this position", t.fset.Position(s.Pos()))
	}
	return r[0]
}

func (t *tr) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		if cc, ok := c.(*ast.CaseClause); ok {
			for i := range cc.List {
				cc.List[i] = t.expr(cc.List[i])
			}
			cc.Body = t.block(cc.Body)
		}
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (t *tr) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u, ok := isRecv(vs.Values[0]); ok {
			vs.Values[0] = call(rt("Recv2"), t.expr(u.X))
			return
		}
	}
	for i := range vs.Values {
		vs.Values[i] = t.expr(vs.Values[i])
	}
}

// repeatable reports whether evaluating e twice is the same as once.
func (t *tr) repeatable(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return t.repeatable(e.X)
	case *ast.StarExpr:
		return t.repeatable(e.X)
	case *ast.IndexExpr:
		return t.repeatable(e.X) && t.repeatable(e.Index)
	}
	return false
}

// contextTyped reports whether e takes its type from where it is used, so that
// passing it to a generic function could change it.
func (t *tr) contextTyped(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.BinaryExpr:
		switch e.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return true
		case token.SHL, token.SHR:
			tv, ok := t.info.Types[e.X]
			return !ok || tv.Value != nil || t.contextTyped(e.X)
		}
		return t.contextTyped(e.X) || t.contextTyped(e.Y)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && e.Op != token.AND && t.contextTyped(e.X)
	}
	return false
}

// sharedLHS reports whether assigning to e may be seen by another task.
func (t *tr) sharedLHS(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if v, ok := t.info.Uses[e].(*types.Var); ok {
			return v.Parent() == t.pkg.Scope() || t.captured[v]
		}
		return false
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	}
	return false
}

func (t *tr) assign(s *ast.AssignStmt) ast.Stmt {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := isRecv(s.Rhs[0]); ok {
			s.Rhs[0] = call(rt("Recv2"), t.expr(u.X))
			for i := range s.Lhs {
				s.Lhs[i] = t.lhs(s.Lhs[i])
			}
			return s
		}
	}
	split := false
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok != token.DEFINE && t.sharedLHS(s.Lhs[0]) {
		lt := t.info.Types[s.Lhs[0]].Type
		if lt == nil {
			if id, ok := ast.Unparen(s.Lhs[0]).(*ast.Ident); ok && t.info.Uses[id] != nil {
				lt = t.info.Uses[id].Type()
			}
		}
		rtv := t.info.Types[s.Rhs[0]]
		switch {
		case s.Tok == token.ASSIGN:
			split = lt != nil && rtv.Type != nil && rtv.Value == nil && types.Identical(lt, rtv.Type) && !types.IsInterface(lt)
			if _, isFn := ast.Unparen(s.Rhs[0]).(*ast.FuncLit); isFn {
				split = false
			}
			if t.contextTyped(s.Rhs[0]) && !types.Identical(lt, types.Typ[types.Bool]) {
				split = false
			}
		default:
			split = lt != nil && t.repeatable(s.Lhs[0])
		}
	}
	var opLHS ast.Expr
	if split && s.Tok != token.ASSIGN {
		opLHS = s.Lhs[0]
	}
	for i := range s.Lhs {
		s.Lhs[i] = t.lhs(s.Lhs[i])
	}
	for i := range s.Rhs {
		s.Rhs[i] = t.expr(s.Rhs[i])
	}
	if split {
		if opLHS != nil {
			op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
				token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
				token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
			s.Rhs[0] = call(rt("V"), &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}})
			s.Tok = token.ASSIGN
		} else {
			s.Rhs[0] = call(rt("V"), s.Rhs[0])
		}
	}
	return s
}

// sharedMap reports whether e is a map that another task may reach.
func (t *tr) sharedMap(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, isMap := tv.Type.Underlying().(*types.Map)
	return isMap && t.sharedIn(e)
}

// lhs translates what is assigned to: an entry of a shared map is a write to the map.
func (t *tr) lhs(e ast.Expr) ast.Expr {
	if x, ok := ast.Unparen(e).(*ast.IndexExpr); ok && t.sharedMap(x.X) {
		x.X, x.Index = call(rt("MapW"), t.expr(x.X)), t.expr(x.Index)
		return x
	}
	return t.expr(e)
}

func (t *tr) incdec(s *ast.IncDecStmt) ast.Stmt {
	shared := t.sharedLHS(s.X) && t.repeatable(s.X)
	s.X = t.lhs(s.X)
	if !shared {
		return s
	}
	op := token.ADD
	if s.Tok == token.DEC {
		op = token.SUB
	}
	return &ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
		call(rt("V"), &ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}
}

func (t *tr) inline(e ast.Expr) bool {
	tv, ok := t.info.Types[e]
	if !ok {
		return false
	}
	if tv.Value != nil || tv.IsNil() || tv.IsType() {
		return true
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return true
	}
	return false
}

func (t *tr) goStmt(s *ast.GoStmt) []ast.Stmt {
	var pre []ast.Stmt
	c := s.Call
	fun := ast.Unparen(c.Fun)
	builtin := false
	if id, ok := fun.(*ast.Ident); ok {
		_, builtin = t.info.Uses[id].(*types.Builtin)
	}
	if _, ok := fun.(*ast.FuncLit); !ok && !builtin {
		if tv := t.info.Types[c.Fun]; !tv.IsType() {
			f := t.tmp("f")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{t.expr(c.Fun)}})
			c.Fun = f
		}
	} else if !builtin {
		c.Fun = t.expr(c.Fun)
	}
	multi := false
	if len(c.Args) == 1 {
		if tup, ok := t.info.Types[c.Args[0]].Type.(*types.Tuple); ok && tup.Len() > 1 {
			multi = true
			var lhs, uses []ast.Expr
			for i := 0; i < tup.Len(); i++ {
				a := t.tmp("a")
				lhs = append(lhs, a)
				uses = append(uses, ast.NewIdent(a.Name))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{t.expr(c.Args[0])}})
			c.Args = uses
		}
	}
	if !multi {
		for i, a := range c.Args {
			if t.inline(a) {
				c.Args[i] = t.expr(a)
				continue
			}
			if _, isFn := ast.Unparen(a).(*ast.FuncLit); isFn {
				c.Args[i] = t.expr(a)
				continue
			}
			v := t.tmp("a")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{t.expr(a)}})
			c.Args[i] = ast.NewIdent(v.Name)
		}
	}
	var body ast.Expr = c
	if builtin {
		body = t.builtinCall(c)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
	pre = append(pre, &ast.ExprStmt{X: call(rt("Go"), lit)})
	if len(pre) > 1 {
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	}
	return pre
}

func (t *tr) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{labelled(label, &ast.ExprStmt{X: call(rt("BlockForever"))}),
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}
	}
	var pre []ast.Stmt
	var arms []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: t.block(cc.Body)})
			continue
		}
		v := t.tmp("c")
		var body []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(call(rt("SendCase"), t.expr(cm.Chan)), t.expr(cm.Value))}})
		case *ast.ExprStmt:
			u, ok := isRecv(cm.X)
			if !ok {
				fail("%s: select arm", t.fset.Position(cm.Pos()))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("RecvCase"), t.expr(u.X))}})
		case *ast.AssignStmt:
			u, ok := isRecv(cm.Rhs[0])
			if !ok {
				fail("%s: select arm", t.fset.Position(cm.Pos()))
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("RecvCase"), t.expr(u.X))}})
			m := "Val"
			if len(cm.Lhs) == 2 {
				m = "Get2"
			}
			var lhs []ast.Expr
			for _, l := range cm.Lhs {
				lhs = append(lhs, t.expr(l))
			}
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok,
				Rhs: []ast.Expr{call(&ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent(m)})}})
		}
		arms = append(arms, ast.NewIdent(v.Name))
		body = append(body, t.block(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable select"`})}}})
	}
	d := "false"
	if hasDefault {
		d = "true"
	}
	sw.Tag = call(rt("Select"), append([]ast.Expr{ast.NewIdent(d)}, arms...)...)
	pre = append(pre, labelled(label, sw))
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (t *tr) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	var typ types.Type
	if tv, ok := t.info.Types[s.X]; ok {
		typ = tv.Type.Underlying()
	}
	s.X = t.expr(s.X)
	body := append([]ast.Stmt{t.yield()}, t.block(s.Body.List)...)
	switch typ.(type) {
	case *types.Chan:
		c, ok := t.tmp("c"), t.tmp("ok")
		blank := s.Key == nil
		if id, isID := s.Key.(*ast.Ident); isID && id.Name == "_" {
			blank = true
		}
		pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}}
		var v ast.Expr
		switch {
		case blank:
			v = ast.NewIdent("_")
		case s.Tok == token.DEFINE:
			v = s.Key
		default:
			tv := t.tmp("v")
			v = tv
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(tv.Name)}}}, body...)
		}
		recv := func() ast.Expr { return call(rt("Recv2"), ast.NewIdent(c.Name)) }
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv()}})
		loop := &ast.ForStmt{Cond: ast.NewIdent(ok.Name),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv()}},
			Body: &ast.BlockStmt{List: body}}
		pre = append(pre, labelled(label, loop))
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	case *types.Map:
		it := t.tmp("it")
		isBlank := func(e ast.Expr) bool {
			if e == nil {
				return true
			}
			id, ok := e.(*ast.Ident)
			return ok && id.Name == "_"
		}
		kb, vb := isBlank(s.Key), isBlank(s.Value)
		var pre []ast.Stmt
		var kref, vref ast.Expr = ast.NewIdent("nil"), ast.NewIdent("nil")
		if s.Tok == token.DEFINE {
			lhs := []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}
			if !kb {
				lhs[1] = s.Key
				kref = &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(s.Key.(*ast.Ident).Name)}
			}
			if !vb {
				lhs[2] = s.Value
				vref = &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(s.Value.(*ast.Ident).Name)}
			}
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("MapRange"), s.X)}})
		} else {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("MapRange"), s.X)}})
			if !kb {
				kref = &ast.UnaryExpr{Op: token.AND, X: t.expr(s.Key)}
			}
			if !vb {
				vref = &ast.UnaryExpr{Op: token.AND, X: t.expr(s.Value)}
			}
		}
		loop := &ast.ForStmt{Cond: call(&ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent("Next")}, kref, vref), Body: &ast.BlockStmt{List: body}}
		pre = append(pre, labelled(label, loop))
		return []ast.Stmt{&ast.BlockStmt{List: pre}}
	}
	if s.Key != nil && s.Tok == token.ASSIGN {
		s.Key = t.expr(s.Key)
	}
	if s.Value != nil && s.Tok == token.ASSIGN {
		s.Value = t.expr(s.Value)
	}
	s.Body.List = body
	return []ast.Stmt{labelled(label, s)}
}

// --- expressions -----------------------------------------------------------------

func (t *tr) builtinCall(c *ast.CallExpr) ast.Expr {
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := t.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "close":
				return call(rt("Close"), c.Args...)
			case "delete", "clear":
				if t.sharedMap(c.Args[0]) {
					c.Args[0] = call(rt("MapW"), c.Args[0])
				}
			case "make":
				if tv, ok := t.info.Types[c]; ok {
					if ch, ok := tv.Type.Underlying().(*types.Chan); ok && ch.Dir() == types.SendRecv {
						return call(rt("MadeChan"), c)
					}
				}
			}
		}
	}
	return c
}

func (t *tr) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(rt("Recv"), t.expr(e.X))
		}
	case *ast.FuncLit:
		t.funcs = append(t.funcs, e)
		e.Body.List = t.block(e.Body.List)
		t.funcs = t.funcs[:len(t.funcs)-1]
		return e
	case *ast.CallExpr:
		t.children(e)
		return t.builtinCall(e)
	case *ast.IndexExpr:
		shared := t.sharedMap(e.X)
		t.children(e)
		if shared {
			e.X = call(rt("MapR"), e.X)
		}
		return e
	case *ast.Ident, *ast.BasicLit:
		return e
	}
	t.children(e)
	return e
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// children rewrites the expressions directly below n.
func (t *tr) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(t.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				x := f.Index(j)
				if !x.IsNil() {
					x.Set(reflect.ValueOf(t.expr(x.Interface().(ast.Expr))))
				}
			}
		case f.Type() == stmtType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(t.simple(f.Interface().(ast.Stmt))))
			}
		}
	}
}
