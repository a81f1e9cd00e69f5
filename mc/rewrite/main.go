// Command rewrite copies the packages of the repository under test into a scratch
// module in which every synchronisation, clock and goroutine operation goes through
// the controlled runtime (package vrt). The logic of the code is left as it is.
//
// usage: rewrite -src /repo -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/QuangTung97/go-memcache"

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", a...)
	os.Exit(3)
}

// copyPlain copies the library's non-test sources to dst, as a module without dependencies.
func copyPlain(src, dst string) {
	skip := map[string]bool{".git": true, ".github": true, "examples": true, "tests": true, "docker": true, "testdata": true}
	err := filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			if skip[d.Name()] && rel != "." {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || rel == "tools.go" {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		to := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(to), 0o755); err != nil {
			return err
		}
		return os.WriteFile(to, data, 0o644)
	})
	if err != nil {
		die("copy: %v", err)
	}
	goVersion := "1.19"
	if data, err := os.ReadFile(filepath.Join(src, "go.mod")); err == nil {
		for _, l := range strings.Split(string(data), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				goVersion = f[1]
			}
		}
	}
	mod := fmt.Sprintf("module %s\n\ngo %s\n", modPath, goVersion)
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(mod), 0o644); err != nil {
		die("%v", err)
	}
}

func goList(dir string) []*listPkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Imports,ImportMap", "./memcache/...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	var r []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		r = append(r, p)
	}
	return r
}

type chainImporter struct {
	own map[string]*types.Package
	gc  types.Importer
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	if p := c.own[path]; p != nil {
		return p, nil
	}
	return c.gc.Import(path)
}

func main() {
	src := flag.String("src", "/repo", "repository")
	out := flag.String("out", "", "output directory: OUT/plain and OUT/subject")
	flag.Parse()
	if *out == "" {
		die("-out missing")
	}
	plain := filepath.Join(*out, "plain")
	copyPlain(*src, plain)
	pkgs := goList(plain)
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	imp := &chainImporter{own: map[string]*types.Package{}}
	imp.gc = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	subject := filepath.Join(*out, "subject")
	for _, p := range pkgs { // dependency order
		if p.Standard {
			continue
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
			Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("type check: %v", err)
		}
		imp.own[p.ImportPath] = tp
		rel, err := filepath.Rel(plain, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dir := filepath.Join(subject, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		rewritePackage(fset, tp, files, info, p.GoFiles, dir)
	}
	data, err := os.ReadFile(filepath.Join(plain, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	data = append(data, "\nrequire vrt v0.0.0\n"...)
	if err := os.WriteFile(filepath.Join(subject, "go.mod"), data, 0o644); err != nil {
		die("%v", err)
	}
}

// shim describes where the names of a standard package are redirected.
type shim struct {
	alias, path string
	only        map[string]bool
	except      map[string]bool
}

func set(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

var shims = map[string]shim{
	"sync":        {alias: "vrtsync", path: "vrt/vsync"},
	"sync/atomic": {alias: "vrtatomic", path: "vrt/vatomic"},
	"time": {alias: "vrttime", path: "vrt/vtime", only: set("Now", "Since", "Until", "Sleep", "Timer", "NewTimer",
		"AfterFunc", "After", "Tick", "Ticker", "NewTicker")},
	"context":      {alias: "vrtcontext", path: "vrt/vcontext"},
	"math/rand":    {alias: "vrtrand", path: "vrt/vrand", except: set("New", "NewSource", "Rand", "Source", "Source64", "NewZipf", "Zipf")},
	"math/rand/v2": {alias: "vrtrand", path: "vrt/vrand", except: set("New", "NewPCG", "NewChaCha8", "Rand", "Source", "PCG", "ChaCha8", "NewZipf", "Zipf")},
	"runtime":      {alias: "vrtruntime", path: "vrt/vruntime", only: set("Gosched", "NumGoroutine")},
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	imports map[string]string // alias -> path, added
	n       int
	keep    map[*ast.ImportSpec]bool
	byObj   map[*types.PkgName]*ast.ImportSpec
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) vrt(name string) ast.Expr {
	r.imports["vrtrt"] = "vrt"
	return &ast.SelectorExpr{X: id("vrtrt"), Sel: id(name)}
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return fmt.Sprintf("vrt%s%d", p, r.n)
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	if ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if _, ok := tp.Underlying().(*types.Interface); ok {
			return false
		}
	}
	return false
}

func (r *rewriter) builtin(e ast.Expr) string {
	if i, ok := ast.Unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// children rewrites the fields of a node.
func (r *rewriter) children(n any) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		r.field(v.Field(i))
	}
}

func (r *rewriter) field(f reflect.Value) {
	if !f.CanSet() {
		return
	}
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch f.Type() {
		case exprType:
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		case stmtType:
			f.Set(reflect.ValueOf(r.stmt(f.Interface().(ast.Stmt))))
		default:
			if f.Type().Implements(nodeType) {
				r.children(f.Interface())
			}
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			r.field(f.Index(i))
		}
	case reflect.Pointer:
		if f.IsNil() || !f.Type().Implements(nodeType) {
			return
		}
		n := f.Interface().(ast.Node)
		if e, ok := n.(ast.Expr); ok {
			ne := r.expr(e)
			nv := reflect.ValueOf(ne)
			if nv.Type().AssignableTo(f.Type()) {
				f.Set(nv)
				return
			}
			die("%s: cannot rewrite in place", r.fset.Position(n.Pos()))
		}
		if s, ok := n.(ast.Stmt); ok {
			ns := r.stmt(s)
			nv := reflect.ValueOf(ns)
			if nv.Type().AssignableTo(f.Type()) {
				f.Set(nv)
				return
			}
			die("%s: cannot rewrite in place", r.fset.Position(n.Pos()))
		}
		r.children(n)
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				s, ok := shims[pn.Imported().Path()]
				if ok && (s.only == nil || s.only[x.Sel.Name]) && !s.except[x.Sel.Name] {
					r.imports[s.alias] = s.path
					return &ast.SelectorExpr{X: id(s.alias), Sel: id(x.Sel.Name)}
				}
				r.keep[r.byObj[pn]] = true
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vrt("Chan"), Index: r.expr(x.Value)}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.vrt("Recv"), r.expr(x.X))
		}
	case *ast.CallExpr:
		switch r.builtin(x.Fun) {
		case "make":
			if t := r.info.TypeOf(x.Args[0]); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						size = call(id("int"), r.expr(x.Args[1]))
					}
					if ct, ok := ast.Unparen(x.Args[0]).(*ast.ChanType); ok {
						return call(&ast.IndexExpr{X: r.vrt("MakeChan"), Index: r.expr(ct.Value)}, size)
					}
					return call(&ast.IndexExpr{X: r.vrt("MakeNamed"), Index: r.expr(x.Args[0])}, size)
				}
			}
		case "close":
			return call(r.vrt("Close"), r.expr(x.Args[0]))
		case "len", "cap":
			if r.isChan(x.Args[0]) {
				name := map[string]string{"len": "Len", "cap": "Cap"}[r.builtin(x.Fun)]
				return call(r.vrt(name), r.expr(x.Args[0]))
			}
		}
	case *ast.FuncLit:
		x.Type = r.expr(x.Type).(*ast.FuncType)
		r.block(x.Body)
		return x
	}
	r.children(e)
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	for i, s := range b.List {
		b.List[i] = r.stmt(s)
	}
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
		return x
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if ch, ok := recvOf(x.Rhs[0]); ok {
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = call(r.vrt("Recv2"), r.expr(ch))
				return x
			}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
			return x
		}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vrt("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeChan(x)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x, "")
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label.Name)
		}
	case *ast.DeferStmt:
		// defer close(ch): builtins become ordinary functions, fine
	}
	r.children(s)
	return s
}

func (r *rewriter) genDecl(g *ast.GenDecl) {
	for _, sp := range g.Specs {
		switch y := sp.(type) {
		case *ast.ValueSpec:
			if len(y.Names) == 2 && len(y.Values) == 1 {
				if ch, ok := recvOf(y.Values[0]); ok {
					y.Type = r.expr(y.Type)
					y.Values[0] = call(r.vrt("Recv2"), r.expr(ch))
					continue
				}
			}
			if y.Type != nil {
				y.Type = r.expr(y.Type)
			}
			for i := range y.Values {
				y.Values[i] = r.expr(y.Values[i])
			}
		case *ast.TypeSpec:
			if y.TypeParams != nil {
				r.children(y.TypeParams)
			}
			y.Type = r.expr(y.Type)
		}
	}
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		return &ast.ExprStmt{X: call(r.vrt("Go"), r.expr(lit))}
	}
	var lhs, rhs []ast.Expr
	capture := func(orig ast.Expr) ast.Expr {
		tv := r.info.Types[orig]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return r.expr(orig)
		}
		n := r.tmp("a")
		lhs = append(lhs, id(n))
		rhs = append(rhs, r.expr(orig))
		return id(n)
	}
	inlineFun := r.builtin(c.Fun) != ""
	if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Instances[i]; ok {
			inlineFun = true
		}
		if _, ok := r.info.Uses[i].(*types.Func); ok {
			inlineFun = true
		}
	}
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	if inlineFun {
		if b := r.builtin(c.Fun); b != "" {
			die("%s: go with builtin %s", r.fset.Position(g.Pos()), b)
		}
		nc.Fun = r.expr(c.Fun)
	} else {
		nc.Fun = capture(c.Fun)
	}
	for _, a := range c.Args {
		nc.Args = append(nc.Args, capture(a))
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	spawn := &ast.ExprStmt{X: call(r.vrt("Go"), lit)}
	if len(lhs) == 0 {
		return spawn
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, spawn}}
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c, ok := r.tmp("c"), r.tmp("ok")
	ch := r.expr(x.X)
	r.block(x.Body)
	var list []ast.Stmt
	recv := call(r.vrt("Recv2"), id(c))
	stop := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	switch {
	case x.Key == nil:
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, stop)
	case x.Tok == token.DEFINE:
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, stop)
	default:
		v := r.tmp("v")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, stop,
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
	}
	list = append(list, x.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}},
		Body: &ast.BlockStmt{List: list},
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label string) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.vrt("BlockForever"))}}}}
	}
	out := &ast.BlockStmt{}
	args := []ast.Expr{id("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	last := len(x.Body.List) - 1
	for _, s := range x.Body.List {
		if s.(*ast.CommClause).Comm == nil {
			hasDefault = true
			args[0] = id("true")
		}
	}
	n := 0
	for k, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		clause := &ast.CaseClause{}
		var pre []ast.Stmt
		switch c := cc.Comm.(type) {
		case nil:
		case *ast.SendStmt:
			v := r.tmp("s")
			out.List = append(out.List, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(call(r.vrt("CaseSend"), r.expr(c.Chan)), r.expr(c.Value))}})
			args = append(args, id(v))
		default:
			var chx ast.Expr
			v := r.tmp("s")
			var asg *ast.AssignStmt
			switch d := c.(type) {
			case *ast.ExprStmt:
				chx, _ = recvOf(d.X)
			case *ast.AssignStmt:
				chx, _ = recvOf(d.Rhs[0])
				asg = d
			}
			if chx == nil {
				die("%s: unsupported select case", r.fset.Position(cc.Pos()))
			}
			out.List = append(out.List, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE,
				Rhs: []ast.Expr{call(r.vrt("CaseRecv"), r.expr(chx))}})
			args = append(args, id(v))
			if asg != nil {
				rhs := []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id("V")}}
				if len(asg.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: id(v), Sel: id("OK")})
				}
				var lhs []ast.Expr
				blank := true
				for _, l := range asg.Lhs {
					if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
						blank = false
					}
					lhs = append(lhs, r.expr(l))
				}
				tok := asg.Tok
				if blank {
					tok = token.ASSIGN
				}
				pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
			}
		}
		if cc.Comm != nil {
			if hasDefault || k != last {
				clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			}
			n++
		}
		for i := range cc.Body {
			cc.Body[i] = r.stmt(cc.Body[i])
		}
		clause.Body = append(pre, cc.Body...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	sw.Tag = call(r.vrt("Select"), args...)
	if label != "" {
		out.List = append(out.List, &ast.LabeledStmt{Label: id(label), Stmt: sw})
	} else {
		out.List = append(out.List, sw)
	}
	return out
}

func rewritePackage(fset *token.FileSet, tp *types.Package, files []*ast.File, info *types.Info, names []string, dir string) {
	varSpec := map[types.Object]*ast.ValueSpec{}
	resetName := map[*ast.ValueSpec]string{}
	var zero []string
	var inits []string
	count := 0
	for fi, f := range files {
		r := &rewriter{fset: fset, info: info, imports: map[string]string{}, keep: map[*ast.ImportSpec]bool{}, byObj: map[*types.PkgName]*ast.ImportSpec{}}
		for _, im := range f.Imports {
			var o types.Object
			if im.Name != nil {
				if im.Name.Name == "." {
					die("%s: dot import", fset.Position(im.Pos()))
				}
				if im.Name.Name == "_" {
					r.keep[im] = true
				}
				o = info.Defs[im.Name]
			} else {
				o = info.Implicits[im]
			}
			if pn, ok := o.(*types.PkgName); ok {
				r.byObj[pn] = im
			}
		}
		var extra []ast.Decl
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					continue
				}
				r.genDecl(x)
				if x.Tok == token.VAR {
					for _, sp := range x.Specs {
						vs := sp.(*ast.ValueSpec)
						var lhs []ast.Expr
						real := false
						for _, n := range vs.Names {
							lhs = append(lhs, id(n.Name))
							if n.Name != "_" {
								real = true
								zero = append(zero, n.Name)
								varSpec[info.Defs[n]] = vs
							}
						}
						if real && len(vs.Values) > 0 {
							count++
							name := fmt.Sprintf("vrtReset%d", count)
							resetName[vs] = name
							extra = append(extra, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}},
								Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values}}}})
						}
					}
				}
			case *ast.FuncDecl:
				if x.Recv != nil {
					r.children(x.Recv)
				}
				x.Type = r.expr(x.Type).(*ast.FuncType)
				r.block(x.Body)
				if x.Recv == nil && x.Name.Name == "init" {
					count++
					name := fmt.Sprintf("vrtInit%d", count)
					x.Name = id(name)
					inits = append(inits, name)
				}
			}
		}
		// imports
		var decls []ast.Decl
		g := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2}
		for _, im := range f.Imports {
			if r.keep[im] {
				sp := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}}
				if im.Name != nil {
					sp.Name = id(im.Name.Name)
				}
				g.Specs = append(g.Specs, sp)
			}
		}
		var al []string
		for a := range r.imports {
			al = append(al, a)
		}
		sort.Strings(al)
		for _, a := range al {
			g.Specs = append(g.Specs, &ast.ImportSpec{Name: id(a), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.imports[a])}})
		}
		if len(g.Specs) > 0 {
			decls = append(decls, g)
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			decls = append(decls, d)
		}
		var buf bytes.Buffer
		fmt.Fprintf(&buf, "package %s\n\n", f.Name.Name)
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		for _, d := range append(decls, extra...) {
			if err := cfg.Fprint(&buf, fset, d); err != nil {
				die("print: %v", err)
			}
			buf.WriteString("\n\n")
		}
		if err := os.WriteFile(filepath.Join(dir, names[fi]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"vrt\"\n\nfunc init() {\n", tp.Name())
	for _, n := range inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("\tvrt.RegisterReset(func() {\n")
	for _, n := range zero {
		fmt.Fprintf(&b, "\t\tvrt.Zero(&%s)\n", n)
	}
	done := map[*ast.ValueSpec]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			vs := varSpec[v]
			if vs != nil && !done[vs] && resetName[vs] != "" {
				done[vs] = true
				fmt.Fprintf(&b, "\t\t%s()\n", resetName[vs])
			}
		}
	}
	for _, n := range inits {
		fmt.Fprintf(&b, "\t\t%s()\n", n)
	}
	b.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(dir, "zz_vrt_reset.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}
