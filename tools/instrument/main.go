// Command instrument makes a copy of a Go module whose goroutines, channels, locks, clock and network run on
// the deterministic simulator: it copies the module's non-test sources into a scratch directory and rewrites
// them. The module itself is never modified.
//
//	instrument -repo /repo -sim /verif/sim -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/hired/gevulot"
const zz = mod + "/zzsim"

var shims = map[string]string{
	"sync":                         zz + "/shim/sync",
	"sync/atomic":                  zz + "/shim/atomic",
	"time":                         zz + "/shim/time",
	"context":                      zz + "/shim/context",
	"net":                          zz + "/shim/net",
	"math/rand":                    zz + "/shim/rand",
	"math/rand/v2":                 zz + "/shim/randv2",
	"crypto/rand":                  zz + "/shim/crand",
	"github.com/fsnotify/fsnotify": zz + "/shim/fsnotify",
}

type goPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

type target struct {
	p     *goPkg
	out   string
	mode  int // 0 full with points, 1 full with fine points, 3 full without points
	newIP string
}

var (
	sites    = []string{"sim"}
	exports  = map[string]string{}
	moved    = map[string]string{} // import path -> replacement
	repoRoot string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module to copy")
	sim := flag.String("sim", "", "simulator sources")
	out := flag.String("out", "", "scratch directory (must not exist or be empty)")
	flag.Parse()
	repoRoot = *repo
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Imports,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*goPkg{}
	var order []string
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p.ImportPath)
		exports[p.ImportPath] = p.Export
		if p.Error != nil && p.Module != nil && p.Module.Path == mod {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
	}
	var targets []*target
	for _, ip := range order {
		p := pkgs[ip]
		switch {
		case p.Module != nil && p.Module.Path == mod:
			if p.Name == "main" {
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(ip, mod), "/")
			t := &target{p: p, out: filepath.Join(*out, rel), newIP: ip}
			if strings.HasSuffix(ip, "/pkg/pg") || strings.HasSuffix(ip, "/pkg/pgmeta") {
				t.mode = 1
			}
			targets = append(targets, t)
		case strings.HasPrefix(ip, "golang.org/x/sync/"):
			base := filepath.Base(ip)
			moved[ip] = zz + "/dep/" + base
			targets = append(targets, &target{p: p, out: filepath.Join(*out, "zzsim/dep", base), newIP: moved[ip]})
		case ip == "database/sql" || strings.HasPrefix(ip, "database/sql/"):
			rel := "sql" + strings.TrimPrefix(ip, "database/sql")
			moved[ip] = zz + "/dep/" + rel
			targets = append(targets, &target{p: p, out: filepath.Join(*out, "zzsim/dep", rel), mode: 3, newIP: moved[ip]})
		case ip == "github.com/lib/pq" || strings.HasPrefix(ip, "github.com/lib/pq/"):
			rel := "pq" + strings.TrimPrefix(ip, "github.com/lib/pq")
			moved[ip] = zz + "/dep/" + rel
			targets = append(targets, &target{p: p, out: filepath.Join(*out, "zzsim/dep", rel), mode: 3, newIP: moved[ip]})
		}
	}
	for _, t := range targets {
		if err := doPkg(t); err != nil {
			die("%s: %v", t.p.ImportPath, err)
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(*repo, f))
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(*out, f), data)
	}
	// simulator
	err = filepath.Walk(*sim, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*sim, p)
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		write(filepath.Join(*out, "zzsim", rel), data)
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	var sb bytes.Buffer
	sb.WriteString("//go:build go1.21\n\npackage simrt\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	sb.WriteString("\t}\n}\n")
	write(filepath.Join(*out, "zzsim/simrt/zz_sites.go"), sb.Bytes())
}

func write(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		die("%v", err)
	}
}

type fileRW struct {
	t      *target
	fset   *token.FileSet
	info   *types.Info
	sizes  types.Sizes
	fn     []string
	tmp    int
	useRT  bool
	osExit bool
	gotos  map[types.Object][]*ast.BranchStmt // by label
	loops  map[types.Object]bool              // labels of break or continue
}

func (r *fileRW) labels(f *ast.File) {
	r.gotos, r.loops = map[types.Object][]*ast.BranchStmt{}, map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil {
			if obj := r.info.Uses[b.Label]; b.Tok == token.GOTO {
				r.gotos[obj] = append(r.gotos[obj], b)
			} else {
				r.loops[obj] = true
			}
		}
		return true
	})
}

func doPkg(t *target) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var cons []string
	for _, n := range t.p.GoFiles {
		src, err := os.ReadFile(filepath.Join(t.p.Dir, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(t.p.Dir, n), src, 0)
		if err != nil {
			return err
		}
		files = append(files, f)
		cons = append(cons, buildLine(src))
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	sizes := types.SizesFor("gc", "amd64")
	if t.mode != 2 {
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		conf := types.Config{Importer: imp, Sizes: sizes}
		if _, err := conf.Check(t.p.ImportPath, fset, files, info); err != nil {
			return err
		}
	}
	for i, f := range files {
		rw := &fileRW{t: t, fset: fset, info: info, sizes: sizes}
		if t.mode != 2 {
			rw.labels(f)
			for _, d := range f.Decls {
				rw.decl(d)
			}
		}
		rewriteImports(f, t.mode, rw)
		var b bytes.Buffer
		if cons[i] != "" {
			fmt.Fprintf(&b, "//go:build (%s) && go1.21\n\n", cons[i])
		} else if t.p.Standard {
			b.WriteString("//go:build go1.27\n\n")
		} else {
			b.WriteString("//go:build go1.21\n\n")
		}
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			return err
		}
		b.WriteString("\n")
		if rw.osExit {
			b.WriteString("\nvar _ = os.Args\n")
		}
		write(filepath.Join(t.out, t.p.GoFiles[i]), b.Bytes())
	}
	return nil
}

func buildLine(src []byte) string {
	for _, l := range strings.Split(string(src), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			if x, err := constraint.Parse(l); err == nil {
				return x.String()
			}
		}
	}
	return ""
}

// usesPipe tells whether a file uses io.Pipe, whose goroutines meet in unsimulated channels.
func usesPipe(f *ast.File) bool {
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && strings.HasPrefix(s.Sel.Name, "Pipe") {
			found = true
		}
		return !found
	})
	return found
}

func rewriteImports(f *ast.File, mode int, rw *fileRW) {
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := ""
		if mode == 2 {
			if p == "net" {
				n = shims[p]
			}
		} else {
			n = shims[p]
			if p == "io" && usesPipe(f) {
				n = zz + "/shim/io"
			}
		}
		if m := moved[p]; m != "" {
			n = m
		}
		if n != "" {
			s.Path.Value = strconv.Quote(n)
			if p == "github.com/lib/pq/oid" && s.Name == nil {
				s.Name = ast.NewIdent("oid")
			}
		}
		s.EndPos = 0
	}
	f.Comments = nil
	f.Doc = nil
	if rw.useRT {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "/simrt")}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
}

// ---------------------------------------------------------------------------------------------------

func (r *fileRW) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	fn := ""
	if len(r.fn) > 0 {
		fn = " (" + r.fn[len(r.fn)-1] + ")"
	}
	file := p.Filename
	if rel, err := filepath.Rel(repoRoot, file); err == nil && !strings.HasPrefix(rel, "..") {
		file = rel
	} else {
		file = filepath.Base(filepath.Dir(file)) + "/" + filepath.Base(file)
	}
	sites = append(sites, fmt.Sprintf("%s:%d%s", file, p.Line, fn))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(sites) - 1)}
}

func (r *fileRW) rt(name string, args ...ast.Expr) *ast.CallExpr {
	r.useRT = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *fileRW) temp(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.tmp))
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (r *fileRW) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		d.Doc = nil
		name := d.Name.Name
		if d.Recv != nil && len(d.Recv.List) > 0 {
			t := d.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if ix, ok := t.(*ast.IndexExpr); ok {
				t = ix.X
			}
			if i, ok := t.(*ast.Ident); ok {
				name = i.Name + "." + name
			}
		}
		if d.Body != nil {
			r.fn = append(r.fn, name)
			r.block(d.Body)
			r.fn = r.fn[:len(r.fn)-1]
		}
	case *ast.GenDecl:
		r.genDecl(d)
	}
}

func (r *fileRW) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u := r.recv(s.Values[0]); u != nil {
					s.Values[0] = r.rt("Recv2", r.expr(u.X))
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = r.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
		case *ast.ImportSpec:
			s.Doc, s.Comment = nil, nil
		}
	}
}

func (r *fileRW) recv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *fileRW) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *fileRW) under(e ast.Expr) types.Type {
	t := r.typeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *fileRW) isChan(e ast.Expr) bool { _, ok := r.under(e).(*types.Chan); return ok }

func (r *fileRW) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *fileRW) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// expr rewrites an expression and returns its replacement.
func (r *fileRW) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.rt("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.FuncLit:
		n := "func"
		if len(r.fn) > 0 {
			n = strings.TrimSuffix(r.fn[len(r.fn)-1], ".func") + ".func"
		}
		r.fn = append(r.fn, n)
		r.block(e.Body)
		r.fn = r.fn[:len(r.fn)-1]
	case *ast.CallExpr:
		return r.call(e)
	}
	return e
}

func (r *fileRW) call(e *ast.CallExpr) ast.Expr {
	if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() {
		r.exprs(e.Args)
		return e
	}
	switch r.builtin(e.Fun) {
	case "close":
		return r.rt("Close", r.expr(e.Args[0]))
	case "len":
		if r.isChan(e.Args[0]) {
			if c, ok := r.under(e.Args[0]).(*types.Chan); ok && c.Dir() == types.SendOnly {
				return r.rt("LenSend", r.expr(e.Args[0]))
			}
			return r.rt("Len", r.expr(e.Args[0]))
		}
	case "make":
		t := r.typeOf(e.Args[0])
		if t == nil {
			break
		}
		switch u := t.Underlying().(type) {
		case *types.Chan:
			r.exprs(e.Args[1:])
			return r.rt("MakeChan", e)
		case *types.Slice:
			r.guard(e, u.Elem())
			return e
		case *types.Map:
			r.guard(e, types.Typ[types.Complex128])
			return e
		}
	}
	if s, ok := e.Fun.(*ast.SelectorExpr); ok {
		if x, ok := s.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok && pn.Imported().Path() == "os" && s.Sel.Name == "Exit" {
				r.osExit = true
				return r.rt("OSExit", r.expr(e.Args[0]))
			}
		}
	}
	if s, ok := e.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Grow" && len(e.Args) == 1 {
		if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && (f.Pkg().Path() == "bytes" || f.Pkg().Path() == "strings") && r.info.Types[e.Args[0]].Value == nil {
			s.X = r.expr(s.X)
			e.Args[0] = r.rt("AllocGuard", &ast.CallExpr{Fun: id("int"), Args: []ast.Expr{r.expr(e.Args[0])}}, &ast.BasicLit{Kind: token.INT, Value: "1"})
			return e
		}
	}
	e.Fun = r.expr(e.Fun)
	r.exprs(e.Args)
	return e
}

func (r *fileRW) guard(e *ast.CallExpr, elem types.Type) {
	for i := 1; i < len(e.Args); i++ {
		a := e.Args[i]
		if tv := r.info.Types[a]; tv.Value != nil {
			continue
		}
		if hasTypeParam(elem) {
			e.Args[i] = r.expr(a)
			continue
		}
		sz := r.sizes.Sizeof(elem)
		e.Args[i] = r.rt("AllocGuard", &ast.CallExpr{Fun: id("int"), Args: []ast.Expr{r.expr(a)}},
			&ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(sz, 10)})
	}
}

func hasTypeParam(t types.Type) bool {
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Array:
		return hasTypeParam(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasTypeParam(t.Field(i).Type()) {
				return true
			}
		}
	case *types.Named:
		if a := t.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				if hasTypeParam(a.At(i)) {
					return true
				}
			}
		}
	}
	return false
}

func (r *fileRW) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *fileRW) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		var pt ast.Stmt
		switch s.(type) {
		case *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt, *ast.BranchStmt:
		default:
			fn := "Point"
			if r.t.mode == 1 {
				fn = "FinePoint"
			}
			if r.t.mode != 3 {
				pt = &ast.ExprStmt{X: r.rt(fn, r.site(s))}
			}
		}
		if ls, ok := s.(*ast.LabeledStmt); ok {
			out = append(out, r.labeled(ls))
			continue
		}
		if pt != nil {
			out = append(out, pt)
		}
		if k := r.noteKeys(s); k != nil {
			out = append(out, k...)
		}
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *fileRW) labeled(ls *ast.LabeledStmt) ast.Stmt {
	switch ls.Stmt.(type) {
	case *ast.RangeStmt, *ast.SelectStmt:
		// what replaces them is a block: a goto has to enter it at its beginning, break and continue mean the loop in it
		obj := r.info.Defs[ls.Label]
		if obj == nil || len(r.gotos[obj]) == 0 {
			return r.stmt(ls.Stmt, ls.Label)
		}
		start := id("zzgoto_" + ls.Label.Name)
		for _, b := range r.gotos[obj] {
			b.Label = id(start.Name)
		}
		inner := ls.Label
		if !r.loops[obj] {
			inner = nil
		}
		return &ast.LabeledStmt{Label: start, Stmt: &ast.BlockStmt{List: []ast.Stmt{r.stmt(ls.Stmt, inner)}}}
	}
	ls.Stmt = r.stmt(ls.Stmt, nil)
	return ls
}

func (r *fileRW) noteKeys(s ast.Stmt) []ast.Stmt {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok == token.DEFINE {
		return nil
	}
	var out []ast.Stmt
	for _, l := range a.Lhs {
		ix, ok := l.(*ast.IndexExpr)
		if !ok {
			continue
		}
		m, ok := r.under(ix.X).(*types.Map)
		if !ok {
			continue
		}
		switch m.Key().Underlying().(type) {
		case *types.Pointer, *types.Interface:
		default:
			continue
		}
		switch ix.Index.(type) {
		case *ast.Ident, *ast.SelectorExpr:
			out = append(out, &ast.ExprStmt{X: r.rt("NoteKey", ix.Index)})
		}
	}
	return out
}

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func withLabel(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// stmt rewrites a statement; label, if any, belongs on the loop or switch that replaces it.
func (r *fileRW) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("SendTo", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := r.recv(s.Rhs[0]); u != nil {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.rt("Recv2", r.expr(u.X))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		c, ok := r.call(s.Call).(*ast.CallExpr)
		if !ok {
			die("unexpected defer")
		}
		s.Call = c
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, nil)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post, nil)
		r.block(s.Body)
		if len(s.Body.List) == 0 {
			// an empty loop body must still be a scheduling point
			s.Body.List = []ast.Stmt{&ast.ExprStmt{X: r.rt("Point", r.site(s))}}
		}
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Tag = r.expr(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Assign = r.stmt(s.Assign, nil)
		r.clauses(s.Body)
	case *ast.LabeledStmt:
		return r.labeled(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.RangeStmt:
		return r.rangeStmt(s, label)
	}
	return withLabel(label, s)
}

func (r *fileRW) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *fileRW) goStmt(s *ast.GoStmt) ast.Stmt {
	site := r.site(s)
	call := s.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.rt("Go", site, r.expr(fl))}
		}
	}
	var pre []ast.Stmt
	keep := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() {
			return e
		}
		t := r.temp("g")
		pre = append(pre, define([]ast.Expr{t}, r.expr(e)))
		return id(t.Name)
	}
	if r.builtin(call.Fun) == "" {
		static := false
		switch f := call.Fun.(type) {
		case *ast.Ident:
			_, static = r.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if r.info.Selections[f] == nil {
				_, static = r.info.Uses[f.Sel].(*types.Func)
			}
		case *ast.IndexExpr, *ast.IndexListExpr:
			static = true
		}
		if !static {
			call.Fun = keep(call.Fun)
		}
		tuple := false
		if len(call.Args) == 1 {
			_, tuple = r.typeOf(call.Args[0]).(*types.Tuple)
		}
		if tuple {
			r.exprs(call.Args)
		} else {
			sig, _ := r.under(s.Call.Fun).(*types.Signature)
			_ = sig
			for i := range call.Args {
				call.Args[i] = keep(call.Args[i])
			}
		}
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}
		pre = append(pre, &ast.ExprStmt{X: r.rt("Go", site, lit)})
		return &ast.BlockStmt{List: pre}
	}
	for i := range call.Args {
		call.Args[i] = keep(call.Args[i])
	}
	x := r.builtinCall(call)
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}}
	pre = append(pre, &ast.ExprStmt{X: r.rt("Go", site, lit)})
	return &ast.BlockStmt{List: pre}
}

func (r *fileRW) builtinCall(c *ast.CallExpr) ast.Expr {
	if r.builtin(c.Fun) == "close" {
		return r.rt("Close", c.Args[0])
	}
	return c
}

func (r *fileRW) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return withLabel(label, &ast.ExprStmt{X: r.rt("BlockForever")})
	}
	site := r.site(s)
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		cv := r.temp("c")
		var first ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{cv}, &ast.CallExpr{Fun: r.rt("CaseSend", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}))
		case *ast.ExprStmt:
			u := r.recv(cm.X)
			pre = append(pre, define([]ast.Expr{cv}, r.rt("CaseRecv", r.expr(u.X))))
		case *ast.AssignStmt:
			u := r.recv(cm.Rhs[0])
			pre = append(pre, define([]ast.Expr{cv}, r.rt("CaseRecv", r.expr(u.X))))
			m := "V"
			if len(cm.Lhs) == 2 {
				m = "V2"
			}
			r.exprs(cm.Lhs)
			blank := true
			for _, l := range cm.Lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					blank = false
				}
			}
			tok := cm.Tok
			if blank {
				tok = token.ASSIGN
			}
			first = &ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id(cv.Name), Sel: id(m)}}}}
		}
		var body []ast.Stmt
		if first != nil {
			body = append(body, first)
		}
		body = append(body, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body,
		})
		cases = append(cases, id(cv.Name))
		idx++
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: unreachable"`}}}},
		}})
	}
	hd := "false"
	if hasDefault {
		hd = "true"
	}
	sw.Tag = r.rt("Select", append([]ast.Expr{site, id(hd)}, cases...)...)
	return &ast.BlockStmt{List: append(pre, withLabel(label, sw))}
}

func blankOrNil(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *fileRW) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	switch r.under(s.X).(type) {
	case *types.Chan:
		cv, ok := r.temp("c"), r.temp("ok")
		pre := []ast.Stmt{define([]ast.Expr{cv}, r.expr(s.X))}
		var val ast.Expr = id("_")
		if !blankOrNil(s.Key) {
			if s.Tok == token.DEFINE {
				pre = append(pre, define([]ast.Expr{s.Key}, r.rt("ChanZero", id(cv.Name))))
				val = id(s.Key.(*ast.Ident).Name)
			} else {
				val = r.expr(s.Key)
			}
		}
		r.block(s.Body)
		var got ast.Expr = id("_")
		if !blankOrNil(val) {
			got = r.temp("v")
		}
		head := []ast.Stmt{
			define([]ast.Expr{got, ok}, r.rt("Recv2", id(cv.Name))),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !blankOrNil(val) { // the end of the channel leaves the variable alone
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: token.ASSIGN, Rhs: []ast.Expr{got}})
		}
		s.Body.List = append(head, s.Body.List...)
		pre = append(pre, withLabel(label, &ast.ForStmt{Body: s.Body}))
		return &ast.BlockStmt{List: pre}
	case *types.Map:
		mv, kv, vv, ok := r.temp("m"), r.temp("k"), r.temp("v"), r.temp("ok")
		pre := []ast.Stmt{define([]ast.Expr{mv}, r.expr(s.X))}
		var lhs, rhs []ast.Expr
		useV := false
		if !blankOrNil(s.Key) {
			if s.Tok == token.DEFINE {
				pre = append(pre, define([]ast.Expr{s.Key}, r.rt("MapZeroK", id(mv.Name))))
				lhs = append(lhs, id(s.Key.(*ast.Ident).Name))
			} else {
				lhs = append(lhs, r.expr(s.Key))
			}
			rhs = append(rhs, id(kv.Name))
		}
		if !blankOrNil(s.Value) {
			useV = true
			if s.Tok == token.DEFINE {
				pre = append(pre, define([]ast.Expr{s.Value}, r.rt("MapZeroV", id(mv.Name))))
				lhs = append(lhs, id(s.Value.(*ast.Ident).Name))
			} else {
				lhs = append(lhs, r.expr(s.Value))
			}
			rhs = append(rhs, id(vv.Name))
		}
		r.block(s.Body)
		var v ast.Expr = id("_")
		if useV {
			v = vv
		}
		head := []ast.Stmt{
			define([]ast.Expr{v, ok}, &ast.IndexExpr{X: id(mv.Name), Index: id(kv.Name)}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		if len(lhs) > 0 {
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: rhs})
		}
		s.Body.List = append(head, s.Body.List...)
		loop := &ast.RangeStmt{Key: id("_"), Value: kv, Tok: token.DEFINE, X: r.rt("MapKeys", id(mv.Name)), Body: s.Body}
		pre = append(pre, withLabel(label, loop))
		return &ast.BlockStmt{List: pre}
	}
	s.X = r.expr(s.X)
	if s.Tok == token.ASSIGN {
		s.Key, s.Value = r.expr(s.Key), r.expr(s.Value)
	}
	r.block(s.Body)
	return withLabel(label, s)
}

var _ = sort.Strings
