// instr rewrites the non-test Go sources of a copied module in place so that
// they run on the verifrt controlled runtime.
//
// usage: instr -dir SCRATCH -mod MODULEPATH [-skip PREFIX,...]
//
// It expects to be run in a copy of the repository (never in /repo).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
}

var (
	dir     = flag.String("dir", "", "scratch copy of the module")
	mod     = flag.String("mod", "github.com/kitex-contrib/xds", "module path")
	skip    = flag.String("skip", "core/api,verifrt", "directories (relative) that are not rewritten")
	verbose = flag.Bool("v", false, "verbose")
)

// third-party packages that are copied into the scratch module and rewritten
// too when the code imports them (they contain timers, goroutines or locks).
var third = []string{
	"github.com/cenkalti/backoff/",
	"go.uber.org/atomic",
	"golang.org/x/sync/",
	"github.com/bytedance/gopkg/util/gopool",
	"github.com/cenkalti/backoff",
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	shim := *mod + "/verifrt/shim/"
	swap := map[string]string{
		"sync":         shim + "sync",
		"sync/atomic":  shim + "atomic",
		"time":         shim + "time",
		"context":      shim + "context",
		"math/rand":    shim + "rand",
		"math/rand/v2": shim + "randv2",
		"github.com/bytedance/gopkg/lang/fastrand": shim + "fastrand",
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Imports", ".", "./core/...", "./xdssuite/...")
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	isThird := func(path string) bool {
		for _, t := range third {
			if path == t || (strings.HasSuffix(t, "/") && strings.HasPrefix(path, t)) {
				return true
			}
		}
		return false
	}
	var todo []*listPkg
	for _, p := range order {
		if p.ImportPath == *mod || strings.HasPrefix(p.ImportPath, *mod+"/") {
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, *mod), "/")
			skipIt := false
			for _, s := range strings.Split(*skip, ",") {
				if rel == s || strings.HasPrefix(rel, s+"/") {
					skipIt = true
				}
			}
			if !skipIt {
				todo = append(todo, p)
			}
		} else if isThird(p.ImportPath) {
			// only when imported by the module itself (or by another copied one)
			used := false
			for _, q := range order {
				if q.ImportPath == *mod || strings.HasPrefix(q.ImportPath, *mod+"/") || isThird(q.ImportPath) {
					for _, im := range q.Imports {
						if im == p.ImportPath {
							used = true
						}
					}
				}
			}
			if used {
				swap[p.ImportPath] = *mod + "/verifrt/third/" + p.ImportPath
				todo = append(todo, p)
			}
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range todo {
		doPkg(fset, imp, p, swap)
	}
}

func doPkg(fset *token.FileSet, imp types.Importer, p *listPkg, swap map[string]string) {
	outDir := p.Dir
	if !strings.HasPrefix(p.ImportPath, *mod) {
		outDir = filepath.Join(*dir, "verifrt/third", p.ImportPath)
		if err := os.MkdirAll(outDir, 0o755); err != nil {
			fatal("%v", err)
		}
	}
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(err error) {
		if *verbose {
			fmt.Fprintln(os.Stderr, "types:", err)
		}
	}}
	_, terr := conf.Check(p.ImportPath, fset, files, info)
	if terr != nil {
		fatal("type-checking %s: %v", p.ImportPath, terr)
	}
	for i, f := range files {
		r := &rewriter{info: info, fset: fset, pkg: p}
		r.file(f)
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if n, ok := swap[path]; ok {
				if im.Name == nil {
					// keep the local name
					im.Name = ast.NewIdent(localName(path))
				}
				im.Path.Value = strconv.Quote(n)
				im.EndPos = 0
			}
		}
		if r.used {
			addImport(f, *mod+"/verifrt/vrt", "verifvrt")
		}
		// Comments would be misplaced by the rewriting; keep only directives
		// before the package clause (build tags) and go: directives.
		f.Comments = keepDirectives(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, fset, f); err != nil {
			fatal("format %s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}

func localName(path string) string {
	switch path {
	case "math/rand", "math/rand/v2":
		return "rand"
	case "sync/atomic":
		return "atomic"
	}
	base := filepath.Base(path)
	if len(base) > 1 && base[0] == 'v' && strings.Trim(base[1:], "0123456789") == "" {
		base = filepath.Base(filepath.Dir(path))
	}
	return base
}

func keepDirectives(f *ast.File) []*ast.CommentGroup {
	var out []*ast.CommentGroup
	for _, g := range f.Comments {
		if g.End() < f.Package {
			keep := false
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
					keep = true
				}
			}
			if keep {
				out = append(out, g)
			}
		}
	}
	// drop doc links so that the printer does not emit them
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.File:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	return out
}

func addImport(f *ast.File, path, name string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			g.Specs = append(g.Specs, spec)
			if g.Lparen == 0 {
				g.Lparen = g.TokPos + 1
				g.Rparen = g.End()
			}
			return
		}
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	pkg  *listPkg
	used bool
	n    int
}

func (r *rewriter) vrt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("verifvrt"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("verif%s%d", p, r.n))
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
	}
}

func (r *rewriter) valueSpec(v *ast.ValueSpec) {
	if len(v.Names) == 2 && len(v.Values) == 1 {
		if u := recvOf(v.Values[0]); u != nil {
			v.Values[0] = r.call("Recv2", r.expr(u.X))
			return
		}
	}
	for i := range v.Values {
		v.Values[i] = r.expr(v.Values[i])
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vrt(name), Args: args}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
	return l
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// core is the underlying type, of a type parameter that of its only term.
func core(t types.Type) types.Type {
	p, ok := t.(*types.TypeParam)
	if !ok {
		return under(t)
	}
	i, ok := p.Constraint().Underlying().(*types.Interface)
	for ok && i.NumEmbeddeds() == 1 {
		switch e := i.EmbeddedType(0).(type) {
		case *types.Union:
			if e.Len() != 1 {
				return under(t)
			}
			return under(e.Term(0).Type())
		default:
			if i, ok = under(e).(*types.Interface); !ok {
				return under(e)
			}
		}
	}
	return under(t)
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendF", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		if id := builtinName(r.info, s.Call.Fun); id == "close" {
			s.Call = r.call("Close", r.expr(s.Call.Args[0]))
			return s
		}
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
	}
	return s
}

func builtinName(info *types.Info, e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: r.call("Go", r.expr(fl))}
	}
	if b := builtinName(r.info, call.Fun); b != "" {
		body := r.expr(call)
		return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}})}
	}
	var pre []ast.Stmt
	hold := func(e ast.Expr, p string) ast.Expr {
		tv := r.info.Types[e]
		e = r.expr(e)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return e
		}
		id := r.tmp(p)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	fun := call.Fun
	switch f := fun.(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); !ok {
			fun = hold(fun, "F")
		}
	case *ast.SelectorExpr:
		if sel := r.info.Selections[f]; sel != nil {
			fun = hold(fun, "F")
		}
	default:
		if tv := r.info.Types[fun]; !tv.IsType() {
			if _, isSig := under(tv.Type).(*types.Signature); isSig {
				fun = hold(fun, "F")
			}
		}
	}
	var args []ast.Expr
	for _, a := range call.Args {
		args = append(args, hold(a, "A"))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: call.Ellipsis}
	run := &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	if len(pre) == 0 {
		return run
	}
	return &ast.BlockStmt{List: append(pre, run)}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	n := len(s.Body.List)
	if n == 0 {
		return &ast.ExprStmt{X: r.call("BlockForever")}
	}
	var ids, inits []ast.Expr
	hasDefault := false
	type clause struct {
		idx  int
		body []ast.Stmt
	}
	var cl []clause
	var dflt *clause
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
			dflt = &clause{-1, r.stmts(c.Body)}
			continue
		}
		id := r.tmp("C")
		i := len(ids)
		var pre []ast.Stmt
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, &ast.CallExpr{Fun: r.call("SendCase", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
		case *ast.ExprStmt:
			u := recvOf(cm.X)
			inits = append(inits, r.call("RecvCase", r.expr(u.X)))
		case *ast.AssignStmt:
			u := recvOf(cm.Rhs[0])
			inits = append(inits, r.call("RecvCase", r.expr(u.X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id, Sel: ast.NewIdent("Ok")})
			}
			r.exprs(cm.Lhs)
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		ids = append(ids, id)
		cl = append(cl, clause{i, append(pre, r.stmts(c.Body)...)})
	}
	args := append([]ast.Expr{ast.NewIdent(strconv.FormatBool(hasDefault))}, ids...)
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: &ast.BlockStmt{}}
	if len(ids) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: ids, Tok: token.DEFINE, Rhs: inits}
	}
	for k, c := range cl {
		cc := &ast.CaseClause{Body: c.body, List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(c.idx)}}}
		if dflt == nil && k == len(cl)-1 {
			cc.List = nil
		}
		sw.Body.List = append(sw.Body.List, cc)
	}
	if dflt != nil {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: dflt.body})
	}
	return sw
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := core(r.info.Types[s.X].Type)
	s.X = r.expr(s.X)
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	r.block(s.Body)
	var name string
	switch tt := t.(type) {
	case *types.Map:
		name = "RangeMap"
	case *types.Chan:
		name = "RangeChan"
	default:
		_ = tt
		return s
	}
	it := r.tmp("It")
	isBlank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	var lhs, rhs []ast.Expr
	add := func(e ast.Expr, f string) {
		if !isBlank(e) {
			lhs = append(lhs, e)
			rhs = append(rhs, &ast.SelectorExpr{X: it, Sel: ast.NewIdent(f)})
		}
	}
	if name == "RangeMap" {
		add(s.Key, "K")
		add(s.Value, "V")
	} else {
		add(s.Key, "V")
	}
	body := s.Body
	if len(lhs) > 0 {
		// the loop body keeps its own scope (it may redeclare the variables)
		body = &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs},
		}}
		body.List = append(body.List, s.Body)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call(name, s.X)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}},
		Body: body,
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if builtinName(r.info, e.Fun) == "close" && len(e.Args) == 1 {
			return r.call("Close", r.expr(e.Args[0]))
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.CompositeLit:
		r.exprs(e.Elts)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	}
	return e
}

var _ = sort.Strings
