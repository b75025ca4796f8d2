// Command instr copies the packages of a Go module into another directory and rewrites
// every concurrency and time primitive they use into the controlled one of package vsched.
//
// usage: instr SRC_DIR DST_DIR
//
// It works on the syntax tree with full type information, so it rewrites what the code
// means (a channel operation, a lock, a go statement, a clock reading), however it is written.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path, Dir string }
	Standard   bool
}

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr SRC DST")
		os.Exit(2)
	}
	var src, dst = os.Args[1], os.Args[2]
	var cmd = exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Imports,Module,Standard", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	check(err)
	var dec = json.NewDecoder(bytes.NewReader(out))
	var exports = map[string]string{}
	var pkgs []pkgInfo
	srcAbs, err := filepath.EvalSymlinks(src)
	check(err)
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			check(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && (p.Module.Dir == srcAbs || p.Module.Dir == src) && len(p.GoFiles) > 0 {
			pkgs = append(pkgs, p)
		}
	}
	var fset = token.NewFileSet()
	var imp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		var f = exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		check(err)
		if rel == filepath.Join("internal", "test") {
			continue // test helpers
		}
		doPkg(fset, imp, p, filepath.Join(dst, rel))
	}
	// go.mod with a language version that has type parameters
	mod, err := os.ReadFile(filepath.Join(src, "go.mod"))
	check(err)
	var lines []string
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "go ") {
			l = "go 1.21"
		}
		lines = append(lines, l)
	}
	check(os.WriteFile(filepath.Join(dst, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644))
	sum, err := os.ReadFile(filepath.Join(src, "go.sum"))
	if err == nil {
		check(os.WriteFile(filepath.Join(dst, "go.sum"), sum, 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func doPkg(fset *token.FileSet, imp types.Importer, p pkgInfo, dst string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		check(err)
		files = append(files, af)
	}
	var info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	var conf = types.Config{Importer: imp}
	_, err := conf.Check(p.ImportPath, fset, files, info)
	check(err)
	check(os.MkdirAll(dst, 0o755))
	for i, f := range files {
		var r = &rewriter{info: info, fset: fset, keep: map[string]string{}}
		r.file(f)
		var buf bytes.Buffer
		check(format.Node(&buf, fset, f))
		var text = buf.String()
		if r.used {
			text = r.addImport(text, f)
		}
		check(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), []byte(text), 0o644))
	}
}

const vs = "vsched"

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	used bool
	n    int
	keep map[string]string // import path -> a name of that package that is used no more
}

var modelled = map[string]map[string]bool{
	"sync": set("Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "OnceFunc", "OnceValue"),
	"time": set("Now", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Since", "Until",
		"Timer", "Ticker"),
	"runtime": set("Gosched", "NumCPU", "GOMAXPROCS"),
	"context": set("Background", "TODO", "WithCancel", "WithTimeout", "WithDeadline"),
}

// an expression that keeps an import in use
var keeper = map[string]string{"sync": "Map{}", "time": "Nanosecond", "runtime": "GOOS", "context": "Canceled"}

func set(l ...string) map[string]bool {
	var m = map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func (r *rewriter) addImport(text string, f *ast.File) string {
	var i = strings.Index(text, "\npackage ")
	if strings.HasPrefix(text, "package ") {
		i = -1
	} else if i < 0 {
		check(fmt.Errorf("no package clause"))
	}
	var j = strings.Index(text[i+1:], "\n") + i + 1
	var s = text[:j] + "\n\nimport vsched \"verif/vsched\"\n" + text[j:]
	for path, name := range r.keep {
		s += fmt.Sprintf("\nvar _ = %s.%s\n", name, keeper[path])
	}
	return s
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs_%s%d", p, r.n))
}

func define(l ast.Expr, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) file(f *ast.File) {
	// comments inside rewritten statements would end up in odd places
	var first = f.Package
	var kept []*ast.CommentGroup
	for _, c := range f.Comments {
		if c.End() < first {
			kept = append(kept, c)
		}
	}
	f.Comments = kept
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
					r.valueSpec(s)
				case *ast.TypeSpec:
					s.Doc, s.Comment = nil, nil
					s.Type = r.expr(s.Type)
				}
			}
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			d.Type = r.expr(d.Type).(*ast.FuncType)
			if d.Body != nil {
				r.block(d.Body)
			}
		}
	}
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) {
	if s.Type != nil {
		s.Type = r.expr(s.Type)
	}
	if len(s.Names) == 2 && len(s.Values) == 1 {
		if c, ok := r.isRecv(s.Values[0]); ok {
			s.Values[0] = r.call("Recv2", r.expr(c))
			return
		}
	}
	r.exprs(s.Values)
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out = make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) isRecv(e ast.Expr) (ast.Expr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func labelled(label *ast.Ident, pre []ast.Stmt, s ast.Stmt) ast.Stmt {
	if label != nil {
		s = &ast.LabeledStmt{Label: label, Stmt: s}
	}
	return &ast.BlockStmt{List: append(pre, s)}
}

func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.SelectStmt:
			return r.stmt(s.Stmt, s.Label)
		case *ast.RangeStmt:
			var n = r.stmt(s.Stmt, s.Label)
			if _, same := n.(*ast.RangeStmt); !same {
				return n
			}
			s.Stmt = n
		default:
			s.Stmt = r.stmt(s.Stmt, nil)
		}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendOn", r.expr(s.Chan)), Args: []ast.Expr{r.expr(s.Value)}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if c, ok := r.isRecv(s.Rhs[0]); ok {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.call("Recv2", r.expr(c))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, nil)
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Assign = r.stmt(s.Assign, nil)
		r.block(s.Body)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, nil)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post, nil)
		r.block(s.Body)
	case *ast.RangeStmt:
		if t := r.info.TypeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				return r.rangeChan(s, label)
			}
		}
		if s.Key != nil {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil {
			s.Value = r.expr(s.Value)
		}
		s.X = r.expr(s.X)
		r.block(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					r.valueSpec(sp)
				case *ast.TypeSpec:
					sp.Type = r.expr(sp.Type)
				}
			}
		}
	}
	return s
}

func (r *rewriter) rangeChan(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	var c, ok = r.tmp("c"), r.tmp("ok")
	var body []ast.Stmt
	var brk = &ast.IfStmt{
		Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}},
	}
	var recv = r.call("Recv2", c)
	switch {
	case s.Key == nil:
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
	case s.Tok == token.DEFINE:
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk)
	default:
		var v = r.tmp("v")
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	r.block(s.Body)
	body = append(body, s.Body)
	return labelled(label, []ast.Stmt{define(c, r.expr(s.X))}, &ast.ForStmt{Body: &ast.BlockStmt{List: body}})
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	var hasDefault = "false"
	var sel = r.tmp("sel")
	var idx = 0
	for _, cl := range s.Body.List {
		var c = cl.(*ast.CommClause)
		var body []ast.Stmt
		var list []ast.Expr
		if c.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{Body: r.stmts(c.Body)})
			continue
		}
		list = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
		idx++
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			var e = r.tmp("s")
			pre = append(pre, define(e, &ast.CallExpr{Fun: r.call("SendCaseOn", r.expr(m.Chan)), Args: []ast.Expr{r.expr(m.Value)}}))
			cases = append(cases, e)
		case *ast.ExprStmt:
			var ch, _ = r.isRecv(m.X)
			var e = r.tmp("r")
			pre = append(pre, define(e, r.call("NewRecv", r.expr(ch))))
			cases = append(cases, &ast.SelectorExpr{X: e, Sel: ast.NewIdent("C")})
		case *ast.AssignStmt:
			var ch, _ = r.isRecv(m.Rhs[0])
			var e = r.tmp("r")
			pre = append(pre, define(e, r.call("NewRecv", r.expr(ch))))
			cases = append(cases, &ast.SelectorExpr{X: e, Sel: ast.NewIdent("C")})
			var get = "Get"
			if len(m.Lhs) == 2 {
				get = "Get2"
			}
			r.exprs(m.Lhs)
			body = append(body, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{
				&ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent(get)}, Args: []ast.Expr{sel}}}})
		}
		clauses = append(clauses, &ast.CaseClause{List: list, Body: append(body, r.stmts(c.Body)...)})
	}
	var sw = &ast.SwitchStmt{
		Init: define(sel, r.call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)),
		Tag:  &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("Idx")},
		Body: &ast.BlockStmt{List: clauses},
	}
	if hasDefault == "false" {
		// a select without default is a terminating statement when its clauses are
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	return labelled(label, pre, sw)
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	var pre []ast.Stmt
	var hoist = func(e ast.Expr, p string) ast.Expr {
		var tv, ok = r.info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return r.expr(e)
		}
		if id, isId := e.(*ast.Ident); isId {
			if _, isFunc := r.info.Uses[id].(*types.Func); isFunc {
				return e
			}
		}
		var t = r.tmp(p)
		pre = append(pre, define(t, r.expr(e)))
		return t
	}
	var call = s.Call
	if len(call.Args) == 1 {
		if t, ok := r.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
			var l []ast.Expr
			for i := 0; i < t.Len(); i++ {
				l = append(l, r.tmp("a"))
			}
			var rhs = r.expr(call.Args[0])
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
			var fun = r.goFun(call, hoist)
			return r.goBlock(pre, &ast.CallExpr{Fun: fun, Args: l})
		}
	}
	var fun = r.goFun(call, hoist)
	var args []ast.Expr
	for _, a := range call.Args {
		args = append(args, hoist(a, "a"))
	}
	var c = &ast.CallExpr{Fun: fun, Args: args}
	if call.Ellipsis != token.NoPos {
		c.Ellipsis = 1
	}
	return r.goBlock(pre, c)
}

func (r *rewriter) goFun(call *ast.CallExpr, hoist func(ast.Expr, string) ast.Expr) ast.Expr {
	switch f := call.Fun.(type) {
	case *ast.FuncLit:
		return hoist(f, "f")
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
				return r.expr(f)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		return r.expr(f)
	}
	return hoist(call.Fun, "f")
}

func (r *rewriter) goBlock(pre []ast.Stmt, c *ast.CallExpr) ast.Stmt {
	var g = &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}},
	})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rewriter) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Doc, x.Comment = nil, nil
		x.Type = r.expr(x.Type)
	}
}

func (r *rewriter) pkgOf(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		if p, ok := r.info.Uses[id].(*types.PkgName); ok {
			return p.Imported().Path()
		}
	}
	return ""
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		if path := r.pkgOf(e.X); path != "" {
			if modelled[path][e.Sel.Name] {
				r.keep[path] = e.X.(*ast.Ident).Name
				return r.sel(e.Sel.Name)
			}
			return e
		}
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
	case *ast.CallExpr:
		return r.callExpr(e)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		r.exprs(e.Elts)
	case *ast.FuncLit:
		e.Type = r.expr(e.Type).(*ast.FuncType)
		r.block(e.Body)
	case *ast.FuncType:
		r.fields(e.Params)
		r.fields(e.Results)
	case *ast.StructType:
		r.fields(e.Fields)
	case *ast.InterfaceType:
		r.fields(e.Methods)
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
	}
	return e
}

func (r *rewriter) callExpr(e *ast.CallExpr) ast.Expr {
	if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			if c, ok := r.info.TypeOf(e.Args[0]).Underlying().(*types.Chan); ok {
				switch id.Name {
				case "close":
					return r.call("Close", r.expr(e.Args[0]))
				case "len":
					if c.Dir() == types.SendOnly {
						return r.call("LenS", r.expr(e.Args[0]))
					}
					return r.call("Len", r.expr(e.Args[0]))
				}
			}
		}
	}
	var atomic = false
	if s, ok := e.Fun.(*ast.SelectorExpr); ok {
		if r.pkgOf(s.X) == "sync/atomic" {
			atomic = true
		} else if sn := r.info.Selections[s]; sn != nil {
			if f, ok := sn.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
				atomic = true
			}
		}
	}
	e.Fun = r.expr(e.Fun)
	if atomic {
		e.Fun = r.call("At", e.Fun)
	}
	r.exprs(e.Args)
	return e
}
