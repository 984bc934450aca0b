// Command instr rewrites the packages of /repo (and the harness) which use
// goroutines, channels, sync, sync/atomic or context, so that these operations
// are the ones of the controlled scheduler (package vsched), and writes an
// overlay for the go command.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const base = "github.com/nlpodyssey/spago/verifmc/"

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Module     *struct{ Path string }
	Standard   bool
}

var replaced = map[string]string{
	"sync":        base + "vsync",
	"sync/atomic": base + "vatomic",
	"context":     base + "vcontext",
}

func main() {
	out := flag.String("out", "", "output directory")
	tags := flag.String("tags", "", "build tags")
	root := flag.String("root", base+"cmd/conc", "the command to be built")
	flag.Parse()
	if err := run(*out, *tags, *root); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(out, tags, root string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Module,Standard", "-tags", tags, root)
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	exports := map[string]string{}
	var pkgs []pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Path == "github.com/nlpodyssey/spago" || p.ImportPath == base+"conc" || p.ImportPath == base+"checks" {
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	for _, p := range pkgs {
		if err := rewrite(p, exports, out, overlay); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	j, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644)
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	file *ast.File
	n    int
	used bool // vsched is used
	err  error
	// names of the imports of the file
	imports map[string]string // path -> local name
}

func rewrite(p pkg, exports map[string]string, out string, overlay map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var paths []string
	any := false
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
		paths = append(paths, path)
		any = any || concurrent(f)
	}
	if !any {
		return nil
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	for i, f := range files {
		src, err := os.ReadFile(paths[i])
		if err != nil {
			return err
		}
		r := &rewriter{fset: fset, info: info, pkg: tp, file: f, imports: map[string]string{}}
		changed, err := r.do()
		if err != nil {
			return err
		}
		if !changed {
			continue
		}
		var b bytes.Buffer
		b.WriteString(header(src))
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			return err
		}
		name := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, "github.com/nlpodyssey/"), "/", "_")+"__"+filepath.Base(paths[i]))
		if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[paths[i]] = name
	}
	return nil
}

// header returns the build constraints of a file.
func header(src []byte) string {
	var b strings.Builder
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			b.WriteString(l + "\n")
		}
	}
	if b.Len() > 0 {
		b.WriteString("\n")
	}
	return b.String()
}

func concurrent(f *ast.File) bool {
	found := false
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if replaced[p] != "" {
			return true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && (x.Name == "runtime" && (n.Sel.Name == "NumCPU" || n.Sel.Name == "GOMAXPROCS" || n.Sel.Name == "Gosched") || x.Name == "time" && n.Sel.Name == "Sleep") {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) do() (bool, error) {
	f := r.file
	changed := false
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if i.Name != nil {
			name = i.Name.Name
		}
		r.imports[p] = name
		if to := replaced[p]; to != "" {
			if i.Name == nil {
				i.Name = ast.NewIdent(name)
			}
			i.Path.Value = strconv.Quote(to)
			changed = true
		}
	}
	before := r.n
	for _, d := range f.Decls {
		r.node(reflect.ValueOf(d))
	}
	if r.err != nil {
		return false, r.err
	}
	if r.n != before {
		changed = true
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsInstr"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	// imports which may have lost their uses
	keep := map[string]string{"runtime": "Version", "time": "Now"}
	for p, sym := range keep {
		if n, ok := r.imports[p]; ok && n != "_" && n != "." && changed {
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent(sym)}}}}})
		}
	}
	return changed, nil
}

func (r *rewriter) vs(name string) ast.Expr {
	r.used = true
	r.n++
	return &ast.SelectorExpr{X: ast.NewIdent("vsInstr"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) tmp() string {
	r.n++
	return "vsTmp" + strconv.Itoa(r.n)
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	specType = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	declType = reflect.TypeOf((*ast.Decl)(nil)).Elem()
)

// node walks a node and replaces its children.
func (r *rewriter) node(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch v.Type() {
		case exprType:
			v.Set(reflect.ValueOf(r.expr(v.Interface().(ast.Expr))))
		case stmtType:
			v.Set(reflect.ValueOf(r.stmt(v.Interface().(ast.Stmt))))
		case specType, declType:
			r.node(v.Elem())
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.File:
			return
		case *ast.TypeSpec:
			s := v.Interface().(*ast.TypeSpec)
			if _, ok := s.Type.(*ast.ChanType); ok && s.TypeParams == nil {
				s.Assign = s.Pos() // an alias
			}
		}
		r.node(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.node(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.node(v.Index(i))
		}
	}
}

// children walks the children of a node.
func (r *rewriter) children(n ast.Node) { r.node(reflect.ValueOf(n).Elem()) }

func (r *rewriter) chanOf(e ast.Expr) *types.Chan {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	p, ok := r.info.Uses[id].(*types.PkgName)
	return ok && p.Imported().Path() == path
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: paren(x), Sel: ast.NewIdent(name)}, args...)
}

func (r *rewriter) elem(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		if n, ok := r.imports[p.Path()]; ok {
			return n
		}
		r.err = fmt.Errorf("the element type %v is not accessible", t)
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		r.err = err
		return ast.NewIdent("int")
	}
	return e
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ChanType:
		r.children(e)
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vs("Chan"), Index: e.Value}}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.n++
			x := r.expr(e.X)
			return method(x, "Recv")
		}
	case *ast.CallExpr:
		switch {
		case r.builtin(e.Fun, "make") && r.chanOf(e.Args[0]) != nil:
			var el ast.Expr
			if c, ok := e.Args[0].(*ast.ChanType); ok {
				el = r.expr(c.Value)
			} else {
				el = r.elem(r.chanOf(e.Args[0]).Elem())
			}
			if len(e.Args) == 1 {
				return call(&ast.IndexExpr{X: r.vs("MakeChan0"), Index: el})
			}
			return call(&ast.IndexExpr{X: r.vs("MakeChan"), Index: el}, r.expr(e.Args[1]))
		case r.builtin(e.Fun, "close"):
			r.n++
			return method(r.expr(e.Args[0]), "Close")
		case r.builtin(e.Fun, "len") && r.chanOf(e.Args[0]) != nil:
			r.n++
			return method(r.expr(e.Args[0]), "Len")
		case r.builtin(e.Fun, "cap") && r.chanOf(e.Args[0]) != nil:
			r.n++
			return method(r.expr(e.Args[0]), "Cap")
		}
	case *ast.SelectorExpr:
		if r.isPkg(e.X, "runtime") {
			switch e.Sel.Name {
			case "NumCPU":
				return r.vs("RuntimeNumCPU")
			case "GOMAXPROCS":
				return r.vs("RuntimeGOMAXPROCS")
			case "Gosched":
				return r.vs("Gosched")
			}
		}
		if r.isPkg(e.X, "time") && e.Sel.Name == "Sleep" {
			return r.vs("Sleep")
		}
	}
	r.children(e)
	return e
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		r.n++
		return &ast.ExprStmt{X: method(r.expr(s.Chan), "Send", r.expr(s.Value))}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
		return s
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				r.n++
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = method(r.expr(u.X), "Recv2")
				return s
			}
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := isRecv(vs.Values[0]); ok {
						r.n++
						vs.Values[0] = method(r.expr(u.X), "Recv2")
					}
				}
			}
		}
	case *ast.RangeStmt:
		if r.chanOf(s.X) != nil {
			return r.rangeStmt(s)
		}
		if m := r.mapOf(s.X); m != nil && s.Tok == token.DEFINE && s.Key != nil && simple(s.X) {
			return r.rangeMap(s)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	}
	r.children(s)
	return s
}

// goStmt: the function and its arguments are evaluated by the caller.
func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	fun := r.vs("Go")
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.children(fl)
		return &ast.ExprStmt{X: call(fun, fl)}
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			if id.Name == "close" {
				ch := r.tmp()
				body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: method(ast.NewIdent(ch), "Close")}}}}
				return &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Args[0])}},
					&ast.ExprStmt{X: call(fun, body)},
				}}
			}
			r.err = fmt.Errorf("go statement with the builtin %s", id.Name)
			return s
		}
	}
	if tv := r.info.Types[c.Fun]; tv.IsType() {
		r.err = fmt.Errorf("go statement with a conversion")
		return s
	}
	var list []ast.Stmt
	f := r.tmp()
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(f)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(c.Fun)}})
	inner := &ast.CallExpr{Fun: ast.NewIdent(f), Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			inner.Args = append(inner.Args, r.expr(a))
			continue
		}
		n := r.tmp()
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(a)}})
		inner.Args = append(inner.Args, ast.NewIdent(n))
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	list = append(list, &ast.ExprStmt{X: call(fun, body)})
	return &ast.BlockStmt{List: list}
}

// mapOf returns the type of a map with ordered keys.
func (r *rewriter) mapOf(e ast.Expr) *types.Map {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	m, _ := tv.Type.Underlying().(*types.Map)
	if m == nil {
		return nil
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsOrdered == 0 {
		return nil
	}
	return m
}

// simple reports whether an expression can be evaluated again.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	}
	return false
}

// rangeMap makes the order of the iteration over a map deterministic.
func (r *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	r.children(s.Body)
	k := s.Key
	if id, ok := k.(*ast.Ident); ok && id.Name == "_" {
		k = ast.NewIdent(r.tmp())
	}
	ok := r.tmp()
	var v ast.Expr = ast.NewIdent("_")
	if s.Value != nil {
		v = s.Value
	}
	return &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
		X: call(r.vs("SortedKeys"), s.X),
		Body: &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: s.X, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			s.Body,
		}},
	}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	r.n++
	ch, ok := r.tmp(), r.tmp()
	x := r.expr(s.X)
	var v ast.Expr = ast.NewIdent("_")
	tok := token.DEFINE
	var pre []ast.Stmt
	if s.Key != nil {
		if s.Tok == token.DEFINE {
			v = s.Key
		} else {
			n := r.tmp()
			v = ast.NewIdent(n)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(n)}})
		}
	}
	r.children(s.Body)
	list := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ast.NewIdent(ok)}, Tok: tok, Rhs: []ast.Expr{method(ast.NewIdent(ch), "Recv2")}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	list = append(list, pre...)
	list = append(list, s.Body)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		Body: &ast.BlockStmt{List: list},
	}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var names, vals []ast.Expr
	def := "false"
	var clauses []ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var body []ast.Stmt
		var key ast.Expr
		switch comm := cc.Comm.(type) {
		case nil:
			def = "true"
		case *ast.SendStmt:
			key = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}
			names = append(names, ast.NewIdent(r.tmp()))
			vals = append(vals, method(r.expr(comm.Chan), "SendCase", r.expr(comm.Value)))
		case *ast.ExprStmt:
			u, ok := isRecv(comm.X)
			if !ok {
				r.err = fmt.Errorf("unexpected case of a select")
				return s
			}
			key = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}
			names = append(names, ast.NewIdent(r.tmp()))
			vals = append(vals, method(r.expr(u.X), "RecvCase"))
		case *ast.AssignStmt:
			u, ok := isRecv(comm.Rhs[0])
			if !ok {
				r.err = fmt.Errorf("unexpected case of a select")
				return s
			}
			key = &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(names))}
			n := r.tmp()
			names = append(names, ast.NewIdent(n))
			vals = append(vals, method(r.expr(u.X), "RecvCase"))
			a := &ast.AssignStmt{Tok: comm.Tok}
			for i, l := range comm.Lhs {
				a.Lhs = append(a.Lhs, r.expr(l))
				a.Rhs = append(a.Rhs, &ast.SelectorExpr{X: ast.NewIdent(n), Sel: ast.NewIdent([]string{"V", "OK"}[i])})
			}
			body = append(body, a)
		}
		for i := range cc.Body {
			cc.Body[i] = r.stmt(cc.Body[i])
		}
		body = append(body, cc.Body...)
		cl := &ast.CaseClause{Body: body}
		if key != nil {
			cl.List = []ast.Expr{key}
		}
		clauses = append(clauses, cl)
	}
	args := []ast.Expr{ast.NewIdent(def)}
	for _, n := range names {
		args = append(args, n)
	}
	sw := &ast.SwitchStmt{Tag: call(r.vs("Select"), args...), Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals}
	}
	return sw
}
