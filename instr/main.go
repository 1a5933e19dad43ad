// instr copies the non-test packages of the module in -src to -out, rewritten
// so that every source of nondeterminism goes through the simulator runtime.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

const rtPath = "verif.local/dst/rt"

// replacements: standard package -> simulated package
var repl = map[string]string{
	"sync":         "verif.local/dst/xsync",
	"time":         "verif.local/dst/xtime",
	"context":      "verif.local/dst/xctx",
	"log":          "verif.local/dst/xlog",
	"os":           "verif.local/dst/xos",
	"math/rand":    "verif.local/dst/xrand",
	"math/rand/v2": "verif.local/dst/xrand",
	"net":          "verif.local/dst/xnet",
	"io":           "verif.local/dst/xio",
	"crypto/rand":  "verif.local/dst/xcrand",
	"os/signal":    "verif.local/dst/xsignal",
}

var provided = map[string]map[string]bool{}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	dst := flag.String("dst", "", "directory of the simulator module")
	only := flag.String("pkgs", "./client,./cluster,./proxy,./server,./errors,./cmd/router", "packages")
	flag.Parse()
	for std, p := range repl {
		provided[std] = exported(filepath.Join(*dst, strings.TrimPrefix(p, "verif.local/dst/")))
	}
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,Standard,Module"}, strings.Split(*only, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	absSrc, _ := filepath.Abs(*src)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	n := 0
	for _, p := range order {
		if p.Module == nil || p.Standard || !within(absSrc, p.Dir) {
			continue
		}
		rel, _ := filepath.Rel(absSrc, p.Dir)
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.20"}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		od := filepath.Join(*out, rel)
		if err := os.MkdirAll(od, 0o755); err != nil {
			die("%v", err)
		}
		g := newGlobals(info, files)
		for i, af := range files {
			r := &rewriter{info: info, fset: fset, file: af, need: map[string]bool{}, globals: g, first: i == 0}
			r.main = p.Name == "main"
			r.rewrite()
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, af); err != nil {
				die("print %s: %v", names[i], err)
			}
			if err := os.WriteFile(filepath.Join(od, names[i]), buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			n++
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if b, err := os.ReadFile(filepath.Join(*src, f)); err == nil {
			if f == "go.mod" {
				b = append(b, []byte("\nrequire verif.local/dst v0.0.0\n")...)
			}
			os.WriteFile(filepath.Join(*out, f), b, 0o644)
		}
	}
	fmt.Printf("instrumented %d files\n", n)
}

func within(root, dir string) bool {
	rel, err := filepath.Rel(root, dir)
	return err == nil && !strings.HasPrefix(rel, "..")
}

// exported lists the exported identifiers of a directory.
func exported(dir string) map[string]bool {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			die("%v", err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if s.Name.IsExported() {
							m[s.Name.Name] = true
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if n.IsExported() {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	// harness-only names of the simulated network
	if filepath.Base(dir) == "xnet" {
		for _, n := range []string{"Config", "Host", "Net", "New", "DialRec"} {
			delete(m, n)
		}
	}
	if filepath.Base(dir) == "xtime" {
		delete(m, "Epoch")
		delete(m, "OnClock")
	}
	return m
}

type rewriter struct {
	info *types.Info
	fset *token.FileSet
	file *ast.File
	need map[string]bool // import paths used
	main bool
	tmp  int

	globals *globals
	first   bool // the first file of the package
	// variables used by a function literal they are not declared in
	captured map[*types.Var]bool
}

// findCaptured notes the variables that several goroutines may share.
func (r *rewriter) findCaptured() {
	r.captured = map[*types.Var]bool{}
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Type, walk)
			ast.Inspect(n.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			v, ok := r.info.Uses[n].(*types.Var)
			if !ok || v.IsField() {
				return true
			}
			if v.Parent() == v.Pkg().Scope() {
				r.captured[v] = true
			} else if len(lits) > 0 {
				l := lits[len(lits)-1]
				if v.Pos() < l.Pos() || v.Pos() > l.End() {
					r.captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(r.file, walk)
}

// plain tells whether evaluating e twice is the same as evaluating it once.
func plain(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return plain(e.X)
	case *ast.ParenExpr:
		return plain(e.X)
	case *ast.StarExpr:
		return plain(e.X)
	case *ast.IndexExpr:
		return plain(e.X) && plain(e.Index)
	}
	return false
}

// shared tells whether another goroutine may know the variable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && r.captured[v]
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.ParenExpr:
		return r.shared(e.X)
	}
	return false
}

func (r *rewriter) mentions(e ast.Expr, text string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && !found && r.text(x) == text {
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) text(e ast.Expr) string {
	return types.ExprString(e)
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR,
}

// split rewrites a read-modify-write of a shared variable, and a write to a
// map, so that other goroutines may run in its middle. It returns nil for any
// other statement, and is called before the statement is rewritten.
func (r *rewriter) split(s ast.Stmt) ast.Stmt {
	var lhs, val ast.Expr
	switch s := s.(type) {
	case *ast.IncDecStmt:
		lhs = s.X
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		val = &ast.BinaryExpr{X: s.X, Op: op, Y: lit(1)}
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
			return nil
		}
		lhs, val = s.Lhs[0], s.Rhs[0]
		if op, ok := opOf[s.Tok]; ok {
			val = &ast.BinaryExpr{X: lhs, Op: op, Y: &ast.ParenExpr{X: val}}
		} else if !r.mapElem(lhs) {
			tv := r.info.Types[val]
			if tv.Value != nil || tv.IsNil() || tv.Type == nil || !types.Identical(tv.Type, r.typeOf(lhs)) || !r.mentions(val, r.text(lhs)) {
				return nil
			}
			if b, ok := paren(val).(*ast.BinaryExpr); ok && (b.Op == token.SHL || b.Op == token.SHR) {
				return nil
			}
		}
	default:
		return nil
	}
	if r.mapElem(lhs) {
		ix := paren(lhs).(*ast.IndexExpr)
		if as, ok := s.(*ast.AssignStmt); (!ok || as.Tok != token.ASSIGN) && !plain(lhs) {
			return nil
		}
		val = r.expr(val)
		return &ast.ExprStmt{X: call(call(r.rt("MapSet"), r.expr(ix.X)), r.expr(ix.Index), val)}
	}
	if !plain(lhs) || !r.shared(lhs) {
		return nil
	}
	t := r.name("t")
	val = r.expr(val)
	return &ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{id(t)}, val),
		&ast.ExprStmt{X: call(r.rt("YMid"))},
		&ast.AssignStmt{Lhs: []ast.Expr{r.expr(lhs)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
	}}
}

func (r *rewriter) mapElem(e ast.Expr) bool {
	ix, ok := paren(e).(*ast.IndexExpr)
	return ok && isMap(r.typeOf(ix.X))
}

func (r *rewriter) name(p string) string {
	r.tmp++
	return fmt.Sprintf("dst_%s%d", p, r.tmp)
}

func (r *rewriter) rt(fn string) ast.Expr {
	r.need[rtPath] = true
	return &ast.SelectorExpr{X: ast.NewIdent("dst_rt"), Sel: ast.NewIdent(fn)}
}

func alias(path string) string {
	return "dst_" + path[strings.LastIndex(path, "/")+1:]
}

func call(fn ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: fn, Args: args} }
func id(s string) *ast.Ident                           { return ast.NewIdent(s) }
func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}
func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) rewrite() {
	f := r.file
	r.findCaptured()
	f.Comments = nil
	f.Doc = nil
	if r.main {
		f.Name.Name = "routermain"
	}
	var resets []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if name, ok := r.globals.inits[d]; ok {
				d.Name.Name = name
			}
			if r.main && d.Recv == nil && d.Name.Name == "main" {
				d.Name.Name = "Main"
			}
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.fields(d.Type.Params)
			if d.Type.Results != nil {
				r.fields(d.Type.Results)
			}
			if d.Type.TypeParams != nil {
				r.fields(d.Type.TypeParams)
			}
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			resets = append(resets, r.resetDecls(d, func() { r.genDecl(d) })...)
		}
	}
	f.Decls = append(f.Decls, resets...)
	if r.first && len(r.globals.order) > 0 {
		f.Decls = append(f.Decls, r.resetAll())
	}
	// imports: keep those still used, add the simulator's
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
					used[pn.Imported().Path()+"|"+pn.Name()] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		name := ""
		if is.Name != nil {
			name = is.Name.Name
		}
		if name == "." {
			die("%s: dot import of %s is not supported", r.fset.Position(is.Pos()), p)
		}
		if name == "_" {
			specs = append(specs, &ast.ImportSpec{Name: id("_"), Path: is.Path})
			continue
		}
		keep := false
		for u := range used {
			k := strings.LastIndex(u, "|")
			if u[:k] == p && (name == "" || u[k+1:] == name) {
				keep = true
			}
		}
		if keep {
			s := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}}
			if name != "" {
				s.Name = id(name)
			}
			specs = append(specs, s)
		}
	}
	var need []string
	for p := range r.need {
		need = append(need, p)
	}
	sort.Strings(need)
	for _, p := range need {
		specs = append(specs, &ast.ImportSpec{Name: id(alias(p)), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(p)}})
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: specs, Rparen: 1})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}

// globals are the package-level variables of a package. Every run initialises
// them afresh, as a new process does.
type globals struct {
	names map[ast.Expr]string      // initial value -> function that assigns it
	zero  map[*ast.Ident]string    // variable without one -> function that clears it
	inits map[*ast.FuncDecl]string // init functions, which run at the reset only
	order []string
}

func newGlobals(info *types.Info, files []*ast.File) *globals {
	g := &globals{names: map[ast.Expr]string{}, zero: map[*ast.Ident]string{}, inits: map[*ast.FuncDecl]string{}}
	for _, f := range files {
		for _, d := range f.Decls {
			d, ok := d.(*ast.GenDecl)
			if !ok || d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				if s := s.(*ast.ValueSpec); len(s.Values) == 0 {
					for _, n := range s.Names {
						if n.Name != "_" {
							g.zero[n] = fmt.Sprintf("dstZero%d", len(g.zero))
							g.order = append(g.order, g.zero[n])
						}
					}
				}
			}
		}
	}
	for i, in := range info.InitOrder {
		blank := true
		for _, v := range in.Lhs {
			blank = blank && v.Name() == "_"
		}
		if !blank {
			g.names[in.Rhs] = fmt.Sprintf("dstSet%d", i)
			g.order = append(g.order, g.names[in.Rhs])
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" {
				g.inits[d] = fmt.Sprintf("dstInit%d", len(g.inits))
				g.order = append(g.order, g.inits[d])
			}
		}
	}
	return g
}

func niladic(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// resetDecls rewrites a declaration and returns the functions that initialise
// its variables again.
func (r *rewriter) resetDecls(d *ast.GenDecl, rewrite func()) []ast.Decl {
	if d.Tok != token.VAR {
		rewrite()
		return nil
	}
	type value struct {
		s    *ast.ValueSpec
		i    int
		name string
	}
	var vs []value
	for _, s := range d.Specs {
		s := s.(*ast.ValueSpec)
		for i, v := range s.Values {
			if name, ok := r.globals.names[v]; ok {
				vs = append(vs, value{s, i, name})
			}
		}
	}
	rewrite()
	var out []ast.Decl
	for _, v := range vs {
		var lhs []ast.Expr
		if len(v.s.Values) == len(v.s.Names) {
			lhs = []ast.Expr{id(v.s.Names[v.i].Name)}
		} else {
			for _, n := range v.s.Names {
				lhs = append(lhs, id(n.Name))
			}
		}
		out = append(out, niladic(v.name, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{v.s.Values[v.i]}}))
	}
	for _, s := range d.Specs {
		s := s.(*ast.ValueSpec)
		for _, n := range s.Names {
			if name, ok := r.globals.zero[n]; ok {
				out = append(out, niladic(name, &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN,
					Rhs: []ast.Expr{&ast.StarExpr{X: call(id("new"), s.Type)}}}))
			}
		}
	}
	return out
}

func (r *rewriter) resetAll() ast.Decl {
	var body []ast.Stmt
	for _, n := range r.globals.order {
		body = append(body, &ast.ExprStmt{X: call(id(n))})
	}
	return niladic("init", &ast.ExprStmt{X: call(r.rt("OnReset"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})})
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			if s.TypeParams != nil {
				r.fields(s.TypeParams)
			}
			s.Type = r.expr(s.Type)
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.expr(s.Type)
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				s.Values[0] = r.recv2(s.Values[0])
			} else {
				r.exprs(s.Values)
			}
		}
	}
}

func (r *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.expr(f.Type)
	}
}

func (r *rewriter) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = r.expr(es[i])
	}
}

func paren(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// recv2 rewrites the right side of "v, ok := <-ch".
func (r *rewriter) recv2(e ast.Expr) ast.Expr {
	if u, ok := paren(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(r.rt("Recv2"), r.expr(u.X))
	}
	return r.expr(e)
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if i, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[i].(*types.PkgName); ok {
				p := pn.Imported().Path()
				if provided[p][e.Sel.Name] {
					np := repl[p]
					r.need[np] = true
					return &ast.SelectorExpr{X: id(alias(np)), Sel: id(e.Sel.Name)}
				}
				if p == "runtime" && e.Sel.Name == "Gosched" {
					return r.rt("Gosched")
				}
				return e
			}
		}
		e.X = r.expr(e.X)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(r.rt("Recv"), r.expr(e.X))
		}
		e.X = r.expr(e.X)
		return e
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
		return e
	case *ast.CallExpr:
		if i, ok := paren(e.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok && len(e.Args) == 1 && isChan(r.typeOf(e.Args[0])) {
				switch b.Name() {
				case "close":
					return call(r.rt("Close"), r.expr(e.Args[0]))
				case "len":
					return call(r.rt("ChanLen"), r.expr(e.Args[0]))
				}
			}
		}
		if i, ok := paren(e.Fun).(*ast.Ident); ok && len(e.Args) == 2 {
			if b, ok := r.info.Uses[i].(*types.Builtin); ok && b.Name() == "delete" {
				return call(call(r.rt("MapDelete"), r.expr(e.Args[0])), r.expr(e.Args[1]))
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
		return e
	case *ast.FuncLit:
		r.fields(e.Type.Params)
		r.fields(e.Type.Results)
		r.block(e.Body)
		return e
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		r.exprs(e.Elts)
		return e
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
		return e
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.IndexExpr:
		if isMap(r.typeOf(e.X)) {
			return &ast.IndexExpr{X: call(r.rt("MapR"), r.expr(e.X)), Index: r.expr(e.Index)}
		}
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
		return e
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
		return e
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		return e
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
		return e
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
		return e
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
		return e
	case *ast.FuncType:
		r.fields(e.TypeParams)
		r.fields(e.Params)
		r.fields(e.Results)
		return e
	case *ast.StructType:
		r.fields(e.Fields)
		return e
	case *ast.InterfaceType:
		r.fields(e.Methods)
		return e
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
		return e
	}
	return e
}

func (r *rewriter) yield() ast.Stmt { return &ast.ExprStmt{X: call(r.rt("Y"))} }

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in)+1)
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		out = append(out, r.yield())
		if x := r.split(s); x != nil {
			out = append(out, x)
			continue
		}
		out = append(out, r.stmt(s, ""))
	}
	if len(out) == 0 {
		out = append(out, r.yield())
	}
	return out
}

// simple rewrites statements allowed in init and post positions.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s, "")
}

func labeled(label string, s ast.Stmt) ast.Stmt {
	if label == "" {
		return s
	}
	return &ast.LabeledStmt{Label: id(label), Stmt: s}
}

func (r *rewriter) stmt(s ast.Stmt, label string) ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label.Name)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return labeled(label, &ast.ExprStmt{X: call(call(r.rt("SendTo"), r.expr(s.Chan)), r.expr(s.Value))})
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		r.exprs(s.Lhs)
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			s.Rhs[0] = r.recv2(s.Rhs[0])
		} else {
			r.exprs(s.Rhs)
		}
	case *ast.GoStmt:
		return labeled(label, r.goStmt(s))
	case *ast.DeferStmt:
		e := r.expr(s.Call)
		s.Call = e.(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else, "")
		}
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		s.Assign = r.simple(s.Assign)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return r.rangeStmt(s, label)
	case *ast.DeclStmt:
		r.genDecl(s.Decl.(*ast.GenDecl))
	}
	return labeled(label, s)
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := paren(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(r.rt("Go"), r.expr(fl))}
	}
	if i, ok := paren(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[i].(*types.Builtin); ok {
			return &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(c)}}}})}
		}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		n := r.name("a")
		pre = append(pre, define([]ast.Expr{id(n)}, e))
		return id(n)
	}
	fun := c.Fun
	switch f := paren(fun).(type) {
	case *ast.SelectorExpr:
		if i, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[i].(*types.PkgName); ok {
				fun = r.expr(fun)
				break
			}
		}
		fun = hoist(r.expr(fun))
	case *ast.FuncLit:
		fun = hoist(r.expr(fun))
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Var); ok {
			fun = hoist(r.expr(fun))
		}
	default:
		fun = hoist(r.expr(fun))
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = r.expr(a)
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			args[i] = r.expr(a)
			continue
		}
		args[i] = hoist(r.expr(a))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	if c.Ellipsis != 0 {
		inner.Ellipsis = 1
	}
	g := &ast.ExprStmt{X: call(r.rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})}
	return &ast.BlockStmt{List: append(pre, g)}
}

func blank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, label string) ast.Stmt {
	t := r.typeOf(s.X)
	switch {
	case isChan(t), isMap(t):
	default:
		s.X = r.expr(s.X)
		if s.Key != nil && s.Tok == token.ASSIGN {
			s.Key = r.expr(s.Key)
		}
		if s.Value != nil && s.Tok == token.ASSIGN {
			s.Value = r.expr(s.Value)
		}
		r.block(s.Body)
		return labeled(label, s)
	}
	it := r.name("it")
	fn := "MapRange"
	vars := []ast.Expr{s.Key, s.Value}
	if isChan(t) {
		fn = "ChanRange"
		vars = vars[:1]
	}
	lhs := []ast.Expr{id(it)}
	var ptrs []ast.Expr
	for _, v := range vars {
		switch {
		case v == nil || blank(v):
			lhs = append(lhs, id("_"))
			ptrs = append(ptrs, id("nil"))
		case s.Tok == token.DEFINE:
			n := v.(*ast.Ident).Name
			lhs = append(lhs, id(n))
			ptrs = append(ptrs, &ast.UnaryExpr{Op: token.AND, X: id(n)})
		default:
			lhs = append(lhs, id("_"))
			ptrs = append(ptrs, &ast.UnaryExpr{Op: token.AND, X: r.expr(v)})
		}
	}
	init := define(lhs, call(r.rt(fn), r.expr(s.X)))
	r.block(s.Body)
	loop := &ast.ForStmt{Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, ptrs...), Body: s.Body}
	return &ast.BlockStmt{List: []ast.Stmt{init, labeled(label, loop)}}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDefault := "false"
	sel := r.name("sel")
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: id(sel), Sel: id("I")}, Body: &ast.BlockStmt{}}
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		ch := r.name("c")
		var body []ast.Stmt
		hoistCh := func(e ast.Expr) {
			pre = append(pre, define([]ast.Expr{id(ch)}, r.expr(e)))
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			hoistCh(m.Chan)
			v := r.name("s")
			pre = append(pre, define([]ast.Expr{id(v)}, call(call(r.rt("SendCaseTo"), id(ch)), r.expr(m.Value))))
			cases = append(cases, id(v))
		case *ast.ExprStmt:
			hoistCh(paren(m.X).(*ast.UnaryExpr).X)
			cases = append(cases, call(r.rt("RecvCase"), id(ch)))
		case *ast.AssignStmt:
			hoistCh(paren(m.Rhs[0]).(*ast.UnaryExpr).X)
			cases = append(cases, call(r.rt("RecvCase"), id(ch)))
			fn := "SelVal"
			if len(m.Lhs) == 2 {
				fn = "SelVal2"
			}
			if m.Tok == token.ASSIGN {
				r.exprs(m.Lhs)
			}
			body = append(body, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{call(r.rt(fn), id(ch), id(sel))}})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(k)}, Body: append(body, r.stmts(cc.Body)...)})
		k++
	}
	if hasDefault == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	pre = append(pre, define([]ast.Expr{id(sel)}, call(r.rt("Select"), append([]ast.Expr{id(hasDefault)}, cases...)...)))
	return &ast.BlockStmt{List: append(pre, labeled(label, sw))}
}
