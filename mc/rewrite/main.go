// Command rewrite turns the current sources of DyCAPS into sources that run under the
// controlled scheduler (package vs): goroutine starts, channel operations, selects and the
// packages sync, context, time, net and log are redirected, everything else is kept.
// The result is delivered through a go build overlay; /repo is not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

var redirect = map[string]string{
	"sync":    "verif.local/vs/vsync",
	"context": "verif.local/vs/vcontext",
	"time":    "verif.local/vs/vtime",
	"net":     "verif.local/vs/vnet",
	"log":     "verif.local/vs/vlog",
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "directory for rewritten files")
	modfile := flag.String("modfile", "", "go.mod to use")
	overlayOut := flag.String("overlay", "", "overlay JSON to write")
	base := flag.String("base", "", "JSON object of extra overlay entries (file)")
	split := flag.Bool("split", true, "add scheduling points at accesses to shared variables")
	tags := flag.String("tags", "", "build tags")
	taps := flag.String("taps", "", "comma separated PACKAGE.METHOD=FUNC: FUNC is called with the receiver and the arguments when METHOD starts")
	skip := flag.String("skip", "pkg/protobuf", "comma separated package suffixes not to rewrite")
	flag.Parse()

	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	if *tags != "" {
		args = append(args, "-tags="+*tags)
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite: go list:", err)
		os.Exit(3)
	}
	exports := map[string]string{}
	var targets []*pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "rewrite:", err)
			os.Exit(3)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			keep := true
			for _, s := range strings.Split(*skip, ",") {
				if s != "" && strings.HasSuffix(p.ImportPath, s) {
					keep = false
				}
			}
			if keep {
				targets = append(targets, p)
			}
		}
	}
	overlay := map[string]string{}
	if *base != "" {
		b, err := os.ReadFile(*base)
		if err == nil {
			err = json.Unmarshal(b, &overlay)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "rewrite: base:", err)
			os.Exit(3)
		}
	}
	n := 0
	for _, p := range targets {
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution|parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "rewrite:", err)
				os.Exit(3)
			}
			files = append(files, af)
		}
		if !relevant(files) {
			continue
		}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fmt.Fprintln(os.Stderr, "rewrite: type check:", err)
			os.Exit(3)
		}
		for i, f := range files {
			r := &rw{fset: fset, info: info, split: *split, taps: map[string]string{}}
			for _, t := range strings.Split(*taps, ",") {
				if m, f, ok := strings.Cut(t, "="); ok && strings.HasPrefix(m, p.ImportPath+".") {
					r.taps[strings.TrimPrefix(m, p.ImportPath+".")] = f
				}
			}
			src := r.file(f)
			name := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.Dir, "/"), "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(name, src, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "rewrite:", err)
				os.Exit(3)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
			n++
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(*overlayOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(3)
	}
	fmt.Fprintf(os.Stderr, "rewrite: %d files of %d packages\n", n, len(targets))
}

// relevant reports whether a package uses anything the scheduler must control.
func relevant(files []*ast.File) bool {
	found := false
	for _, f := range files {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if redirect[p] != "" {
				found = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
				found = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					found = true
				}
			}
			return true
		})
	}
	return found
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	split bool
	n     int
	fn    []ast.Node // enclosing functions
	used  bool
	taps  map[string]string // by method
}

// tap calls a function with the receiver and the parameters of a method.
func (r *rw) tap(x *ast.FuncDecl) {
	f := r.taps[x.Name.Name]
	if f == "" || x.Recv == nil || x.Body == nil {
		return
	}
	var args []ast.Expr
	for _, l := range []*ast.FieldList{x.Recv, x.Type.Params} {
		for _, d := range l.List {
			if len(d.Names) == 0 {
				d.Names = []*ast.Ident{id("_")}
			}
			for i := range d.Names {
				if d.Names[i].Name == "_" {
					d.Names[i] = r.fresh("tap")
				}
				args = append(args, id(d.Names[i].Name))
			}
		}
	}
	x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(id(f), args...)}}, x.Body.List...)
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func (r *rw) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: id("_vs"), Sel: id(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func (r *rw) fresh(p string) *ast.Ident {
	r.n++
	return id(fmt.Sprintf("_v%s%d", p, r.n))
}
func define(l ast.Expr, x ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}
}

func (r *rw) file(f *ast.File) []byte {
	// keep build constraints only
	var cons []string
	for _, c := range f.Comments {
		if c.Pos() > f.Package {
			break
		}
		for _, l := range c.List {
			if constraint.IsGoBuild(l.Text) {
				cons = append(cons, l.Text)
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
	osUsed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to := redirect[p]; to != "" {
			if im.Name == nil {
				im.Name = id(p)
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
			im.EndPos = 0
		}
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.fn = append(r.fn, x)
				x.Body.List = r.stmts(x.Body.List)
				r.fn = r.fn[:len(r.fn)-1]
				r.tap(x)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "os" && s.Sel.Name == "Exit" {
					if _, isPkg := r.info.Uses[x].(*types.PkgName); isPkg {
						c.Fun = r.vs("Fatal")
						c.Args = []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"os.Exit"`}}
						osUsed = true
					}
				}
			}
		}
		return true
	})
	var buf bytes.Buffer
	for _, c := range cons {
		buf.WriteString(c + "\n\n")
	}
	var body bytes.Buffer
	clearPos(reflect.ValueOf(f), map[uintptr]bool{})
	if err := format.Node(&body, token.NewFileSet(), f); err != nil {
		fmt.Fprintln(os.Stderr, "rewrite: print:", err)
		os.Exit(3)
	}
	src := body.String()
	// imports go right after the package clause
	i := strings.Index(src, "\n") + 1
	for !strings.HasPrefix(src, "package ") {
		break
	}
	buf.WriteString(src[:i])
	buf.WriteString("\nimport _vs \"verif.local/vs\"\n")
	buf.WriteString(src[i:])
	buf.WriteString("\nvar _ = _vs.Point\n")
	if osUsed {
		buf.WriteString("\nvar _ = os.Exit\n")
	}
	for from, to := range redirect {
		_ = from
		_ = to
	}
	return buf.Bytes()
}

// clearPos removes all positions: the printer then lays the file out afresh.
func clearPos(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		clearPos(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			clearPos(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i), seen)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.Pos(0)) {
				switch t.Field(i).Name {
				case "Ellipsis", "Assign", "TypePos", "Lparen", "Rparen":
					// presence of these is meaningful to the printer
					if t.Name() == "CallExpr" && t.Field(i).Name == "Ellipsis" || t.Name() == "TypeSpec" && t.Field(i).Name == "Assign" || t.Name() == "GenDecl" && t.Field(i).Name == "Lparen" {
						if f.Int() != 0 {
							f.SetInt(1)
						}
						continue
					}
				}
				f.SetInt(0)
				continue
			}
			if f.CanSet() {
				clearPos(f, seen)
			}
		}
	}
}

func (r *rw) valueSpec(v *ast.ValueSpec) {
	if len(v.Names) == 2 && len(v.Values) == 1 {
		if u := arrow(v.Values[0]); u != nil {
			v.Values[0] = call(r.vs("Recv2"), r.expr(u.X))
			return
		}
	}
	for i := range v.Values {
		v.Values[i] = r.expr(v.Values[i])
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// expr rewrites an expression (in place where possible).
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.vs("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "close" && len(x.Args) == 1 {
			if _, b := r.info.Uses[f].(*types.Builtin); b {
				return call(r.vs("Close"), r.expr(x.Args[0]))
			}
		}
		x.Fun = r.expr(x.Fun)
		for i := range x.Args {
			x.Args[i] = r.expr(x.Args[i])
		}
	case *ast.FuncLit:
		r.fn = append(r.fn, x)
		x.Body.List = r.stmts(x.Body.List)
		r.fn = r.fn[:len(r.fn)-1]
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.SliceExpr:
		x.X, x.Low, x.High, x.Max = r.expr(x.X), r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.CompositeLit:
		for i := range x.Elts {
			x.Elts[i] = r.expr(x.Elts[i])
		}
	}
	return e
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rw) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.simple(s)
	return l
}

// simple rewrites a statement that must stay a single simple statement.
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vs("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := arrow(x.Rhs[0]); u != nil {
				x.Rhs[0] = call(r.vs("Recv2"), r.expr(u.X))
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				return x
			}
		}
		for i := range x.Lhs {
			x.Lhs[i] = r.expr(x.Lhs[i])
		}
		for i := range x.Rhs {
			x.Rhs[i] = r.expr(x.Rhs[i])
		}
	}
	return s
}

func (r *rw) point() ast.Stmt { return &ast.ExprStmt{X: call(r.vs("Point"))} }

// shared reports whether an expression denotes storage other goroutines may reach: a
// variable declared outside the innermost function, a package variable, or anything
// behind a pointer.
func (r *rw) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if x.Name == "_" {
			return false
		}
		o := r.info.Uses[x]
		if o == nil {
			return false
		}
		v, ok := o.(*types.Var)
		if !ok {
			return false
		}
		if v.IsField() {
			return true
		}
		if len(r.fn) == 0 {
			return true
		}
		f := r.fn[len(r.fn)-1]
		return !(f.Pos() <= o.Pos() && o.Pos() < f.End())
	case *ast.SelectorExpr:
		if t := r.info.Types[x.X].Type; t != nil {
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				return true
			}
		}
		return r.shared(x.X)
	case *ast.IndexExpr:
		return r.shared(x.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

// pure reports whether evaluating e twice is harmless.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func str(e ast.Expr) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	return b.String()
}

func mentions(e ast.Expr, what string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && !found && str(x) == what {
			found = true
		}
		return !found
	})
	return found
}

func (r *rw) reads(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.Ident:
			if o, ok := r.info.Uses[x].(*types.Var); ok && !o.IsField() && len(r.fn) > 0 {
				f := r.fn[len(r.fn)-1]
				if !(f.Pos() <= o.Pos() && o.Pos() < f.End()) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (r *rw) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if r.split && len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && r.shared(x.Lhs[0]) && pure(x.Lhs[0]) && arrow(x.Rhs[0]) == nil {
			l := str(x.Lhs[0])
			if x.Tok == token.ASSIGN {
				if mentions(x.Rhs[0], l) {
					t := r.fresh("t")
					rhs := r.expr(x.Rhs[0])
					return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
						r.point(), define(t, rhs), r.point(),
						&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}}}
				}
				return []ast.Stmt{r.point(), r.simple(s)}
			}
			// op-assign: read, point, write
			if op, ok := opOf(x.Tok); ok {
				t := r.fresh("t")
				rhs := r.expr(x.Rhs[0])
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
					define(t, x.Lhs[0]), r.point(),
					&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: rhs}}}}}}}
			}
		}
		return []ast.Stmt{r.simple(s)}
	case *ast.IncDecStmt:
		if r.split && r.shared(x.X) && pure(x.X) {
			t := r.fresh("t")
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define(t, x.X), r.point(),
				&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}}}}
		}
		return []ast.Stmt{r.simple(s)}
	case *ast.ExprStmt, *ast.SendStmt:
		return []ast.Stmt{r.simple(s)}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					r.valueSpec(v)
				}
			}
		}
		return []ast.Stmt{x}
	case *ast.ReturnStmt:
		for i := range x.Results {
			x.Results[i] = r.expr(x.Results[i])
		}
		return []ast.Stmt{x}
	case *ast.DeferStmt:
		c, ok := r.expr(x.Call).(*ast.CallExpr)
		if ok {
			x.Call = c
		}
		return []ast.Stmt{x}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.BlockStmt:
		x.List = r.stmts(x.List)
		return []ast.Stmt{x}
	case *ast.IfStmt:
		return []ast.Stmt{r.ifStmt(x)}
	case *ast.ForStmt:
		x.Init, x.Cond, x.Post = r.simple(x.Init), r.expr(x.Cond), r.simple(x.Post)
		x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.vs("Tick"))}}, r.stmts(x.Body.List)...)
		return []ast.Stmt{x}
	case *ast.RangeStmt:
		if t := r.info.Types[x.X].Type; t != nil {
			if _, ch := t.Underlying().(*types.Chan); ch {
				return []ast.Stmt{r.rangeChan(x)}
			}
		}
		x.X = r.expr(x.X)
		x.Body.List = r.stmts(x.Body.List)
		return []ast.Stmt{x}
	case *ast.SwitchStmt:
		x.Init, x.Tag = r.simple(x.Init), r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{x}
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return []ast.Stmt{x}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(x, nil)}
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return []ast.Stmt{r.selectStmt(sel, x.Label)}
		}
		l := r.stmt(x.Stmt)
		x.Stmt = l[0]
		return append([]ast.Stmt{x}, l[1:]...)
	}
	return []ast.Stmt{s}
}

func opOf(t token.Token) (token.Token, bool) {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD, true
	case token.SUB_ASSIGN:
		return token.SUB, true
	case token.MUL_ASSIGN:
		return token.MUL, true
	case token.OR_ASSIGN:
		return token.OR, true
	case token.XOR_ASSIGN:
		return token.XOR, true
	case token.AND_ASSIGN:
		return token.AND, true
	}
	return 0, false
}

func (r *rw) ifStmt(x *ast.IfStmt) *ast.IfStmt {
	racy := r.split && r.reads(x.Cond)
	x.Init, x.Cond = r.simple(x.Init), r.expr(x.Cond)
	x.Body.List = r.stmts(x.Body.List)
	if racy {
		x.Body.List = append([]ast.Stmt{r.point()}, x.Body.List...)
	}
	switch e := x.Else.(type) {
	case *ast.IfStmt:
		x.Else = r.ifStmt(e)
	case *ast.BlockStmt:
		e.List = r.stmts(e.List)
		if racy {
			e.List = append([]ast.Stmt{r.point()}, e.List...)
		}
	}
	return x
}

func (r *rw) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	if f, ok := c.Fun.(*ast.FuncLit); ok && f.Type.Results == nil && c.Ellipsis == 0 {
		for i := range c.Args {
			c.Args[i] = r.expr(c.Args[i])
		}
		r.fn = append(r.fn, f)
		f.Body.List = r.stmts(f.Body.List)
		r.fn = r.fn[:len(r.fn)-1]
		inner := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: f.Body}
		if len(c.Args) == 0 {
			return []ast.Stmt{&ast.ExprStmt{X: call(r.vs("Go"), inner)}}
		}
		outer := &ast.FuncLit{Type: f.Type, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(r.vs("Go"), inner)}}}}
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: outer, Args: c.Args}}}
	}
	var pre []ast.Stmt
	fun := c.Fun
	builtin := false
	if i, ok := fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[i].(*types.Builtin); b {
			builtin = true
		}
	}
	var args []ast.Expr
	for _, a := range c.Args {
		tv := r.info.Types[a]
		ra := r.expr(a)
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, ra)
			continue
		}
		v := r.fresh("a")
		pre = append(pre, define(v, ra))
		args = append(args, v)
	}
	var body ast.Expr
	if builtin {
		body = r.expr(&ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis})
	} else {
		v := r.fresh("f")
		pre = append([]ast.Stmt{define(v, r.expr(fun))}, pre...)
		body = &ast.CallExpr{Fun: v, Args: args, Ellipsis: c.Ellipsis}
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(r.vs("Go"), lit)})}}
}

func (r *rw) rangeChan(x *ast.RangeStmt) ast.Stmt {
	c, ok := r.fresh("c"), r.fresh("k")
	var recv ast.Stmt
	var v ast.Expr = id("_")
	if x.Key != nil {
		v = x.Key
	}
	body := []ast.Stmt{}
	if x.Tok == token.ASSIGN {
		t := r.fresh("t")
		recv = &ast.AssignStmt{Lhs: []ast.Expr{t, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), c)}}
		body = append(body, recv)
	} else {
		recv = &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Recv2"), c)}}
		body = append(body, recv)
	}
	body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if x.Tok == token.ASSIGN {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv.(*ast.AssignStmt).Lhs[0]}})
	}
	body = append(body, r.stmts(x.Body.List)...)
	return &ast.ForStmt{Init: define(c, r.expr(x.X)), Body: &ast.BlockStmt{List: body}}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(id("panic"), call(r.vs("Block")))}
	}
	vi, vv, vok := r.fresh("i"), r.fresh("v"), r.fresh("o")
	var pre []ast.Stmt
	hasDefault := "false"
	var cases []ast.Expr
	var clauses []ast.Stmt
	n := 0
	var def *ast.CaseClause
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			def = &ast.CaseClause{Body: r.stmts(cc.Body)}
			continue
		}
		out := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}}
		n++
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, call(call(r.vs("SendCaseTo"), r.expr(c.Chan)), r.expr(c.Value)))
		case *ast.ExprStmt:
			ch := r.fresh("c")
			pre = append(pre, define(ch, r.expr(arrow(c.X).X)))
			cases = append(cases, call(r.vs("RecvCase"), ch))
		case *ast.AssignStmt:
			ch := r.fresh("c")
			pre = append(pre, define(ch, r.expr(arrow(c.Rhs[0]).X)))
			cases = append(cases, call(r.vs("RecvCase"), ch))
			val := call(r.vs("Val"), ch, vv)
			for i := range c.Lhs {
				c.Lhs[i] = r.expr(c.Lhs[i])
			}
			rhs := []ast.Expr{val}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, vok)
			}
			out.Body = append(out.Body, &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: rhs})
		}
		out.Body = append(out.Body, r.stmts(cc.Body)...)
		clauses = append(clauses, out)
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"vs: unreachable"`})}}}
	}
	clauses = append(clauses, def)
	selCall := call(r.vs("Select"), append([]ast.Expr{id(hasDefault)}, cases...)...)
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{vi, vv, vok}, Tok: token.DEFINE, Rhs: []ast.Expr{selCall}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vv, vok}})
	var sw ast.Stmt = &ast.SwitchStmt{Tag: vi, Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}
