//go:build go1.21

// Command instr rewrites the packages under test so that time, locks, channels, goroutines and map
// iteration order are under the control of the harness, and prints an overlay for the build.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
}

const base = "github.com/taurusgroup/frost-ed25519/pkg/"
const rt = base + "verifmc/"

var swap = map[string]string{"time": rt + "vtime", "sync": rt + "vsync", "sync/atomic": rt + "vatomic"}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	overlay := flag.String("overlay", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(*overlay)
	die(err)
	die(json.Unmarshal(b, &ov))
	die(os.MkdirAll(*out, 0o777))

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard", "-overlay", *overlay, "./pkg/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	die(err)
	exports := map[string]string{}
	var todo []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && strings.HasPrefix(p.ImportPath, base) && !strings.HasPrefix(p.ImportPath, rt) {
			todo = append(todo, p)
		}
	}
	for i, p := range todo {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src := name
			if r, ok := ov.Replace[name]; ok {
				src = r
			}
			data, err := os.ReadFile(src)
			die(err)
			a, err := parser.ParseFile(fset, name, data, parser.ParseComments)
			die(err)
			files = append(files, a)
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})}
		_, err := conf.Check(p.ImportPath, fset, files, info)
		die(err)
		for j, a := range files {
			r := &rewriter{info: info, fset: fset}
			r.file(a)
			if !r.changed {
				continue
			}
			var buf bytes.Buffer
			die(format.Node(&buf, fset, a))
			dst := filepath.Join(*out, fmt.Sprintf("p%d_%s", i, filepath.Base(names[j])))
			die(os.WriteFile(dst, append([]byte(r.header), buf.Bytes()...), 0o666))
			ov.Replace[names[j]] = dst
		}
	}
	die(json.NewEncoder(os.Stdout).Encode(ov))
}

type rewriter struct {
	info    *types.Info
	fset    *token.FileSet
	changed bool
	useVrt  bool
	header  string
	n       int
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_verif%s%d", s, r.n))
}

func (r *rewriter) vrt(f string) ast.Expr {
	r.useVrt, r.changed = true, true
	return &ast.SelectorExpr{X: ast.NewIdent("_vrt"), Sel: ast.NewIdent(f)}
}

func (r *rewriter) call(f string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.vrt(f), Args: args}
}

func (r *rewriter) file(f *ast.File) {
	expr := "go1.21"
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if c.Pos() < f.Package && constraint.IsGoBuild(c.Text) {
				if e, err := constraint.Parse(c.Text); err == nil {
					expr = "(" + e.String() + ") && go1.21"
				}
			}
		}
	}
	r.header = "//go:build " + expr + "\n\n"
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := swap[p]; ok && (im.Name == nil || im.Name.Name != "." && im.Name.Name != "_") {
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(to)
			r.changed = true
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					r.spec(v)
				}
			}
		}
	}
	if r.useVrt {
		im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("_vrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rt + "vrt")}}}}
		f.Decls = append([]ast.Decl{im}, f.Decls...)
	}
	// comments would be placed by position; only the code matters
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func (r *rewriter) spec(v *ast.ValueSpec) {
	if len(v.Names) == 2 && len(v.Values) == 1 {
		if u := r.arrow(v.Values[0]); u != nil {
			v.Values[0] = r.call("Recv2", r.expr(u.X))
			return
		}
	}
	for i := range v.Values {
		v.Values[i] = r.expr(v.Values[i])
	}
}

func (r *rewriter) arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// expr rewrites an expression.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 {
			if _, b := r.info.Uses[id].(*types.Builtin); b {
				return r.call("Close", r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i])
		}
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
	case *ast.KeyValueExpr:
		if _, ok := e.Key.(*ast.Ident); !ok {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.FuncLit:
		r.block(e.Body)
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.list(b.List)
	}
}

func (r *rewriter) list(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i], nil)
	}
}

// stmt rewrites a statement; label is the label it carries, if any (the result then carries it).
func (r *rewriter) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	wrap := func(x ast.Stmt) ast.Stmt {
		if label != nil {
			return &ast.LabeledStmt{Label: label, Stmt: x}
		}
		return x
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return wrap(&ast.ExprStmt{X: r.call("Send", r.expr(s.Chan), r.expr(s.Value))})
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := r.arrow(s.Rhs[0]); u != nil {
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return wrap(s)
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					r.spec(v)
				}
			}
		}
	case *ast.DeferStmt:
		if c, ok := r.expr(s.Call).(*ast.CallExpr); ok {
			s.Call = c
		}
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else, nil)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Cond = r.expr(s.Cond)
		s.Post = r.stmt(s.Post, nil)
		r.block(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init, nil)
		s.Assign = r.stmt(s.Assign, nil)
		for _, c := range s.Body.List {
			r.list(c.(*ast.CaseClause).Body)
		}
	case *ast.GoStmt:
		return wrap(r.goStmt(s))
	case *ast.SelectStmt:
		return r.selectStmt(s, label)
	case *ast.RangeStmt:
		return r.rangeStmt(s, wrap)
	}
	return wrap(s)
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	if id, ok := s.Call.Fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[id].(*types.Builtin); b {
			return s
		}
	}
	var pre []ast.Stmt
	call := &ast.CallExpr{Ellipsis: s.Call.Ellipsis}
	capture := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return e
		}
		t := r.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return t
	}
	if _, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		return &ast.ExprStmt{X: r.call("Go", r.expr(s.Call.Fun))}
	}
	call.Fun = capture(s.Call.Fun)
	for _, a := range s.Call.Args {
		call.Args = append(call.Args, capture(a))
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", lit)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	iv, vv, ov := r.tmp("i"), r.tmp("v"), r.tmp("ok")
	var pre []ast.Stmt
	args := []ast.Expr{nil}
	def := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		out := &ast.CaseClause{}
		body := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vv, ov}}}
		if cc.Comm == nil {
			def, hasDef = "true", true
		} else {
			out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
			ch := r.tmp("c")
			setCh := func(e ast.Expr) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
			}
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				setCh(m.Chan)
				args = append(args, r.call("SendCase", ch, r.expr(m.Value)))
			case *ast.ExprStmt:
				setCh(r.arrow(m.X).X)
				args = append(args, r.call("RecvCase", ch))
			case *ast.AssignStmt:
				setCh(r.arrow(m.Rhs[0]).X)
				args = append(args, r.call("RecvCase", ch))
				as := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{r.call("As", ch, vv)}}
				if len(m.Lhs) == 2 {
					as.Rhs = append(as.Rhs, ov)
				}
				body = append(body, as)
			}
		}
		r.list(cc.Body)
		out.Body = append(body, cc.Body...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	args[0] = ast.NewIdent(def)
	sw.Init = &ast.AssignStmt{Lhs: []ast.Expr{iv, vv, ov}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Select", args...)}}
	sw.Tag = iv
	if idx == 0 && !hasDef {
		sw.Init = &ast.ExprStmt{X: r.call("Select", args...)}
		sw.Tag = nil
	}
	if idx == 0 && hasDef {
		sw.Init.(*ast.AssignStmt).Tok = token.DEFINE
	}
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, wrap func(ast.Stmt) ast.Stmt) ast.Stmt {
	tv, ok := r.info.Types[s.X]
	if !ok {
		r.block(s.Body)
		return wrap(s)
	}
	addr := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
	switch u := tv.Type.Underlying().(type) {
	case *types.Map:
		if _, isParam := tv.Type.(*types.TypeParam); isParam {
			break
		}
		noK, noV := blank(s.Key), blank(s.Value)
		if s.Tok == token.ASSIGN {
			okVar := func(e ast.Expr, t types.Type) bool {
				if blank(e) {
					return true
				}
				id, is := e.(*ast.Ident)
				return is && types.Identical(r.info.Types[id].Type, t)
			}
			if !okVar(s.Key, u.Key()) || !okVar(s.Value, u.Elem()) {
				break
			}
		}
		it := r.tmp("it")
		x := r.expr(s.X)
		next := func(f string, a ...ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent(f)}, Args: a}
		}
		var lhs []ast.Expr
		fn := "Iter"
		var cond ast.Expr
		define := s.Tok == token.DEFINE
		switch {
		case noK && noV:
			cond = next("Next0")
		case noV:
			cond = next("NextK", addr(s.Key))
			if define {
				fn, lhs = "Range1", []ast.Expr{s.Key}
			}
		case noK:
			cond = next("NextV", addr(s.Value))
			if define {
				fn, lhs = "RangeV", []ast.Expr{s.Value}
			}
		default:
			cond = next("Next", addr(s.Key), addr(s.Value))
			if define {
				fn, lhs = "Range2", []ast.Expr{s.Key, s.Value}
			}
		}
		r.block(s.Body)
		return wrap(&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: append(lhs, it), Tok: token.DEFINE, Rhs: []ast.Expr{r.call(fn, x)}},
			Cond: cond,
			Body: s.Body,
		})
	case *types.Chan:
		ch, okv := r.tmp("c"), r.tmp("ok")
		var first []ast.Stmt
		rec := r.call("Recv2", ch)
		brk := func(c ast.Expr) ast.Stmt {
			return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: c}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
		}
		if blank(s.Key) {
			first = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), okv}, Tok: token.DEFINE, Rhs: []ast.Expr{rec}}, brk(okv)}
		} else if s.Tok == token.DEFINE {
			first = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{rec}}, brk(okv)}
		} else {
			t := r.tmp("x")
			first = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{rec}}, brk(okv),
				&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}
		}
		x := r.expr(s.X)
		r.block(s.Body)
		s.Body.List = append(first, s.Body.List...)
		return wrap(&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x}}, Body: s.Body})
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return wrap(s)
}
