// mutate lists and applies small syntactic changes to a Go file.
//
//	mutate list FILE      prints one line per change: number, line, description
//	mutate apply FILE N   prints the file with change N made
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos   token.Pos
	name  string
	apply func()
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[2], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	cs := collect(f, fset)
	if os.Args[1] == "list" {
		for i, c := range cs {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.name)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	cs[n].apply()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}

func text(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if i := bytes.IndexByte(b.Bytes(), '\n'); i >= 0 {
		s = s[:i] + "..."
	}
	if len(s) > 70 {
		s = s[:70]
	}
	return s
}

func collect(f *ast.File, fset *token.FileSet) (cs []change) {
	add := func(n ast.Node, name string, fn func()) { cs = append(cs, change{n.Pos(), name, fn}) }
	list := func(stmts *[]ast.Stmt) {
		for i, s := range *stmts {
			i := i
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
				all := true
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
						all = false
					}
				}
				if all && len(x.Rhs) == 1 {
					if _, ok := x.Rhs[0].(*ast.CallExpr); !ok {
						continue
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if id, ok := x.Results[0].(*ast.Ident); ok && id.Name == "err" {
						r := x
						add(x, "return nil for err", func() { r.Results[0] = ast.NewIdent("nil") })
					}
				}
				continue
			default:
				continue
			}
			st := s
			add(s, "delete: "+text(fset, s), func() {
				if as, ok := st.(*ast.AssignStmt); ok {
					// keep the operands used
					l := make([]ast.Expr, len(as.Rhs))
					for k := range l {
						l[k] = ast.NewIdent("_")
					}
					_ = l
				}
				(*stmts)[i] = &ast.EmptyStmt{Semicolon: st.Pos(), Implicit: false}
			})
		}
		// exchange neighbours
		for i := 0; i+1 < len(*stmts); i++ {
			i := i
			_, a := (*stmts)[i].(*ast.ExprStmt)
			_, b := (*stmts)[i+1].(*ast.ExprStmt)
			if a && b {
				add((*stmts)[i], "exchange with next: "+text(fset, (*stmts)[i]), func() { (*stmts)[i], (*stmts)[i+1] = (*stmts)[i+1], (*stmts)[i] })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
		case *ast.CommClause:
			list(&x.Body)
		case *ast.IfStmt:
			for _, v := range []string{"true", "false"} {
				v := v
				add(x, "if "+text(fset, x.Cond)+" -> "+v, func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: map[string]token.Token{"true": token.LOR, "false": token.LAND}[v], Y: ast.NewIdent(v)}
				})
			}
		case *ast.BinaryExpr:
			swap := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.ADD: token.SUB, token.SUB: token.ADD, token.MUL: token.ADD, token.SHL: token.SHR, token.SHR: token.SHL, token.LAND: token.LOR, token.LOR: token.LAND}
			if y, ok := swap[x.Op]; ok {
				add(x, "operator of "+text(fset, x)+" -> "+y.String(), func() { x.Op = y })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					for _, d := range []int64{1, -1} {
						d := d
						if v+d < 0 {
							continue
						}
						add(x, fmt.Sprintf("constant %s -> %d", x.Value, v+d), func() { x.Value = strconv.FormatInt(v+d, 10) })
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x, "slice from the start: "+text(fset, x), func() { x.Low = nil })
			}
			if x.High != nil {
				add(x, "slice to the end: "+text(fset, x), func() { x.High = nil })
			}
		case *ast.CallExpr:
			// exchange adjacent arguments
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				add(x, fmt.Sprintf("arguments %d and %d of %s", i, i+1, text(fset, x)), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				other := map[string]string{"Add": "Subtract", "Subtract": "Add", "Lock": "RLock", "RLock": "Lock", "Unlock": "RUnlock", "RUnlock": "Unlock", "Set": "Negate", "Multiply": "Add", "MultiplyAdd": "MultiplyAddX", "PutUint16": "PutUint32"}[s.Sel.Name]
				if other != "" {
					add(x, s.Sel.Name+" -> "+other+": "+text(fset, x), func() { s.Sel = ast.NewIdent(other) })
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "without !: "+text(fset, x), func() { x.Op = token.NOT; x.X = &ast.ParenExpr{X: &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.X}}} })
			}
		case *ast.RangeStmt:
			// skip the first element: only possible for slices with a key
		case *ast.Ident:
		}
		return true
	})
	return
}
