// instr rewrites Go packages of the system under test for controlled
// scheduling and writes a "go build -overlay" file.
//
//	instr -repo /repo -out DIR -mode sched|chan -harness DIR -overlay FILE -fine dir1 dir2 ...
//
// mode sched: "sync" and "sync/atomic" are replaced by drop-in packages
// whose operations are scheduling points, go statements start scheduled
// threads, and (with -fine) every statement is preceded by a scheduling
// point; read-modify-write assignments are split.
//
// mode chan: only "sync" is replaced, by a package whose mutexes block on
// channels (for testing/synctest, where blocking on a mutex is not durable).
//
// mode fake: "runtime/metrics" is replaced by a package with scripted values.
//
// mode none: no rewriting, the overlay only adds the harness packages.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const mod = "github.com/lightstep/otel-launcher-go"
const base = mod + "/zzverif/"

var fine = flag.Bool("fine", false, "statement-level points")
var noloop = flag.Bool("noloop", false, "no points inside loops")
var mode = flag.String("mode", "sched", "")
var repo = flag.String("repo", "/repo", "")
var out = flag.String("out", "", "")
var harness = flag.String("harness", "", "")
var overlay = flag.String("overlay", "", "")

func fatal(a ...any) { fmt.Fprintln(os.Stderr, a...); os.Exit(3) }

func main() {
	flag.Parse()
	rep := map[string]string{}
	// harness packages: every file below the harness dir appears at /repo/zzverif
	filepath.Walk(*harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fatal(err)
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*harness, p)
		rep[filepath.Join(*repo, "zzverif", rel)] = p
		return nil
	})
	if *mode != "none" {
		for _, d := range flag.Args() {
			root := filepath.Join(*repo, d)
			filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					fatal(err)
				}
				if fi.IsDir() {
					switch fi.Name() {
					case "testdata", "exporters", "example":
						if p != root {
							return filepath.SkipDir
						}
					}
					return nil
				}
				if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
					return nil
				}
				src, changed := rewrite(p)
				if changed {
					rel, _ := filepath.Rel(*repo, p)
					dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
					if err := os.WriteFile(dst, src, 0o644); err != nil {
						fatal(err)
					}
					rep[p] = dst
				}
				return nil
			})
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		fatal(err)
	}
}

func text(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func rewrite(p string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
	if err != nil {
		fatal(err)
	}
	// keep only comments before the package clause (build constraints);
	// others may be displaced by edits
	var keep []*ast.CommentGroup
	for _, c := range f.Comments {
		if c.End() < f.Package {
			keep = append(keep, c)
		} else {
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:") && !strings.HasPrefix(l.Text, "//go:generate") {
					return nil, false // directives (embed, linkname): leave the file alone
				}
			}
		}
	}
	f.Comments = keep
	changed := false
	runtimeName := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		repl := func(np, name string) {
			if im.Name == nil {
				im.Name = ast.NewIdent(name)
			}
			im.Path.Value = strconv.Quote(base + np)
			im.EndPos = 0
			changed = true
		}
		switch path {
		case "runtime/metrics":
			if *mode == "fake" {
				repl("vmetrics", "metrics")
			}
		case "sync":
			if *mode == "fake" {
				break
			}
			if *mode == "chan" {
				repl("chsync", "sync")
			} else {
				repl("vsync", "sync")
			}
		case "sync/atomic":
			if *mode == "sched" {
				repl("vatomic", "atomic")
			}
		case "runtime":
			runtimeName = "runtime"
			if im.Name != nil {
				runtimeName = im.Name.Name
			}
		}
	}
	if *mode == "chan" || *mode == "fake" {
		return finish(fset, f, p, changed, false, "")
	}
	useSched := false
	sel := func(n string) ast.Expr {
		useSched = true
		return &ast.SelectorExpr{X: ast.NewIdent("zzsched"), Sel: ast.NewIdent(n)}
	}
	// runtime.Gosched
	if runtimeName != "" {
		ast.Inspect(f, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Gosched" {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == runtimeName {
					id.Name = "zzsched"
					useSched = true
				}
			}
			return true
		})
	}
	point := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("P")}}
	}
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident, *ast.BasicLit:
			return true
		case *ast.SelectorExpr:
			return pure(x.X)
		case *ast.StarExpr:
			return pure(x.X)
		case *ast.ParenExpr:
			return pure(x.X)
		case *ast.IndexExpr:
			return pure(x.X) && pure(x.Index)
		}
		return false
	}
	shared := func(e ast.Expr) bool { _, id := e.(*ast.Ident); return !id && pure(e) }
	y := func(e ast.Expr) ast.Expr { return &ast.CallExpr{Fun: sel("Y"), Args: []ast.Expr{e}} }

	var stmts func(list []ast.Stmt) []ast.Stmt
	one := func(s ast.Stmt) ast.Stmt {
		switch x := s.(type) {
		case *ast.GoStmt:
			if lit, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{lit}}}
			}
			var pre []ast.Stmt
			for i, a := range x.Call.Args {
				id := ast.NewIdent(fmt.Sprintf("zzarg%d", i))
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				x.Call.Args[i] = ast.NewIdent(id.Name)
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x.Call}}}}
			pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{lit}}})
			return &ast.BlockStmt{List: pre}
		case *ast.IncDecStmt:
			if *fine && shared(x.X) {
				op := token.ADD
				if x.Tok == token.DEC {
					op = token.SUB
				}
				return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: y(x.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
			}
		case *ast.AssignStmt:
			if !*fine || len(x.Lhs) != 1 || !shared(x.Lhs[0]) {
				return s
			}
			ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.MUL_ASSIGN: token.MUL}
			if op, ok := ops[x.Tok]; ok {
				return &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: y(x.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}}}
			}
			if x.Tok == token.ASSIGN {
				if b, ok := x.Rhs[0].(*ast.BinaryExpr); ok {
					lt := text(fset, x.Lhs[0])
					if text(fset, b.X) == lt {
						b.X = y(b.X)
					} else if text(fset, b.Y) == lt {
						b.Y = y(b.Y)
					}
				}
			}
		}
		return s
	}
	stmts = func(list []ast.Stmt) []ast.Stmt {
		var r []ast.Stmt
		for _, s := range list {
			if *fine {
				r = append(r, point())
			}
			if l, ok := s.(*ast.LabeledStmt); ok {
				l.Stmt = one(l.Stmt)
				r = append(r, l)
				continue
			}
			r = append(r, one(s))
		}
		return r
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			if *noloop {
				return false
			}
		case *ast.BlockStmt:
			x.List = stmtsIfBody(x.List, stmts)
		case *ast.CaseClause:
			x.Body = stmts(x.Body)
		case *ast.CommClause:
			x.Body = stmts(x.Body)
		}
		return true
	})
	return finish(fset, f, p, changed || useSched, useSched, runtimeName)
}

// stmtsIfBody does not touch the bodies of switch and select statements,
// which consist of clauses.
func stmtsIfBody(list []ast.Stmt, f func([]ast.Stmt) []ast.Stmt) []ast.Stmt {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return list
		}
	}
	return f(list)
}

func finish(fset *token.FileSet, f *ast.File, p string, changed, useSched bool, runtimeName string) ([]byte, bool) {
	if !changed {
		return nil, false
	}
	if useSched {
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(base + "vsched")}}}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		fatal(p, err)
	}
	if runtimeName != "" && runtimeName != "_" && runtimeName != "." {
		fmt.Fprintf(&b, "\nvar _ = %s.GOOS\n", runtimeName)
	}
	return b.Bytes(), true
}
