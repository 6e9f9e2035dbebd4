// Command mut makes small syntactic changes to Go files, one at a time: a
// development aid that shows which changes to the code under test no
// property notices.
//
//	mut list FILE...        one line per change: number, place, what it does
//	mut apply N FILE...     the file of change N, with it, on standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	file string
	a, b int
	text string
	line int
	what string
}

var (
	edits []edit
	src   []byte
	name  string
	fset  *token.FileSet
)

func off(p token.Pos) int { return fset.Position(p).Offset }

func add(a, b token.Pos, text, what string) {
	edits = append(edits, edit{name, off(a), off(b), text, fset.Position(a).Line, what})
}

func text(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

func clip(s string) string {
	for i, r := range s {
		if r == '\n' || i > 60 {
			return s[:i] + "…"
		}
	}
	return s
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
}

func stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		add(s.Pos(), s.End(), "", "drop "+clip(text(s)))
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "drop "+clip(text(s)))
		}
	case *ast.BranchStmt:
		add(s.Pos(), s.End(), "", "drop "+clip(text(s)))
		if s.Tok == token.BREAK {
			add(s.Pos(), s.End(), "continue", "break to continue")
		} else if s.Tok == token.CONTINUE {
			add(s.Pos(), s.End(), "break", "continue to break")
		}
	case *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "drop "+clip(text(s)))
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add(s.Pos(), s.End(), "", "drop return")
		}
	}
}

func node(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.GenDecl:
		if n.Tok == token.IMPORT || n.Tok == token.CONST {
			return false
		}
	case *ast.BlockStmt:
		for _, s := range n.List {
			stmt(s)
		}
	case *ast.CaseClause:
		for _, s := range n.Body {
			stmt(s)
		}
	case *ast.IfStmt:
		c := text(n.Cond)
		add(n.Cond.Pos(), n.Cond.End(), "!("+c+")", "negate "+clip(c))
		add(n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "never "+clip(c))
		add(n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "always "+clip(c))
		if n.Else != nil {
			if b, ok := n.Else.(*ast.BlockStmt); ok {
				add(b.Pos(), b.End(), "{}", "drop else")
			}
		}
	case *ast.BinaryExpr:
		for _, t := range swaps[n.Op] {
			add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String(), clip(text(n))+" to "+t.String())
		}
		if n.Op == token.LAND || n.Op == token.LOR {
			v := "true"
			if n.Op == token.LOR {
				v = "false"
			}
			add(n.X.Pos(), n.X.End(), v, "without "+clip(text(n.X)))
			add(n.Y.Pos(), n.Y.End(), v, "without "+clip(text(n.Y)))
		}
	case *ast.BasicLit:
		if n.Kind == token.INT {
			if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
				add(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" to "+fmt.Sprint(v+1))
				if v > 0 {
					add(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" to "+fmt.Sprint(v-1))
				}
			}
		} else if n.Kind == token.FLOAT {
			add(n.Pos(), n.End(), "("+n.Value+"*1.5+1)", n.Value+" changed")
		} else if n.Kind == token.STRING && len(n.Value) > 2 {
			add(n.Pos(), n.End(), `""`, clip(n.Value)+" to empty")
		}
	case *ast.Ident:
		if n.Name == "true" || n.Name == "false" {
			v := map[string]string{"true": "false", "false": "true"}[n.Name]
			add(n.Pos(), n.End(), v, n.Name+" to "+v)
		}
	case *ast.SliceExpr:
		if n.High != nil {
			add(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "slice end "+clip(text(n))+" -1")
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			add(n.OpPos, n.OpPos+1, "", "without not: "+clip(text(n)))
		}
	}
	return true
}

func main() {
	if len(os.Args) < 3 {
		os.Exit(2)
	}
	files := os.Args[2:]
	want := -1
	if os.Args[1] == "apply" {
		want, _ = strconv.Atoi(files[0])
		files = files[1:]
	}
	for _, f := range files {
		name = f
		var err error
		if src, err = os.ReadFile(f); err != nil {
			panic(err)
		}
		fset = token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		from := len(edits)
		ast.Inspect(tree, node)
		if want >= from && want < len(edits) {
			e := edits[want]
			fmt.Fprintln(os.Stderr, e.file)
			os.Stdout.Write([]byte(string(src[:e.a]) + e.text + string(src[e.b:])))
			return
		}
	}
	if want < 0 {
		for i, e := range edits {
			fmt.Printf("%d\t%s:%d\t%s\n", i, e.file, e.line, e.what)
		}
	}
}
