// mutate lists and applies small changes to a Go source file (developer tool,
// not a check): mutate FILE lists them; mutate FILE N writes the changed file.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(from, to token.Pos, text string) { edits = append(edits, edit{off(from), off(to), text}) }
	swap := map[token.Token][]string{
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"},
	}
	assign := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
	block := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
				add(s.Pos(), s.End(), "{}")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "{}")
				}
			case *ast.IfStmt:
				if s.Else == nil && s.Init == nil && i < len(list)-1 {
					add(s.Pos(), s.End(), "{}")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					if id, ok := s.Results[0].(*ast.Ident); ok && id.Name == "err" {
						add(id.Pos(), id.End(), "nil")
					} else if ok && (id.Name == "true" || id.Name == "false") {
						add(id.Pos(), id.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR || n.Tok == token.CONST
		case *ast.BinaryExpr:
			for _, t := range swap[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
			}
		case *ast.AssignStmt:
			if t, ok := assign[n.Tok]; ok {
				add(n.TokPos, n.TokPos+2, t)
			}
		case *ast.IncDecStmt:
			if n.Tok == token.INC {
				add(n.TokPos, n.TokPos+2, "--")
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.Atoi(n.Value); err == nil {
					add(n.Pos(), n.End(), strconv.Itoa(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), strconv.Itoa(v-1))
					}
				}
			}
			if n.Kind == token.FLOAT {
				add(n.Pos(), n.End(), "(1.01*"+n.Value+")")
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB {
				add(n.OpPos, n.OpPos+1, "")
			}
		case *ast.CallExpr: // swapped operands
			if len(n.Args) == 2 {
				a, b := n.Args[0], n.Args[1]
				x, y := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
				if x != y {
					add(a.Pos(), b.End(), y+", "+x)
				}
			}
		case *ast.IndexExpr:
			if _, ok := n.X.(*ast.Ident); ok {
				if id, ok := n.Index.(*ast.Ident); ok && len(id.Name) == 1 {
					add(id.Pos(), id.End(), "0*"+id.Name)
				}
			}
		case *ast.SliceExpr:
			if n.High == nil && n.Low != nil {
				add(n.Low.Pos(), n.Low.End(), "0")
			}
		}
		return true
	})
	apply := func(e edit) string { return string(src[:e.from]) + e.text + string(src[e.to:]) }
	if len(os.Args) == 2 {
		for i, e := range edits {
			fmt.Printf("%d\t%s:%d\t%q -> %q\n", i, os.Args[1], fset.Position(f.FileStart).Line+lines(src[:e.from]), src[e.from:e.to], e.text)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	if err := os.WriteFile(os.Args[1], []byte(apply(edits[n])), 0o644); err != nil {
		panic(err)
	}
}

func lines(b []byte) int {
	n := 0
	for _, c := range b {
		if c == '\n' {
			n++
		}
	}
	return n
}
