// Command mutate lists small source changes (mutants) of Go files, one JSON object per line.
// It is used by tools/mutants.py to look for changes which neither the repository's tests nor the checks notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Kind, Old, New string
	Start, End, Line     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(kind string, from, to token.Pos, text string) {
			s, e := off(from), off(to)
			if string(src[s:e]) == text {
				return
			}
			enc.Encode(mutant{File: file, Kind: kind, Old: string(src[s:e]), New: text, Start: s, End: e, Line: fset.Position(from).Line})
		}
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					emit("operator", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit("left", n.X.Pos(), n.Y.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
					emit("right", n.X.Pos(), n.Y.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit("not", n.OpPos, n.OpPos+1, "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit("literal", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							emit("literal", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.CHAR:
					emit("literal", n.Pos(), n.End(), "'\\x01'")
				}
			case *ast.Ident:
				switch n.Name {
				case "true":
					emit("bool", n.Pos(), n.End(), "false")
				case "false":
					emit("bool", n.Pos(), n.End(), "true")
				}
			case *ast.IfStmt:
				emit("condition", n.Cond.Pos(), n.Cond.End(), "true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
				emit("condition", n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				emit("delete", n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					emit("delete", n.Pos(), n.End(), "_ = 0")
				}
			case *ast.BranchStmt:
				emit("branch", n.Pos(), n.End(), "")
			case *ast.CaseClause:
				for i, e := range n.List {
					if len(n.List) > 1 {
						to := e.End()
						from := e.Pos()
						if i+1 < len(n.List) {
							to = n.List[i+1].Pos()
						} else {
							from = n.List[i-1].End()
						}
						emit("case", from, to, "")
					}
				}
				if len(n.List) > 0 && len(n.Body) > 0 {
					emit("case body", n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit("error", r.Pos(), r.End(), "nil")
					}
				}
			}
			return true
		})
	}
}
