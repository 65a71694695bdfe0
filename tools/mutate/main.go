// Mutate lists small changes of Go files: mutate FILE... prints one JSON object
// per change, {file, from, to, text, what}, which replaces the bytes [from, to).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Line int    `json:"line"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, text, what string) {
			enc.Encode(change{f, off(a), off(b), text, fset.Position(a).Line, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.REM: {"*"},
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if n.Tok == token.IMPORT || n.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "drop the right of "+n.Op.String())
					emit(n.Pos(), n.End(), text(n.Y), "drop the left of "+n.Op.String())
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop !")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if never")
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if always")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "for never")
				}
			case *ast.RangeStmt:
				emit(n.Body.Lbrace, n.Body.Lbrace+1, "{ if true { break };", "range never")
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, emit)
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && v != "" {
						emit(n.Pos(), n.End(), `""`, "empty string")
						rs := []rune(v)
						if len(rs) > 1 {
							emit(n.Pos(), n.End(), strconv.Quote(string(rs[1:])), "drop the first character")
							emit(n.Pos(), n.End(), strconv.Quote(string(rs[:len(rs)-1])), "drop the last character")
						}
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), `'\u2603'`, "another character")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "low +1")
					emit(n.Low.Pos(), n.Low.End(), "0", "low 0")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "high -1")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
						emit(r.Pos(), r.End(), "nil", "return no error")
					}
				}
			case *ast.CallExpr:
				// f(a, b) -> f(b, a)
				if len(n.Args) == 2 {
					emit(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) >= 2 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "append nothing")
				}
				if len(n.Args) == 1 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "call -> argument")
				}
			case *ast.DeferStmt:
			}
			return true
		}
		ast.Inspect(file, visit)
	}
}

func del(s ast.Stmt, emit func(a, b token.Pos, text, what string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.SendStmt:
		emit(s.Pos(), s.End(), "", "delete statement")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete assignment")
		}
	case *ast.IfStmt:
		emit(s.Pos(), s.End(), "", "delete if")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete return")
		}
	}
}
