// Development aid: list small changes of a Go file, one JSON line each:
// {"file":, "from":, "to":, "new":, "line":, "what":} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		emit := func(a, b token.Pos, n, what string) {
			p := fs.Position(a)
			j, _ := json.Marshal(map[string]interface{}{"file": file, "from": p.Offset, "to": fs.Position(b).Offset, "new": n, "line": p.Line, "what": what})
			fmt.Println(string(j))
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "drop right operand")
					emit(x.Pos(), x.End(), "("+text(x.Y)+")", "drop left operand")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") || true)", "if true")
				emit(x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") && false)", "if false")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "drop !")
				}
				if x.Op == token.SUB {
					emit(x.Pos(), x.End(), "("+text(x.X)+")", "drop -")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "number +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "number -1")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
					emit(x.Pos(), x.End(), `""`, "empty string")
				}
			case *ast.Field:
				return x.Tag == nil
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				}
				if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue", "break -> continue")
				}
				if x.Tok == token.CONTINUE && x.Label == nil {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "drop statement: "+text(s))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "drop statement: "+text(s))
						}
					case *ast.ReturnStmt:
						if len(y.Results) == 1 {
							emit(s.Pos(), s.End(), "", "drop return")
							if id, ok := y.Results[0].(*ast.Ident); ok && id.Name == "err" {
								emit(y.Results[0].Pos(), y.Results[0].End(), "nil", "return nil")
							}
						} else if len(y.Results) == 0 {
							emit(s.Pos(), s.End(), "", "drop return")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit(s.Pos(), s.End(), "", "drop loop")
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.SelectorExpr); ok {
					m := map[string]string{"Add": "Sub", "Sub": "Add", "Mul": "Quo", "Quo": "Mul", "ToUpper": "ToLower", "ToLower": "ToUpper", "TrimSpace": "ToUpper", "HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "TrimLeft": "TrimRight", "TrimRight": "TrimLeft"}
					if o, ok := m[id.Sel.Name]; ok {
						emit(id.Sel.Pos(), id.Sel.End(), o, id.Sel.Name+" -> "+o)
					}
				}
			}
			return true
		})
	}
}
