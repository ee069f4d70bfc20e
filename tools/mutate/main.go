// mutate FILE...: prints one JSON object per mutant: {file,start,end,new,desc,line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string `json:"file"`
	Start, End int
	New, Desc  string
	Line       int
}

func main() {
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, new, d string) {
			json.NewEncoder(os.Stdout).Encode(M{f, off(n.Pos()), off(n.End()), new, d, fs.Position(n.Pos()).Line})
		}
		emitR := func(a, b token.Pos, new, d string) {
			json.NewEncoder(os.Stdout).Encode(M{f, off(a), off(b), new, d, fs.Position(a).Line})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		}
		inImport := map[ast.Node]bool{}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.Field:
				if x.Tag != nil {
					inImport[x.Tag] = true
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					emitR(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, txt(x.X), "drop right operand")
					emit(x, txt(x.Y), "drop left operand")
				}
			case *ast.BasicLit:
				if inImport[x] {
					return true
				}
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x, fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x, fmt.Sprint(v-1), "int-1")
						}
					}
				}
				if x.Kind == token.STRING {
					s, _ := strconv.Unquote(x.Value)
					if s == "" {
						emit(x, `"x"`, "string")
					} else {
						emit(x, strconv.Quote(s[:len(s)-1]), "string cut")
						emit(x, `""`, "string empty")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x, "false", "true->false")
				} else if x.Name == "false" {
					emit(x, "true", "false->true")
				}
			case *ast.IfStmt:
				emit(x.Cond, "!("+txt(x.Cond)+")", "negate if")
				emit(x.Cond, "("+txt(x.Cond)+") && false", "if false")
				emit(x.Cond, "("+txt(x.Cond)+") || true", "if true")
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						emit(b, "{}", "empty else")
					}
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond, "("+txt(x.Cond)+") && false", "for false")
				}
			case *ast.ReturnStmt:
				for i, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r, "nil", "return nil error")
					} else if id, ok := r.(*ast.Ident); ok && id.Name == "nil" && i == len(x.Results)-1 {
						_ = id
					} else if c, ok := r.(*ast.CallExpr); ok && i == len(x.Results)-1 && len(x.Results) > 1 {
						_ = c
						emit(r, "nil", "return nil error")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					del(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					del(s, emit)
				}
			case *ast.CommClause:
				for _, s := range x.Body {
					del(s, emit)
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					emitR(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap args")
				}
				if len(x.Args) == 1 {
					emit(x, txt(x.Args[0]), "unwrap call")
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						emitR(e.Pos(), after(src, off(e.End()), e.End()), "", "drop field "+txt(e))
					}
				}
			case *ast.DeferStmt:
				emit(x, txt(x.Call), "defer -> now")
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x, txt(x.X), "drop !")
				}
				if x.Op == token.SUB {
					emit(x, txt(x.X), "drop -")
				}
			}
			return true
		})
	}
}
func after(src []byte, o int, p token.Pos) token.Pos {
	for o < len(src) && (src[o] == ' ' || src[o] == '\t') {
		o++
		p++
	}
	if o < len(src) && src[o] == ',' {
		p++
	}
	return p
}
func del(s ast.Stmt, emit func(ast.Node, string, string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
		emit(s, "", "delete statement")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s, "", "delete assignment")
		}
	case *ast.ReturnStmt:
		emit(s, "", "delete return")
	case *ast.ForStmt, *ast.RangeStmt:
		emit(s, "", "delete loop")
	}
}
