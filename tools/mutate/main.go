// Command mutate lists small changes of a Go file as JSON lines (byte ranges
// and their replacements); development tool to find gaps of the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
	Func  string `json:"func"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	file, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	fn := ""
	out := json.NewEncoder(os.Stdout)
	emit := func(a, b token.Pos, repl, desc string) {
		_ = out.Encode(edit{fs.Position(a).Line, off(a), off(b), repl, desc, fn})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Name.Name == "String" {
			continue
		}
		fn = f.Name.Name
		ast.Inspect(f.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "panic" || id.Name == "make") {
					return false
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if p, ok := s.X.(*ast.Ident); ok && (p.Name == "errorx" || p.Name == "fmt") {
						return false
					}
				}
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						continue
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, text(x)+" -> "+r)
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", text(x)+" -> without !")
				}
				if x.Op == token.SUB {
					emit(x.OpPos, x.OpPos+1, "", text(x)+" -> without -")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "if "+text(x.Cond)+" negated")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && zzFalse()", "if "+text(x.Cond)+" -> never")
				if x.Else == nil {
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || !zzFalse()", "if "+text(x.Cond)+" -> always")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					stmt(s, emit, text)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					stmt(s, emit, text)
				}
			case *ast.IncDecStmt:
				r := "++"
				if x.Tok == token.INC {
					r = "--"
				}
				emit(x.TokPos, x.TokPos+2, r, text(x)+" -> "+r)
			}
			return true
		})
	}
}

func stmt(s ast.Stmt, emit func(a, b token.Pos, repl, desc string), text func(ast.Node) string) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if strings.HasPrefix(text(x), "panic(") {
			return
		}
		emit(x.Pos(), x.End(), "", "delete "+text(x))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			lhs := []string{}
			for _, l := range x.Rhs {
				lhs = append(lhs, text(l))
			}
			blank := strings.TrimSuffix(strings.Repeat("_, ", len(x.Rhs)), ", ")
			if x.Tok == token.ASSIGN && len(x.Lhs) == len(x.Rhs) {
				emit(x.Pos(), x.End(), blank+" = "+strings.Join(lhs, ", "), "drop "+text(x))
			} else {
				emit(x.Pos(), x.End(), blank+" = "+strings.Join(lhs, ", "), "drop "+text(x))
			}
			if x.Tok == token.ADD_ASSIGN && !strings.Contains(text(x), "\"") {
				emit(x.TokPos, x.TokPos+2, "-=", text(x)+" -> -=")
			}
		}
	case *ast.IncDecStmt:
		emit(x.Pos(), x.End(), "", "delete "+text(x))
	case *ast.BranchStmt:
		if x.Label == nil {
			switch x.Tok.String() {
			case "break":
				emit(x.Pos(), x.End(), "continue", "break -> continue")
				emit(x.Pos(), x.End(), "", "delete break")
			case "continue":
				emit(x.Pos(), x.End(), "break", "continue -> break")
				emit(x.Pos(), x.End(), "", "delete continue")
			}
		}
	}
}
