// mutate FILE lists the mutants of a Go file as JSON lines {"op", "line", "from", "to", "start", "end"} of byte ranges to replace.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Op    string `json:"op"`
	Line  int    `json:"line"`
	From  string `json:"from"`
	To    string `json:"to"`
	Start int    `json:"start"`
	End   int    `json:"end"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(op string, from, to token.Pos, text string) {
		enc.Encode(mutant{op, fs.Position(from).Line, string(src[off(from):off(to)]), text, off(from), off(to)})
	}
	swaps := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				emit("binary", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit("left", n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
				emit("right", n.Pos(), n.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
			}
		case *ast.IfStmt:
			c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
			emit("negate", n.Cond.Pos(), n.Cond.End(), "!("+c+")")
			if n.Else == nil {
				emit("always", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
			}
			emit("never", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit("bool", n.Pos(), n.End(), "false")
			} else if n.Name == "false" {
				emit("bool", n.Pos(), n.End(), "true")
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB {
				emit("unary", n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				del(s, emit)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				del(s, emit)
			}
		case *ast.SliceExpr:
			if n.Low != nil {
				emit("low", n.Low.Pos(), n.Low.End(), "")
			}
			if n.High != nil {
				emit("high", n.High.Pos(), n.High.End(), "")
			}
		}
		return true
	})
}

func del(s ast.Stmt, emit func(op string, from, to token.Pos, text string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
		emit("delete", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit("delete", s.Pos(), s.End(), "")
		}
	case *ast.BranchStmt:
		emit("delete", s.Pos(), s.End(), "")
		if s.Tok == token.CONTINUE && s.Label == nil {
			emit("branch", s.Pos(), s.End(), "break")
		} else if s.Tok == token.BREAK && s.Label == nil {
			emit("branch", s.Pos(), s.End(), "continue")
		}
	case *ast.ReturnStmt:
		emit("delete", s.Pos(), s.End(), "")
	}
}
