// mutate lists small changes to Go files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File      string
	From, To  int
	New, Desc string
	Line      int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		out := func(from, to token.Pos, n, desc string) {
			enc.Encode(mut{f, off(from), off(to), n, desc, fs.Position(from).Line})
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				sw := map[token.Token][]token.Token{
					token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
					token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
					token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
				}
				for _, t := range sw[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), fmt.Sprintf("%s -> %s in %s", x.Op, t, text(x)))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						out(x.Pos(), x.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
						if v > 0 {
							out(x.Pos(), x.End(), strconv.Itoa(v-1), fmt.Sprintf("%d -> %d", v, v-1))
						}
					}
				case token.FLOAT:
					out(x.Pos(), x.End(), "("+x.Value+"+0.5)", x.Value+" + 0.5")
				}
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never: if "+text(x.Cond))
				out(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always: if "+text(x.Cond))
			case *ast.IncDecStmt:
				out(x.Pos(), x.End(), "", "delete "+text(x))
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN || x.Tok == token.MUL_ASSIGN || x.Tok == token.QUO_ASSIGN {
					out(x.Pos(), x.End(), "{}", "delete "+text(x))
				}
				if x.Tok == token.ADD_ASSIGN {
					out(x.TokPos, x.TokPos+2, "-=", "+= -> -= in "+text(x))
				}
			case *ast.ExprStmt:
				out(x.Pos(), x.End(), "{}", "delete "+text(x))
			case *ast.DeferStmt:
				out(x.Pos(), x.End(), "{}", "delete "+text(x))
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					out(x.Pos(), x.End(), "{}", "delete "+x.Tok.String())
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"Max": "Min", "Min": "Max", "Ema": "Sma", "Sma": "Ema", "Add": "Subtract", "Subtract": "Add", "Multiply": "Divide", "Highest": "Lowest", "After": "Before"}[id.Sel.Name]
					if alt != "" {
						out(id.Sel.Pos(), id.Sel.End(), alt, id.Sel.Name+" -> "+alt)
					}
				}
			case *ast.SelectorExpr:
				alt := map[string]string{"High": "Low", "Low": "High", "Close": "Open", "Open": "Close", "Volume": "Close", "K": "D", "Buy": "Sell", "Hold": "Buy"}[x.Sel.Name]
				if alt != "" {
					out(x.Sel.Pos(), x.Sel.End(), alt, text(x)+" -> "+alt)
				}
			}
			return true
		})
	}
}
