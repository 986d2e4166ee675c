// Command mutate lists single-edit mutants of Go files as JSON lines
// {"id","file","line","what","from","to","text"} (byte range from..to is replaced by text).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

type mut struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	Func string `json:"func"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		n := 0
		fname := ""
		emit := func(p, e token.Pos, repl, what string) {
			n++
			enc.Encode(mut{fmt.Sprintf("%s:%d", filepath.Base(fn), n), fn, fs.Position(p).Line, what, fname, off(p), off(e), repl})
		}
		whole := func(x ast.Node, repl, what string) { emit(x.Pos(), x.End(), repl, what+": "+short(text(x))+" => "+short(repl)) }
		swaps := map[token.Token][]token.Token{
			token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
			token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
			token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
		}
		var visit func(x ast.Node) bool
		visit = func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.FuncDecl:
				fname = s.Name.Name
			case *ast.BinaryExpr:
				for _, o := range swaps[s.Op] {
					emit(s.OpPos, s.OpPos+token.Pos(len(s.Op.String())), o.String(), fmt.Sprintf("op: %s [%s]", short(text(s)), o))
				}
				if s.Op == token.LAND || s.Op == token.LOR {
					whole(s, text(s.X), "left-only")
					whole(s, text(s.Y), "right-only")
				}
			case *ast.IfStmt:
				whole(s.Cond, "!("+text(s.Cond)+")", "negate")
				whole(s.Cond, "(("+text(s.Cond)+") && false)", "never")
				whole(s.Cond, "(("+text(s.Cond)+") || true)", "always")
				if s.Else != nil {
					if b, ok := s.Else.(*ast.BlockStmt); ok {
						whole(b, "{}", "drop-else")
					}
				}
			case *ast.ForStmt:
				if s.Cond != nil {
					whole(s.Cond, "(("+text(s.Cond)+") && false)", "no-loop")
				}
				emit(s.Body.Rbrace, s.Body.Rbrace, ";break;", "loop-once")
			case *ast.RangeStmt:
				emit(s.Body.Rbrace, s.Body.Rbrace, ";break;", "range-once: "+short(text(s.X)))
				emit(s.Body.Lbrace+1, s.Body.Lbrace+1, "break;", "range-never: "+short(text(s.X)))
			case *ast.BlockStmt:
				delStmts(s.List, emitDel(emit, text))
			case *ast.CaseClause:
				delStmts(s.Body, emitDel(emit, text))
			case *ast.ReturnStmt:
				for _, r := range s.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							whole(r, "false", "ret")
						case "false":
							whole(r, "true", "ret")
						case "err":
							whole(r, "nil", "ret")
						}
					}
				}
			case *ast.BasicLit:
				if s.Kind == token.INT {
					switch s.Value {
					case "0":
						whole(s, "1", "int")
					case "1":
						whole(s, "0", "int")
						whole(s, "2", "int")
					default:
						whole(s, "("+s.Value+"+1)", "int")
					}
				}
			case *ast.Ident:
				_ = s
			case *ast.CallExpr:
				if len(s.Args) >= 2 {
					for i := 0; i+1 < len(s.Args); i++ {
						emit(s.Args[i].Pos(), s.Args[i+1].End(), text(s.Args[i+1])+", "+text(s.Args[i]), "swap-args: "+short(text(s)))
					}
				}
			case *ast.SelectorExpr:
				alt := map[string][]string{"from": {"to"}, "to": {"from"}, "GetFrom": {"GetTo"}, "GetTo": {"GetFrom"}, "incoming": {"outgoing"}, "outgoing": {"incoming"}, "next": {"prev"}, "prev": {"next"}, "head": {"tail"}, "tail": {"head"}, "Min": {"Max"}, "Max": {"Min"}, "nodesByLabel": {"edgesByLabel"}, "nodeProperties": {"edgeProperties"}}
				for _, a := range alt[s.Sel.Name] {
					whole(s.Sel, a, "sel "+short(text(s)))
				}
			case *ast.UnaryExpr:
				if s.Op == token.NOT {
					whole(s, text(s.X), "unnot")
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}

func emitDel(emit func(p, e token.Pos, repl, what string), text func(n ast.Node) string) func(s ast.Stmt) {
	return func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
			emit(s.Pos(), s.End(), "", "del: "+short(text(s)))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				repl := ""
				for _, r := range x.Rhs {
					_ = r
				}
				emit(s.Pos(), s.End(), repl, "del: "+short(text(s)))
			}
		case *ast.BranchStmt:
			emit(s.Pos(), s.End(), "", "del: "+short(text(s)))
			if x.Tok == token.CONTINUE && x.Label == nil {
				emit(s.Pos(), s.End(), "break", "continue=>break")
			}
			if x.Tok == token.BREAK && x.Label == nil {
				emit(s.Pos(), s.End(), "continue", "break=>continue")
			}
		case *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt:
			emit(s.Pos(), s.End(), "", "del-block: "+short(text(s)))
		case *ast.ReturnStmt:
			emit(s.Pos(), s.End(), "", "del: "+short(text(s)))
		}
	}
}

func delStmts(l []ast.Stmt, f func(s ast.Stmt)) {
	for _, s := range l {
		f(s)
	}
}

func short(s string) string {
	out := []rune{}
	for _, r := range s {
		if r == '\n' || r == '\t' {
			r = ' '
		}
		out = append(out, r)
	}
	if len(out) > 90 {
		out = append(out[:90], '~')
	}
	return string(out)
}
