// Command mutate lists small syntactic changes of Go files (development aid;
// no check uses it). Output: one JSON object per change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.AND}, token.AND_NOT: {token.AND},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(s, e token.Pos, n, op string) {
			enc.Encode(mutant{file, off(s), off(e), n, op, fset.Position(s).Line, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), "op "+x.Op.String()+"->"+t.String())
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "true || "+paren(text(x.Cond)), "if true")
					emit(x.Cond.Pos(), x.Cond.End(), "false && "+paren(text(x.Cond)), "if false")
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && "+paren(text(x.Cond)), "for false")
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
					emit(n.Pos(), n.End(), "", "delete stmt")
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "delete defer")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "delete assign")
						blank := ""
						for i, r := range x.Rhs {
							if i > 0 {
								blank += ", "
							}
							blank += text(r)
						}
						if len(x.Lhs) == len(x.Rhs) && x.Tok == token.ASSIGN {
							l := ""
							for i := range x.Lhs {
								if i > 0 {
									l += ", "
								}
								l += "_"
							}
							emit(x.Pos(), x.End(), l+" = "+blank, "blank assign")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						emit(x.Pos(), x.End(), "", "delete "+x.Tok.String())
						if x.Tok == token.CONTINUE {
							emit(x.Pos(), x.End(), "break", "continue->break")
						} else if x.Tok == token.BREAK {
							emit(x.Pos(), x.End(), "continue", "break->continue")
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "", "delete return")
					}
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "go->call")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true->false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false->true")
					} else if x.Name == "left" {
						emit(x.Pos(), x.End(), "right", "left->right")
					} else if x.Name == "right" {
						emit(x.Pos(), x.End(), "left", "right->left")
					} else if x.Name == "next" {
						emit(x.Pos(), x.End(), "prev", "next->prev")
					} else if x.Name == "prev" {
						emit(x.Pos(), x.End(), "next", "prev->next")
					} else if x.Name == "red" {
						emit(x.Pos(), x.End(), "black", "red->black")
					} else if x.Name == "black" {
						emit(x.Pos(), x.End(), "red", "black->red")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.X.Pos(), "", "drop !")
					}
				case *ast.CaseClause, *ast.CommClause:
				}
				return true
			})
		}
	}
}

func paren(s string) string { return "(" + s + ")" }
