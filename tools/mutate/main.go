// Command mutate lists small source changes of the non-test files of a directory, one JSON object per line.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File      string
	From, To  int
	Repl      string
	Desc      string
	Line      int
	Func      string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.REM: {"/"}, token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	root := os.Args[1]
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		fn := ""
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		emit := func(from, to int, repl, desc string) {
			enc.Encode(mut{rel, from, to, repl, desc, 1 + bytes.Count(src[:from], []byte("\n")), fn})
		}
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		block := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					emit(off(s.Pos()), off(s.End()), "", "delete "+text(s.Pos(), s.End()))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(off(s.Pos()), off(s.End()), "", "delete "+text(s.Pos(), s.End()))
					}
				case *ast.IfStmt:
					if s.Init == nil {
						emit(off(s.Pos()), off(s.End()), "", "delete if "+text(s.Cond.Pos(), s.Cond.End()))
					}
				case *ast.BranchStmt:
					emit(off(s.Pos()), off(s.End()), "", "delete "+s.Tok.String())
				}
				if i+1 < len(list) {
					n := list[i+1]
					a, b := text(s.Pos(), s.End()), text(n.Pos(), n.End())
					mid := string(src[off(s.End()):off(n.Pos())])
					emit(off(s.Pos()), off(n.End()), b+mid+a, "swap with next: "+strings.SplitN(a, "\n", 2)[0]+" / "+strings.SplitN(b, "\n", 2)[0])
				}
				// move two further down
				if i+2 < len(list) {
					n := list[i+2]
					a := text(s.Pos(), s.End())
					rest := string(src[off(list[i+1].Pos()):off(n.End())])
					emit(off(s.Pos()), off(n.End()), rest+"\n"+a, "move down two: "+strings.SplitN(a, "\n", 2)[0])
				}
			}
			// delete lock and unlock together
			for i, s := range list {
				e, ok := s.(*ast.ExprStmt)
				if !ok {
					continue
				}
				t := text(e.Pos(), e.End())
				if !strings.HasSuffix(t, ".Lock()") {
					continue
				}
				for k := i + 1; k < len(list); k++ {
					u := text(list[k].Pos(), list[k].End())
					if u == strings.TrimSuffix(t, "Lock()")+"Unlock()" {
						emit(off(s.Pos()), off(list[k].End()), string(src[off(s.End()):off(list[k].Pos())]), "delete the pair "+t)
						break
					}
				}
			}
		}
		for _, dcl := range f.Decls {
			fd, ok := dcl.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				if gd, ok := dcl.(*ast.GenDecl); ok && gd.Tok != token.IMPORT {
					fn = "decl"
					ast.Inspect(gd, func(n ast.Node) bool {
						if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
							if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
								emit(off(l.Pos()), off(l.End()), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
							}
						}
						return true
					})
				}
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					block(n.List)
				case *ast.CaseClause:
					block(n.Body)
				case *ast.BinaryExpr:
					for _, r := range swaps[n.Op] {
						emit(off(n.OpPos), off(n.OpPos)+len(n.Op.String()), r, text(n.Pos(), n.End())+": "+n.Op.String()+" -> "+r)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(off(n.Pos()), off(n.End()), text(n.X.Pos(), n.X.End()), text(n.Pos(), n.End())+": left only")
						emit(off(n.Pos()), off(n.End()), text(n.Y.Pos(), n.Y.End()), text(n.Pos(), n.End())+": right only")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(off(n.Pos()), off(n.End()), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
							if v > 0 {
								emit(off(n.Pos()), off(n.End()), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
							}
						}
					}
					if n.Kind == token.CHAR {
						emit(off(n.Pos()), off(n.End()), "'\\x01'", n.Value+" -> x01")
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(off(n.Pos()), off(n.End()), "false", "true -> false")
					}
					if n.Name == "false" {
						emit(off(n.Pos()), off(n.End()), "true", "false -> true")
					}
				case *ast.IfStmt:
					c := text(n.Cond.Pos(), n.Cond.End())
					emit(off(n.Cond.Pos()), off(n.Cond.End()), "!("+c+")", "negate "+c)
				case *ast.ForStmt:
					if n.Cond != nil {
						pos := off(n.Pos())
						if n.Init == nil && n.Post == nil {
							emit(pos, pos+3, "if", "for -> if "+text(n.Cond.Pos(), n.Cond.End()))
						}
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						t := text(r.Pos(), r.End())
						if t == "err" || strings.HasPrefix(t, "Err") {
							emit(off(r.Pos()), off(r.End()), "nil", "return nil instead of "+t)
						}
					}
				case *ast.AssignStmt:
					if n.Tok == token.ADD_ASSIGN {
						emit(off(n.TokPos), off(n.TokPos)+2, "=", "+= -> =")
						emit(off(n.TokPos), off(n.TokPos)+2, "-=", "+= -> -=")
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(off(n.Low.Pos()), off(n.Low.End()), text(n.Low.Pos(), n.Low.End())+"+1", "low+1 "+text(n.Pos(), n.End()))
					}
					if n.High != nil {
						emit(off(n.High.Pos()), off(n.High.End()), text(n.High.Pos(), n.High.End())+"-1", "high-1 "+text(n.Pos(), n.End()))
					}
				}
				return true
			})
		}
		return nil
	})
}
