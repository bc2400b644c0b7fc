// mutate FILE.go...: prints the mutations of the files as JSON lines {file, line, kind, begin, end, new}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Begin int    `json:"begin"`
	End   int    `json:"end"`
	Old   string `json:"old"`
	New   string `json:"new"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		out := func(kind string, from token.Pos, to token.Pos, text string) {
			b, e := off(from), off(to)
			enc.Encode(edit{name, fset.Position(from).Line, kind, b, e, string(src[b:e]), text})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
					if l, ok := x.X.(*ast.Ident); ok && l.Name == "err" {
						return true
					}
				}
				for _, op := range swaps[x.Op] {
					out("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op)
				}
			case *ast.IfStmt:
				if b, ok := x.Cond.(*ast.BinaryExpr); ok {
					if l, ok := b.X.(*ast.Ident); ok && l.Name == "err" {
						return true
					}
				}
				out("if-false", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				out("if-true", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						out("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							out("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" && x.Obj == nil {
					out("bool", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" && x.Obj == nil {
					out("bool", x.Pos(), x.End(), "true")
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					out("drop-append", x.Pos(), x.End(), text(x.Args[0]))
				}
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b {
						out("swap-args", x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a)
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
						out("drop", s.Pos(), s.End(), "")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							out("drop", s.Pos(), s.End(), "")
						}
					case *ast.RangeStmt:
						out("range-once", y.Body.Rbrace, y.Body.Rbrace, "break\n")
					}
				}
			}
			return true
		})
	}
}
