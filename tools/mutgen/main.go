// Command mutgen lists small changes ("mutants") of the Go files given as arguments, one JSON object per line:
// file, byte range and replacement. tools/mutants.py applies them to a scratch copy and runs the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(from, to token.Pos, repl, op string) {
			_ = enc.Encode(mutant{file, fset.Position(from).Line, off(from), off(to), repl, op, fn})
		}
		for _, d := range f.Decls {
			fn = ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
				if fd.Recv != nil {
					fn = text(fd.Recv.List[0].Type) + "." + fn
				}
			}
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					ops := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
						token.SHL: {">>"}, token.SHR: {"<<"}, token.OR: {"&"}, token.AND: {"|"},
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n.Pos(), n.End(), text(n.X), "drop right")
						emit(n.Pos(), n.End(), text(n.Y), "drop left")
					}
					for _, o := range ops[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" to "+o)
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						emit(n.Pos(), n.End(), text(n.X), "drop "+n.Op.String())
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never")
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always")
				case *ast.ExprStmt:
					emit(n.Pos(), n.End(), "", "drop call")
				case *ast.DeferStmt:
					emit(n.Pos(), n.End(), "", "drop defer")
				case *ast.IncDecStmt:
					emit(n.Pos(), n.End(), "", "drop incdec")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						repl := ""
						for _, l := range n.Lhs {
							if text(l) != "_" {
								repl += "_ = " + text(l) + "; "
							}
						}
						for _, l := range n.Rhs {
							repl += "_ = " + text(l) + "; "
						}
						emit(n.Pos(), n.End(), repl, "drop assign")
					}
				case *ast.BranchStmt:
					if n.Label == nil {
						switch n.Tok {
						case token.BREAK:
							emit(n.Pos(), n.End(), "", "drop break")
							emit(n.Pos(), n.End(), "continue", "break to continue")
						case token.CONTINUE:
							emit(n.Pos(), n.End(), "", "drop continue")
							emit(n.Pos(), n.End(), "break", "continue to break")
						}
					}
				case *ast.CaseClause:
					if len(n.List) > 1 {
						for i, e := range n.List {
							if i+1 < len(n.List) {
								emit(e.Pos(), n.List[i+1].Pos(), "", "drop case value")
							} else {
								emit(n.List[i-1].End(), e.End(), "", "drop case value")
							}
						}
					}
					if len(n.Body) > 0 && n.List != nil {
						emit(n.Body[0].Pos(), n.Body[0].Pos(), "if true { break }; ", "empty case")
					}
				case *ast.ReturnStmt:
					if len(n.Results) > 0 {
						last := n.Results[len(n.Results)-1]
						if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
							emit(last.Pos(), last.End(), "nil", "return nil error")
						}
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							emit(n.Pos(), n.End(), fmt.Sprint(v+1), "int +1")
							if v > 0 {
								emit(n.Pos(), n.End(), fmt.Sprint(v-1), "int -1")
							}
						}
					case token.STRING:
						if s, err := strconv.Unquote(n.Value); err == nil && len(s) > 0 && len(s) < 12 {
							emit(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), "string cut")
						}
					case token.CHAR:
						if s, err := strconv.Unquote(n.Value); err == nil {
							r := []rune(s)[0]
							emit(n.Pos(), n.End(), strconv.QuoteRune(r^1), "char changed")
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						emit(n.Low.Pos(), n.Low.End(), "", "drop low")
					}
					if n.High != nil {
						emit(n.High.Pos(), n.High.End(), "", "drop high")
					}
				case *ast.CallExpr:
					if len(n.Args) == 1 {
						name := text(n.Fun)
						switch name {
						case "slices.Clone", "maps.Clone", "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "math.Abs", "math.Floor", "math.Round", "math.Trunc", "strings.Clone":
							emit(n.Pos(), n.End(), text(n.Args[0]), "drop "+name)
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						emit(n.Pos(), n.End(), "false", "true to false")
					} else if n.Name == "false" {
						emit(n.Pos(), n.End(), "true", "false to true")
					}
				}
				return true
			})
		}
	}
}
