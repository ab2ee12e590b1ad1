// mutate lists small changes of Go files: one JSON object per line
// {"file","off","end","new","kind","line"}. Development only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(from, to token.Pos, s, kind string) {
			enc.Encode(mut{file, at(from), at(to), s, kind, fs.Position(from).Line})
		}
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec, *ast.Field:
				return false
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), text(x.X), "left")
					put(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.IfStmt:
				put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "not")
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				put(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				put(n.Pos(), n.End(), "", "drop")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put(n.Pos(), n.End(), "", "drop")
				}
				if x.Tok == token.ADD_ASSIGN {
					put(x.TokPos, x.TokPos+2, "=", "op")
				}
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok && x.Tok == token.ASSIGN && len(x.Rhs) == 1 {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) == 2 && c.Ellipsis == 0 {
						// prepend
						put(c.Pos(), c.End(), "append(append("+text(c.Args[0])+"[:0:0], "+text(c.Args[1])+"), "+text(c.Args[0])+"...)", "prepend")
					}
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					put(n.Pos(), n.Pos()+5, "continue", "branch")
				case token.CONTINUE:
					put(n.Pos(), n.Pos()+8, "break", "branch")
					put(n.Pos(), n.Pos()+8, "", "drop")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							put(r.Pos(), r.End(), "false", "bool")
						case "false":
							put(r.Pos(), r.End(), "true", "bool")
						case "err":
							put(r.Pos(), r.End(), "nil", "noerr")
						}
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
						}
					}
				}
				if x.Kind == token.STRING && x.Value[0] == '"' {
					if v, err := strconv.Unquote(x.Value); err == nil {
						if v != "" {
							put(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "str")
						} else {
							put(x.Pos(), x.End(), `"x"`, "str")
						}
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, ok := kv.Key.(*ast.Ident); ok {
							end := kv.End()
							// and the comma
							for i := at(end); i < len(src) && i < at(end)+1; i++ {
								if src[i] == ',' {
									end++
								}
							}
							put(kv.Pos(), end, "", "field")
						}
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					put(x.List[0].Pos(), x.List[len(x.List)-1].End(), text(x.List[0]), "case")
					put(x.List[0].Pos(), x.List[len(x.List)-1].End(), text(x.List[len(x.List)-1]), "case")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x.Pos(), x.Pos()+1, "", "unnot")
				}
			case *ast.CallExpr:
				// a call that returns what it is given: f(x) -> x for one-argument string functions
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) >= 1 {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == "strings" {
						switch s.Sel.Name {
						case "ToLower", "ToUpper", "TrimSpace", "TrimPrefix", "TrimSuffix", "Replace":
							put(x.Pos(), x.End(), text(x.Args[0]), "identity")
						case "HasPrefix":
							put(s.Sel.Pos(), s.Sel.End(), "Contains", "call")
						case "HasSuffix":
							put(s.Sel.Pos(), s.Sel.End(), "Contains", "call")
						case "EqualFold":
							put(x.Pos(), x.End(), "("+text(x.Args[0])+" == "+text(x.Args[1])+")", "call")
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put(x.Low.Pos(), x.Low.End(), "0", "slice")
				}
			}
			return true
		})
	}
}
