//go:build ignore

// mutgen lists small changes to Go files: one JSON object a line with the
// file, the bytes to replace and what to put there.
//
//	go build mutgen.go; ./mutgen FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	Was  string `json:"was"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		add := func(op string, from, to token.Pos, text string) {
			enc.Encode(mut{name, fs.Position(from).Line, op, off(from), off(to), text, string(src[off(from):off(to)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var results []*ast.FieldList
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				results = append(results, x.Type.Results)
			case *ast.IfStmt:
				add("if-false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				add("if-true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
			case *ast.ExprStmt:
				add("drop-call", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add("drop-assign", x.Pos(), x.End(), "")
				}
			case *ast.IncDecStmt:
				add("drop-inc", x.Pos(), x.End(), "")
			case *ast.DeferStmt:
				add("drop-defer", x.Pos(), x.End(), "")
			case *ast.BranchStmt:
				if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
					add("drop-branch", x.Pos(), x.End(), "")
				}
			case *ast.BinaryExpr:
				op := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&"}[x.Op]
				if op != "" {
					add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op)
				}
			case *ast.ReturnStmt:
				if l := len(x.Results); l > 0 {
					if id, ok := x.Results[l-1].(*ast.Ident); ok && id.Name == "err" {
						add("no-error", id.Pos(), id.End(), "nil")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil && v < 1000 {
						add("int", x.Pos(), x.End(), strconv.Itoa(v+1))
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add("bool", x.Pos(), x.End(), "true")
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					add("drop-case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
				}
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.CONST {
					return false
				}
			}
			return true
		})
	}
}
