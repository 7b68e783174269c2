// mutate FILE... lists small changes to Go files as JSON lines: file, offset, end, text, what.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			n := fd.Name.Name
			l := strings.ToLower(n)
			if strings.Contains(l, "print") || strings.HasPrefix(l, "help") || l == "layout" || strings.HasPrefix(l, "cursor") {
				continue
			}
			off := func(p token.Pos) int { return fs.Position(p).Offset }
			emit := func(a, b token.Pos, new string) {
				old := string(src[off(a):off(b)])
				if old == new {
					return
				}
				enc.Encode(mut{file, n, fs.Position(a).Line, off(a), off(b), new, old})
			}
			isPrint := func(c *ast.CallExpr) bool {
				s := string(src[off(c.Fun.Pos()):off(c.Fun.End())])
				return strings.Contains(s, "rint") || strings.Contains(s, "errors.New")
			}
			var walk func(n ast.Node) bool
			walk = func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.CallExpr:
					if isPrint(t) {
						return false
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.REM: {"*"}}[t.Op]
					if t.Op == token.ADD {
						if bl, ok := t.X.(*ast.BasicLit); ok && bl.Kind == token.STRING {
							alt = nil
						}
						if bl, ok := t.Y.(*ast.BasicLit); ok && bl.Kind == token.STRING {
							alt = nil
						}
					}
					for _, a := range alt {
						emit(t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), a)
					}
				case *ast.BasicLit:
					if t.Kind == token.INT {
						if v, err := strconv.ParseInt(t.Value, 0, 64); err == nil {
							emit(t.Pos(), t.End(), strconv.FormatInt(v+1, 10))
							if v > 0 {
								emit(t.Pos(), t.End(), strconv.FormatInt(v-1, 10))
							}
						}
					}
					if t.Kind == token.STRING {
						sw := map[string]string{`"yes"`: `"no"`, `"no"`: `"yes"`, `"d16"`: `"d32"`, `"d32"`: `"d64"`, `"d64"`: `"d32"`, `"success"`: `"badrequest"`}
						if x := sw[t.Value]; x != "" {
							emit(t.Pos(), t.End(), x)
						} else if !strings.Contains(t.Value, " ") && len(t.Value) > 2 {
							emit(t.Pos(), t.End(), t.Value[:len(t.Value)-1]+"x"+t.Value[len(t.Value)-1:])
						}
					}
				case *ast.IfStmt:
					emit(t.Cond.Pos(), t.Cond.End(), "!("+string(src[off(t.Cond.Pos()):off(t.Cond.End())])+")")
					emit(t.Cond.Pos(), t.Cond.End(), "("+string(src[off(t.Cond.Pos()):off(t.Cond.End())])+") && false")
					emit(t.Cond.Pos(), t.Cond.End(), "("+string(src[off(t.Cond.Pos()):off(t.Cond.End())])+") || true")
				case *ast.ExprStmt:
					if c, ok := t.X.(*ast.CallExpr); ok && !isPrint(c) {
						emit(t.Pos(), t.End(), "{}")
					}
				case *ast.AssignStmt:
					if t.Tok != token.DEFINE {
						var b []string
						for _, r := range t.Rhs {
							b = append(b, "_ = "+string(src[off(r.Pos()):off(r.End())]))
						}
						if len(t.Lhs) == len(t.Rhs) {
							emit(t.Pos(), t.End(), strings.Join(b, "; "))
						}
					}
				case *ast.IncDecStmt:
					emit(t.Pos(), t.End(), "{}")
				case *ast.DeferStmt:
					emit(t.Pos(), t.End(), "{}")
				case *ast.BranchStmt:
					if t.Tok == token.CONTINUE || t.Tok == token.BREAK {
						emit(t.Pos(), t.End(), "{}")
					}
				case *ast.ReturnStmt:
					for _, r := range t.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "err":
								emit(r.Pos(), r.End(), "nil")
							case "true":
								emit(r.Pos(), r.End(), "false")
							case "false":
								emit(r.Pos(), r.End(), "true")
							}
						}
					}
				case *ast.SliceExpr:
				}
				return true
			}
			ast.Inspect(fd.Body, walk)
		}
	}
}
