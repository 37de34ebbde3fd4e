// mutate lists small changes of the non-test Go files below -repo, one JSON
// object per line: a development aid (see tools/mutate.py) that no check uses.
package main

import (
	"encoding/json"
	"flag"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Repl string `json:"repl"`
	What string `json:"what"`
	Func string `json:"func"`
	At   int    `json:"at"`
}

var swap = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	repo := flag.String("repo", "/repo", "")
	flag.Parse()
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != *repo && strings.HasPrefix(fi.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		src, _ := os.ReadFile(p)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fn, name := d, ""
			fd, ok := fn.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name = fd.Name.Name
			put := func(a, b token.Pos, repl, what string) {
				pa, pb := fset.Position(a), fset.Position(b)
				enc.Encode(mut{rel, pa.Line, pa.Offset, pb.Offset, repl, what, name, fset.Position(fd.Pos()).Line})
			}
			text := func(n ast.Node) string {
				return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			var list func(l []ast.Stmt)
			list = func(l []ast.Stmt) {
				for _, s := range l {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.SendStmt, *ast.DeferStmt:
						put(s.Pos(), s.End(), "", "delete: "+text(s))
					case *ast.AssignStmt:
						if x.Tok != token.DEFINE {
							put(s.Pos(), s.End(), "", "delete: "+text(s))
						}
					case *ast.ReturnStmt:
						for _, r := range x.Results {
							switch t := text(r); t {
							case "err":
								put(r.Pos(), r.End(), "nil", "return err -> nil")
							}
						}
					case *ast.IfStmt:
						if x.Else == nil {
							put(s.Pos(), s.End(), "", "delete if: "+text(x.Cond))
						}
					case *ast.ForStmt, *ast.RangeStmt:
						put(s.Pos(), s.End(), "", "delete loop")
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.IfStmt:
					put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
				case *ast.BinaryExpr:
					for _, r := range swap[x.Op] {
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, text(x)+" : "+x.Op.String()+" -> "+r)
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, e := strconv.ParseInt(x.Value, 0, 64)
						if e == nil {
							put(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "int +1")
							if v > 0 {
								put(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "int -1")
							}
						}
					case token.STRING:
						if x.Value == `""` {
							put(x.Pos(), x.End(), `"x"`, "string")
						} else {
							put(x.Pos(), x.End(), `""`, "string empty "+x.Value)
						}
					case token.CHAR:
						put(x.Pos(), x.End(), "'~'", "char "+x.Value)
					}
				case *ast.Ident:
					if x.Name == "true" {
						put(x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						put(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						put(x.OpPos, x.OpPos+1, "", "drop !")
					}
				}
				return true
			})
		}
		return nil
	})
}
