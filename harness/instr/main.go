// instr writes instrumented copies of every non-test Go file below -repo into
// -out, and an overlay.json for "go build -overlay" that puts them in place of
// the originals.  The originals are never touched.
//
// mode fuel:  every function body and every loop body starts with
//
//	vhook.Tick(), so that an endless loop or recursion is detected
//	deterministically (a bound on executed steps, not on time).
//
// mode sched: in addition every statement is preceded by vhook.Yield(), a
//
//	scheduling point of the controlled scheduler, and "sync" is
//	replaced by a shim whose Lock/Unlock block inside the scheduler.
//
// mode cover: as fuel, and every block notes that it was entered, to find code
//
//	that no exploration reaches (see tools/cover.sh).
//
// All insertions stay on the line they are made in, so positions in panics
// still point into the original files.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var blocks []string // positions of the blocks, in mode cover

type ins struct {
	off  int
	text string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mode := flag.String("mode", "fuel", "")
	shim := flag.String("shim", "", "directory with vhook.go and vsync.go sources")
	flag.Parse()
	overlay := map[string]string{}
	must(os.MkdirAll(*out, 0o755))
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, e := os.Stat(filepath.Join(p, "go.mod")); e == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.HasPrefix(fi.Name(), "_") || strings.HasPrefix(fi.Name(), ".") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, err := instrument(p, src, *mode)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*repo, p)
		dst := filepath.Join(*out, "src", rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, res, 0o644))
		overlay[p] = dst
		return nil
	})
	must(err)
	must(writeWords(filepath.Join(*out, "words.json")))
	overlay[filepath.Join(*repo, "vhook", "vhook.go")] = filepath.Join(*shim, "vhook.go.txt")
	overlay[filepath.Join(*repo, "vhook", "vsync", "vsync.go")] = filepath.Join(*shim, "vsync.go.txt")
	if *mode == "cover" {
		must(os.WriteFile(filepath.Join(*out, "blocks"), []byte(strings.Join(blocks, "\n")+"\n"), 0o644))
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

// The words and numbers that the code names are inputs like any others, but
// worth a try: they are where it may do something else.
var (
	texts   = map[string]bool{}
	numbers = map[int64]bool{}
)

func literals(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if _, ok := n.(*ast.ImportSpec); ok {
			return false
		}
		l, ok := n.(*ast.BasicLit)
		if !ok {
			return true
		}
		switch l.Kind {
		case token.STRING:
			if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) <= 64 {
				texts[s] = true
			}
		case token.INT:
			if n, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
				numbers[n] = true
			}
		}
		return true
	})
}

func writeWords(name string) error {
	var w struct {
		Texts   []string
		Numbers []int64
	}
	for s := range texts {
		w.Texts = append(w.Texts, s)
	}
	for n := range numbers {
		w.Numbers = append(w.Numbers, n)
	}
	sort.Strings(w.Texts)
	sort.Slice(w.Numbers, func(i, j int) bool { return w.Numbers[i] < w.Numbers[j] })
	b, err := json.MarshalIndent(w, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(name, b, 0o644)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func instrument(name string, src []byte, mode string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	literals(f)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins
	used := false
	add := func(o int, t string) { list = append(list, ins{o, t}); used = true }
	yields := func(stmts []ast.Stmt) {
		if mode != "sched" {
			return
		}
		for _, s := range stmts {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.DeclStmt, *ast.CaseClause, *ast.CommClause:
				// a label must keep its loop; declarations need no point
				continue
			}
			add(off(s.Pos()), "vhook__.Yield();")
		}
	}
	hit := func(o int, at token.Pos) {
		if mode == "cover" {
			add(o, fmt.Sprintf("vhook__.Hit(%d);", len(blocks)))
			blocks = append(blocks, fset.Position(at).String())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			hit(off(x.Colon)+1, x.Pos())
		case *ast.IfStmt:
			hit(off(x.Body.Lbrace)+1, x.Pos())
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				hit(off(b.Lbrace)+1, b.Pos())
			}
		case *ast.FuncDecl:
			if x.Body != nil {
				hit(off(x.Body.Lbrace)+1, x.Pos())
			}
		}
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				add(off(x.Body.Lbrace)+1, "vhook__.Tick();")
			}
		case *ast.FuncLit:
			add(off(x.Body.Lbrace)+1, "vhook__.Tick();")
		case *ast.ForStmt:
			add(off(x.Body.Lbrace)+1, "vhook__.Tick();")
		case *ast.RangeStmt:
			add(off(x.Body.Lbrace)+1, "vhook__.Tick();")
		case *ast.BlockStmt:
			yields(x.List)
		case *ast.CaseClause:
			yields(x.Body)
		case *ast.CommClause:
			yields(x.Body)
		case *ast.BranchStmt:
			_ = x
		}
		return true
	})
	if used {
		add(off(f.Name.End()), "; import vhook__ \"github.com/use-go/gosips/vhook\"")
	}
	if mode == "sched" {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				o, e := off(im.Path.Pos()), off(im.Path.End())
				nm := "sync "
				if im.Name != nil {
					nm = ""
				}
				list = append(list, ins{o, nm + `"github.com/use-go/gosips/vhook/vsync" /*`}, ins{e, `*/`})
			}
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, i := range list {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.Write(src[last:])
	return []byte(b.String()), nil
}
