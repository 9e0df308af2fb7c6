// Command instrument makes a copy of the packages of a module with
// preemption points and with controlled locks (see package vs), as an
// overlay for the go command.
//
//	instrument <module dir> <out dir>
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const vs = "github.com/hedzr/store/verifharness/vs"

type ins struct {
	at   int
	del  int
	text string
}

func main() {
	root, out := os.Args[1], os.Args[2]
	check(os.MkdirAll(out, 0o755))
	repl := map[string]string{}
	globals = packageVars(root)
	n, points := 0, 0
	check(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			name := d.Name()
			if p != root {
				if strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" || name == "examples" || name == "tests" {
					return filepath.SkipDir
				}
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		text, k := rewrite(p, src)
		points += k
		to := filepath.Join(out, fmt.Sprintf("%03d_%s", n, filepath.Base(p)))
		n++
		repl[p] = to
		return os.WriteFile(to, []byte(text), 0o644)
	}))
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Printf("%d files, %d preemption points\n", n, points)
}

// globals are the names of package level variables; a local of the same
// name only costs a superfluous point.
var globals map[string]bool

func packageVars(root string) map[string]bool {
	ret := map[string]bool{}
	check(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							ret[n.Name] = true
						}
					}
				}
			}
		}
		return nil
	}))
	return ret
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(name string, src []byte) (string, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	check(err)
	if f.Name.Name == "main" {
		return string(src), 0
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []ins
	points := 0
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			if wants(s) {
				points++
				edits = append(edits, ins{at: off(s.Pos()), text: "verifvs__.P(); "})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// the block of these holds clauses only, wants() refuses them
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && (im.Name == nil || (im.Name.Name != "_" && im.Name.Name != ".")) {
			text := `"` + vs + `"`
			if im.Name == nil {
				text = "sync " + text
			}
			edits = append(edits, ins{at: off(im.Path.Pos()), del: len(im.Path.Value), text: text})
		}
	}
	if points > 0 {
		edits = append(edits, ins{at: off(f.Name.End()), text: "; import verifvs__ \"" + vs + "\""})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var sb strings.Builder
	last := 0
	for _, e := range edits {
		sb.Write(src[last:e.at])
		sb.WriteString(e.text)
		last = e.at + e.del
	}
	sb.Write(src[last:])
	return sb.String(), points
}

// wants tells if a statement may touch memory which is shared.
func wants(s ast.Stmt) (yes bool) {
	switch x := s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt:
		return false
	case *ast.LabeledStmt:
		return wants(x.Stmt)
	case *ast.IfStmt:
		return touches(x.Init) || touches(x.Cond)
	case *ast.ForStmt:
		return touches(x.Init) || touches(x.Cond)
	case *ast.RangeStmt:
		return touches(x.X)
	case *ast.SwitchStmt:
		return touches(x.Init) || touches(x.Tag)
	case *ast.TypeSwitchStmt:
		return touches(x.Init) || touches(x.Assign)
	case *ast.SelectStmt:
		return true
	}
	return touches(s)
}

func touches(n ast.Node) (yes bool) {
	if n == nil {
		return false
	}
	switch v := n.(type) { // typed nils
	case ast.Stmt:
		if v == nil {
			return false
		}
	case ast.Expr:
		if v == nil {
			return false
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			yes = yes || globals[x.Name]
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.CallExpr, *ast.UnaryExpr:
			yes = true
		case *ast.FuncLit:
			return false
		}
		return !yes
	})
	return
}
