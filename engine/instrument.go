package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes copies of the sources below the directories in which every
// statement is preceded and followed by a call that can delay it, for replays
// of schedules, and an overlay for the go command that puts them in place.
// Nothing else about the code changes.
func instrument(out string, dirs []string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	type point struct {
		File string `json:"file"`
		Exit bool   `json:"exit"`
		From [2]int `json:"from"`
		To   [2]int `json:"to"`
	}
	var points []point
	repl := map[string]string{}
	for _, d := range dirs {
		err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() {
				n := fi.Name()
				if p != d && (strings.HasPrefix(n, ".") || n == "vendor" || n == "testdata" || n == "pb" || n == "symrt" || n == "models" || n == "ref") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, 0)
			if err != nil {
				return nil // the build tells
			}
			if f.Name.Name == "main" {
				return nil
			}
			type ins struct {
				off, ord int
				s        string
			}
			var edits []ins
			add := func(at token.Pos, s string) {
				edits = append(edits, ins{fset.Position(at).Offset, len(edits), s})
			}
			id := func(n ast.Node, exit bool) int {
				a, b := fset.Position(n.Pos()), fset.Position(n.End())
				points = append(points, point{p, exit, [2]int{a.Line, a.Column}, [2]int{b.Line, b.Column}})
				return len(points) - 1
			}
			list := func(ss []ast.Stmt) {
				for _, s := range ss {
					k := id(s, false)
					switch s := s.(type) {
					case *ast.EmptyStmt, *ast.BranchStmt:
						continue
					case *ast.DeferStmt:
						add(s.Pos(), fmt.Sprintf("defer vsymrt.Point(%d, true); ", k))
						add(s.End(), fmt.Sprintf("; defer vsymrt.Point(%d, false)", k))
						continue
					case *ast.ExprStmt:
						add(s.Pos(), fmt.Sprintf("vsymrt.Point(%d, false); ", k))
						if c, ok := s.X.(*ast.CallExpr); ok {
							if n, ok := c.Fun.(*ast.Ident); ok && n.Name == "panic" {
								continue
							}
						}
					case *ast.AssignStmt, *ast.SendStmt, *ast.GoStmt, *ast.IncDecStmt:
						add(s.Pos(), fmt.Sprintf("vsymrt.Point(%d, false); ", k))
					default:
						add(s.Pos(), fmt.Sprintf("vsymrt.Point(%d, false); ", k))
						continue
					}
					add(s.End(), fmt.Sprintf("; vsymrt.Point(%d, true)", k))
				}
			}
			body := func(n ast.Node, b *ast.BlockStmt) {
				if b != nil {
					add(b.Lbrace+1, fmt.Sprintf(" defer vsymrt.Point(%d, true); ", id(n, true)))
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					body(n, n.Body)
				case *ast.FuncLit:
					body(n, n.Body)
				case *ast.BlockStmt:
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
			if len(edits) == 0 {
				return nil
			}
			add(f.Name.End(), "; import vsymrt \""+harnessMod+"/symrt\"")
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b bytes.Buffer
			last := 0
			for _, e := range edits {
				b.Write(src[last:e.off])
				b.WriteString(e.s)
				last = e.off
			}
			b.Write(src[last:])
			q := filepath.Join(out, fmt.Sprintf("f%d.go", len(repl)))
			repl[p] = q
			return os.WriteFile(q, b.Bytes(), 0o644)
		})
		if err != nil {
			return err
		}
	}
	for n, v := range map[string]any{"overlay.json": map[string]any{"Replace": repl}, "points.json": points} {
		b, err := json.Marshal(v)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(out, n), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}
