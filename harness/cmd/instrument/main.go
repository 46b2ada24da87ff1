// instrument <repo> <overlay sources> <output>: writes copies of the library's sources with a call of the scheduler
// before every statement and with package sync replaced, and an overlay file for the go command.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/kklash/mnemonikey"

func main() {
	repo, src, out := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	site, hasGo := 0, false
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && rel != "." || rel == "cmd" || d.Name() == "testdata" || d.Name() == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		text, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, text, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		type edit struct {
			at, to int
			s      string
		}
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				site++
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("zvsched.Yield(%d);", site)})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GoStmt:
				hasGo = true
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		// The clauses of a switch or select are statements of its block, but nothing can stand before them.
		drop := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				drop[off(n.Pos())] = true
			}
			return true
		})
		kept := edits[:0]
		for _, e := range edits {
			if !drop[e.at] {
				kept = append(kept, e)
			}
		}
		edits = kept
		used := len(edits) > 0
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				s := `"` + module + `/zvsync"`
				if im.Name == nil {
					s = "sync " + s
				}
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), s})
			}
		}
		if used {
			edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), `; import "` + module + `/zvsched"`})
		}
		if len(edits) == 0 {
			return nil
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(text[last:e.at])
			b.WriteString(e.s)
			last = e.to
		}
		b.Write(text[last:])
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		overlay[p] = dst
		return os.WriteFile(dst, []byte(b.String()), 0o644)
	})
	if err == nil {
		cfg := filepath.Join(out, "config.go")
		overlay[filepath.Join(repo, "zvsched", "config.go")] = cfg
		overlay[filepath.Join(repo, "zvsched", "sched.go")] = filepath.Join(src, "zvsched", "sched.go")
		overlay[filepath.Join(repo, "zvsync", "sync.go")] = filepath.Join(src, "zvsync", "sync.go")
		err = os.WriteFile(cfg, []byte(fmt.Sprintf("package zvsched\n\nconst (\n\tSites = %d\n\tHasGo = %v\n)\n", site, hasGo)), 0o644)
	}
	if err == nil {
		var b []byte
		b, err = json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
	fmt.Println(site, "points, own goroutines:", hasGo)
}
