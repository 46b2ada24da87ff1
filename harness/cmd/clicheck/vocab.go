package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"verif/ref"
)

// declTexts gives the string declTexts of the program's sources, function by function.
var declTexts = sync.OnceValue(func() (out []funcText) {
	root := os.Getenv("VERIF_REPO")
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); p != root && (strings.HasPrefix(n, ".") || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if f == nil {
			return nil
		}
		for _, decl := range f.Decls {
			var t funcText
			ast.Inspect(decl, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BasicLit:
					if x.Kind == token.STRING || x.Kind == token.CHAR {
						if s, err := strconv.Unquote(x.Value); err == nil {
							t.lits = append(t.lits, s)
						}
					}
				case *ast.SelectorExpr:
					if pkg, ok := x.X.(*ast.Ident); ok && (pkg.Name == "os" || pkg.Name == "syscall") {
						switch x.Sel.Name {
						case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Expand":
							t.env = true
						}
					}
				}
				return true
			})
			out = append(out, t)
		}
		return nil
	})
	return
})

type funcText struct {
	lits []string
	env  bool // looks at environment variables
}

func tokensOf(s string) []string {
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !(r >= 'a' && r <= 'z') })
}

// vocabulary is every word of the program's own texts, and of the messages of the system.
var vocabulary = sync.OnceValue(func() map[string]bool {
	m := map[string]bool{}
	for _, f := range declTexts() {
		if len(f.lits) > 1000 {
			continue // a word list
		}
		for _, s := range f.lits {
			for _, t := range tokensOf(s) {
				m[t] = true
			}
		}
	}
	for _, t := range tokensOf("no such file or directory is a not permission denied operation permitted input output error broken pipe exists open read write close stat device space left on end of expected newline bad interrupted system call invalid argument too many files syntax parse value flag for help usage default true false signal killed words out in entropy enc") {
		m[t] = true
	}
	return m
})

var hexLike = regexp.MustCompile(`[0-9a-f]{8,}`)

// leaked gives a word of the phrase which the text shows and which belongs neither to the program's own texts nor to the
// texts it was given.
func leaked(text string, words []string, given ...string) string {
	low := strings.ToLower(text)
	low = hexLike.ReplaceAllStringFunc(low, func(s string) string {
		if strings.ContainsAny(s, "0123456789") {
			return " "
		}
		return s
	})
	known := map[string]bool{}
	for _, g := range given {
		for _, t := range tokensOf(g) {
			known[t] = true
		}
	}
	in := map[string]bool{}
	for _, w := range words {
		if _, ok := ref.WordIndex(w); ok {
			in[w] = true
		}
	}
	for _, t := range tokensOf(low) {
		if in[t] && !known[t] && !vocabulary()[t] {
			return t
		}
	}
	return ""
}
