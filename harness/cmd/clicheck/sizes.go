package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C27"] = c27 }

// sizeCase is a command run on terminals of all sizes.
type sizeCase struct {
	name  string
	args  []string
	typed string // lines typed at password prompts
	keys  string // keys typed at the word prompt
	usage string // the command whose help page it prints
	check func(r *cli.Result) error
	code  int
	all   bool // also at all heights in the quick tier
}

var (
	hexToken  = regexp.MustCompile(`^[0-9A-F]{40}$`)
	timeToken = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)$`)
)

// wordsOf gives the words of a text, with what differs between runs replaced: generated phrases, fingerprints and
// times.
func wordsOf(b []byte, vary bool) []string {
	f := strings.Fields(cli.Plain(b))
	if !vary {
		return f
	}
	n := 0
	for i := range f {
		switch {
		case hexToken.MatchString(f[i]):
			f[i] = "<fingerprint>"
		case timeToken.MatchString(f[i]):
			f[i] = "<time>"
		case i > 0 && f[i-1] == fmt.Sprintf("%d:", n+1):
			f[i] = "<word>"
			n++
		}
	}
	return f
}

func sameText(got, want []string) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "(end)", "(end)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			lo := i - 4
			if lo < 0 {
				lo = 0
			}
			return fmt.Errorf("word %d of the text is %q, not %q (after %q)", i, g, w, got[lo:min(i, len(got))])
		}
	}
	return nil
}

func c27(e *env) {
	plain := plainPhrase()
	wf := e.box.File("in", joined(plain))
	ef := e.box.File("enc", joined(encPhrase(demoPW)))
	anon := ref.Opts{All: true, Name: "anonymous"}
	none := func(r *cli.Result) error {
		if len(r.Out) != 0 {
			return fmt.Errorf("standard output is %q", clipString(r.Out))
		}
		return nil
	}
	recovered := func(r *cli.Result) error { return keyIs(r.Out, expect(demoSeed, demoOffset, anon, true, true)) }
	generated := func(r *cli.Result) error {
		s, off, enc, err := seedOf(cli.Phrase(r.Err), "")
		if err != nil {
			return err
		}
		if enc {
			return errors.New("encrypted phrase")
		}
		return keyIs(r.Out, expect(s, off, anon, true, true))
	}
	cases := []*sizeCase{
		{name: "help", args: []string{"help"}, check: nil},
		{name: "no arguments", args: nil, code: 1, check: none},
		{name: "-h", args: []string{"-h"}, check: nil},
		{name: "unknown command", args: []string{"bogus"}, code: 1, check: none},
		{name: "bad option", args: []string{"recover", "-bogus"}, code: -2, check: none},
		{name: "bad lifetime", args: []string{"generate", "-ttl", "1x"}, code: 1, check: none},
		{name: "generate help", args: []string{"generate", "help"}, usage: "generate", all: true},
		{name: "recover help", args: []string{"recover", "help"}, usage: "recover", all: true},
		{name: "convert help", args: []string{"convert", "help"}, usage: "convert", all: true},
		{name: "generate -h", args: []string{"generate", "-h"}, usage: "generate"},
		{name: "recover --help", args: []string{"recover", "--help"}, usage: "recover"},
		{name: "convert -help", args: []string{"convert", "-help"}, usage: "convert"},
		{name: "generate", args: []string{"generate"}, check: generated, all: true},
		{name: "generate verbose", args: []string{"generate", "-verbose"}, check: generated},
		{name: "recover", args: []string{"recover", "-in-word-file", wf, "-verbose"}, check: recovered},
		{name: "recover encrypted", args: []string{"recover", "-in-word-file", ef}, typed: demoPW + "\n", check: recovered},
		{name: "convert", args: []string{"convert", "-in-word-file", wf}, check: func(r *cli.Result) error {
			if err := none(r); err != nil {
				return err
			}
			s, off, enc, err := seedOf(cli.Phrase(r.Err), "")
			if err == nil && (s != demoSeed || off != demoOffset || enc) {
				err = errors.New("converted to something else")
			}
			return err
		}},
		{name: "generate encrypted", args: []string{"generate", "-encrypt-phrase"}, typed: "new pw\nnew pw\n", check: func(r *cli.Result) error {
			s, off, enc, err := seedOf(cli.Phrase(r.Err), "new pw")
			if err == nil && !enc {
				err = errors.New("not encrypted")
			}
			if err != nil {
				return err
			}
			return keyIs(r.Out, expect(s, off, anon, true, true))
		}},
		{name: "convert to encrypted", args: []string{"convert", "-in-word-file", wf, "-encrypt-phrase"}, typed: "new pw\nnew pw\n", check: func(r *cli.Result) error {
			if err := none(r); err != nil {
				return err
			}
			s, off, enc, err := seedOf(cli.Phrase(r.Err), "new pw")
			if err == nil && (s != demoSeed || off != demoOffset || !enc) {
				err = errors.New("converted to something else")
			}
			return err
		}},
		{name: "encrypted word prompt", args: []string{"recover"}, keys: strings.Join(encPhrase(demoPW), " ") + " ", typed: demoPW + "\n", check: recovered},
		{name: "word prompt", args: []string{"recover"}, keys: strings.Join(plain, " ") + " ", check: recovered},
		{name: "line prompt", args: []string{"recover", "-simple"}, keys: strings.Join(plain, "\n") + "\n", check: recovered},
	}
	var widths []uint16
	top := 260
	if e.Thorough {
		top = 1100
	}
	for w := 0; w <= top; w++ {
		widths = append(widths, uint16(w))
	}
	for _, w := range []uint16{1999, 2000, 4095, 4096, 32767, 32768, 65534, 65535} {
		widths = append(widths, w)
	}
	heights := []uint16{24, 0, 1, 2, 65535}
	run := func(c *sizeCase, cols, rows uint16, mixed bool) (*cli.Result, error) {
		t, err := e.box.Start(cli.TTYSpec{Args: c.args, Rows: rows, Cols: cols, OutTTY: mixed, ErrTTY: mixed})
		if err != nil {
			return nil, err
		}
		switch {
		case c.keys != "" && c.typed != "":
			if t.WaitMode(cli.Raw) {
				t.Send([]byte(c.keys))
				if t.WaitMode(cli.NoEcho) {
					t.Send([]byte(c.typed))
				}
			}
		case c.typed != "":
			if t.WaitMode(cli.NoEcho) {
				t.Send([]byte(c.typed))
			}
		case c.keys != "" && c.name == "word prompt":
			if t.WaitMode(cli.Raw) {
				t.Send([]byte(c.keys))
			}
		case c.keys != "":
			t.Send([]byte(c.keys))
		}
		r, mode := t.End()
		if err := r.Sane(); err != nil {
			return r, err
		}
		if mode != t.Orig {
			return r, errors.New("the terminal is left in another mode")
		}
		return r, nil
	}
	texts := sourceTexts(filepath.Join(os.Getenv("VERIF_REPO"), "cmd/mnemonikey"))
	varies := func(c *sizeCase) bool {
		return (strings.HasPrefix(c.name, "generate") || c.name == "convert to encrypted") && c.usage == ""
	}
	// The reference: the same command with the size unknown.
	want := map[string][]string{}
	for _, c := range cases {
		if c.typed != "" || c.keys != "" {
			continue
		}
		e.Case()
		e.try(func() string { return c.name + " without a terminal" }, func() error {
			r := e.box.Cmd(c.args...)
			if err := r.Sane(); err != nil {
				return err
			}
			want[c.name] = wordsOf(r.Err, varies(c))
			if len(want[c.name]) == 0 {
				return fmt.Errorf("no text: %s", r)
			}
			return nil
		})
	}
	for _, t := range texts {
		if t.cmds != nil {
			continue
		}
		e.Case()
		e.try(func() string { return fmt.Sprintf("text %q", t.text) }, func() error {
			for _, c := range []string{"generate help", "recover help", "convert help"} {
				if strings.Contains(" "+strings.Join(want[c], " ")+" ", " "+strings.Join(strings.Fields(t.text), " ")+" ") {
					return nil
				}
			}
			return errors.New("no help page has this text")
		})
	}
	wide := func(c *sizeCase, mixed bool) {
		key := c.name
		if mixed {
			key += " mixed"
		}
		e.Case()
		e.try(func() string { return key + " on a wide terminal" }, func() error {
			r, err := run(c, 200, 24, mixed)
			if err != nil {
				return err
			}
			text := r.Err
			if mixed {
				text = r.TTY
			}
			want[key] = wordsOf(text, varies(c))
			return nil
		})
	}
	for _, c := range cases {
		if c.typed != "" || c.keys != "" {
			wide(c, false)
		} else if c.check == nil {
			wide(c, true)
		}
	}
	type job struct {
		c          *sizeCase
		cols, rows uint16
		mixed      bool
	}
	var jobs []job
	for _, c := range cases {
		for hi, h := range heights {
			if hi > 0 && !c.all && !e.Thorough {
				continue
			}
			for _, w := range widths {
				jobs = append(jobs, job{c, w, h, false})
				if c.check == nil && hi == 0 {
					jobs = append(jobs, job{c, w, h, true})
				}
			}
		}
		if !c.all && !e.Thorough {
			for _, h := range heights[1:] {
				for _, w := range []uint16{0, 1, 2, 3, 10, 80, 65535} {
					jobs = append(jobs, job{c, w, h, false})
				}
			}
		}
	}
	e.Space("%d runs: %d commands on terminals of %d widths (all from 0 to %d, and the largest) and heights %v", len(jobs), len(cases), len(widths), top, heights)
	e.Space("%d texts of the options and commands, read from the sources, all of whose words each help page must have together", len(texts))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string {
			return fmt.Sprintf("%s on %dx%d (all on the terminal: %v)", j.c.name, j.cols, j.rows, j.mixed)
		}, func() error {
			r, err := run(j.c, j.cols, j.rows, j.mixed)
			if err != nil {
				return err
			}
			if j.c.code == -2 && r.Code == 0 || j.c.code != -2 && (r.Code != 0) != (j.c.code != 0) {
				return fmt.Errorf("exit status: %s", r)
			}
			e.Outcome(fmt.Sprintf("%s: exit %d", j.c.name, r.Code))
			key, text := j.c.name, r.Err
			if j.mixed {
				key, text = key+" mixed", r.TTY
			}
			got := wordsOf(text, varies(j.c))
			if j.c.keys == "" { // prompts redraw their line
				if err := sameText(got, want[key]); err != nil {
					return err
				}
			}
			if j.c.usage != "" {
				s := " " + strings.Join(got, " ") + " "
				for _, t := range texts {
					if t.cmds[j.c.usage] && !strings.Contains(s, " "+strings.Join(strings.Fields(t.text), " ")+" ") {
						return fmt.Errorf("the help page does not have the text %q", t.text)
					}
				}
			}
			if j.c.check != nil && !j.mixed {
				return j.c.check(r)
			}
			return nil
		})
	})
}

// sourceText is a text that help pages show.
type sourceText struct {
	text string
	cmds map[string]bool
}

// sourceTexts finds option descriptions and command descriptions in the sources, as far as they are plain string
// expressions; texts written in another way are left out.
func sourceTexts(dir string) (out []sourceText) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	styles := map[string]bool{"bold": true, "faint": true, "underline": true, "red": true, "green": true, "blue": true, "magenta": true, "cyan": true}
	var eval func(x ast.Expr) (string, bool)
	eval = func(x ast.Expr) (string, bool) {
		switch x := x.(type) {
		case *ast.BasicLit:
			if x.Kind != token.STRING {
				return "", false
			}
			s, err := strconv.Unquote(x.Value)
			return s, err == nil
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BinaryExpr:
			a, ok1 := eval(x.X)
			b, ok2 := eval(x.Y)
			return a + b, ok1 && ok2 && x.Op == token.ADD
		case *ast.CallExpr:
			if f, ok := x.Fun.(*ast.Ident); ok && styles[f.Name] && len(x.Args) == 1 {
				return eval(x.Args[0])
			}
		}
		return "", false
	}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(fset, n, src, 0)
		if err != nil {
			continue
		}
		cmd := strings.TrimSuffix(filepath.Base(n), ".go")
		cmds := map[string]bool{cmd: true}
		if cmd != "generate" && cmd != "recover" && cmd != "convert" {
			cmds = nil // shared options: some command shows them
		}
		ast.Inspect(f, func(x ast.Node) bool {
			c, ok := x.(*ast.CallExpr)
			if !ok {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok || !strings.HasSuffix(s.Sel.Name, "Var") || len(c.Args) != 4 {
				return true
			}
			if id, ok := s.X.(*ast.Ident); !ok || id.Name != "flags" {
				return true
			}
			if t, ok := eval(c.Args[3]); ok {
				out = append(out, sourceText{strings.ReplaceAll(t, "`", ""), cmds})
			}
			return true
		})
	}
	return out
}
