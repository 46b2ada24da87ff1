package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C34"] = c34 }

// ---- C34 ----

// page is what a help page says.
type page struct {
	text     string
	options  map[string]helpOption
	examples [][]string
	commands []string
}

type helpOption struct {
	value  string // placeholder of the value; none for a switch
	preset string // the default shown
	shown  bool
}

var (
	optionLine  = regexp.MustCompile(`^  -{1,2}([A-Za-z0-9][A-Za-z0-9-]*)(?: +(\S.*))?\s*$`)
	presetText  = regexp.MustCompile(`\(default\s+((?s:[^)]*))\)\s*$`)
	exampleLine = regexp.MustCompile(`^  mnemonikey(?:$| .*$)`)
)

func readPage(text string) (*page, error) {
	p := &page{text: text, options: map[string]helpOption{}}
	section, current, body := "", "", ""
	end := func() {
		if current == "" {
			return
		}
		o := p.options[current]
		if m := presetText.FindStringSubmatch(strings.TrimSpace(body)); m != nil {
			o.preset, o.shown = m[1], true
			if s, err := strconv.Unquote(m[1]); err == nil {
				o.preset = s
			}
		}
		p.options[current] = o
		current, body = "", ""
	}
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimRight(line, "\r")
		switch t := strings.TrimSpace(line); {
		case t == "Usage:" || t == "Options:":
			end()
			section = t
		case section == "Usage:" && exampleLine.MatchString(line):
			f := strings.Fields(line)[1:]
			if i := indexOf(f, "-"); i >= 0 { // the list of commands
				if i == 1 {
					p.commands = append(p.commands, f[0])
				}
				continue
			}
			if len(f) > 0 && strings.ContainsAny(line, "<[") {
				continue
			}
			p.examples = append(p.examples, f)
		case section == "Options:" && optionLine.MatchString(line):
			end()
			m := optionLine.FindStringSubmatch(line)
			if _, twice := p.options[m[1]]; twice {
				return nil, fmt.Errorf("option -%s is listed twice", m[1])
			}
			current = m[1]
			p.options[current] = helpOption{value: strings.TrimSpace(m[2])}
		case current != "":
			body += line + "\n"
		}
	}
	end()
	return p, nil
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// literals gives the option-like words among the string literals of the command's sources.
func literals(dir string) []string {
	seen := map[string]bool{}
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	word := regexp.MustCompile(`^[a-z][a-z0-9_.-]*$`)
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil {
					for _, w := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\n,;:()\"'`|=", r) }) {
						if w = strings.TrimLeft(w, "-"); word.MatchString(w) && len(w) < 30 {
							seen[w] = true
						}
					}
				}
			}
			return true
		})
	}
	var out []string
	for w := range seen {
		out = append(out, w)
	}
	sort.Strings(out)
	return out
}

func c34(e *env) {
	wf := e.box.File("words", joined(plainPhrase()))
	ent := e.box.File("entropy", []byte("0123456789abcdef0123456789abcdef0123456789abcdef"))
	cmds := []string{"", "generate", "recover", "convert"}
	pages := map[string]*page{}
	help := func(id string, args []string, wants ...string) {
		e.Case()
		e.try(func() string { return id }, func() error {
			r := e.box.Cmd(args...)
			if err := r.Sane(); err != nil {
				return err
			}
			if r.Code != 0 {
				return fmt.Errorf("asking for help failed: %s", r)
			}
			if len(r.Out) != 0 {
				return fmt.Errorf("asking for help wrote to standard output: %s", r)
			}
			e.Outcome("help page")
			got := strings.Join(strings.Fields(cli.Plain(r.Err)), " ")
			for _, want := range wants {
				if got == strings.Join(strings.Fields(want), " ") {
					return nil
				}
			}
			return fmt.Errorf("the help page is not shown; this is: %q", clipString(r.Err))
		})
	}
	for _, c := range cmds {
		var args []string
		if c != "" {
			args = []string{c}
		}
		e.try(func() string { return "help page of " + c }, func() error {
			r := e.box.Cmd(append(args, "help")...)
			if err := r.Sane(); err != nil {
				return err
			}
			p, err := readPage(cli.Plain(r.Err))
			if err != nil {
				return err
			}
			if c != "" && (len(p.options) == 0 || len(p.examples) == 0) {
				return fmt.Errorf("no options or no examples: %s", r)
			}
			pages[c] = p
			return nil
		})
		if pages[c] == nil {
			return
		}
		for _, h := range []string{"help", "-h", "--help", "-help", "--h"} {
			help(c+" "+h, append(append([]string{}, args...), h), pages[c].text)
		}
	}
	// The commands listed are the commands there are.
	e.Case()
	got := append([]string{}, pages[""].commands...)
	sort.Strings(got)
	if strings.Join(got, " ") != "convert generate recover" {
		e.Bad("commands", "the main page lists the commands %v", got)
	}
	e.Space("the help pages of the program and its three commands, asked for in five ways")
	for _, c := range cmds[1:] {
		help("help "+c, []string{"help", c}, pages[""].text, pages[c].text)
	}

	// Asking for help among other options shows it and does nothing else.
	never := filepath.Join(e.box.Dir, "never-written")
	lines := map[string][][]string{
		"generate": {{"-name", "Bob", "-email", "b@x"}, {"-only", "master", "-verbose", "-ttl", "2y"}, {"-out-word-file", never, "-encrypt-phrase", "-unsafe-entropy", ent}, {"-encrypt-keys"}},
		"recover":  {{"-name=Bob", "-in-word-file", wf}, {"-enc-index", "3", "-only", "encryption", "-self-cert=false"}, {"-simple", "-auth-index=1", "-sig-index", "2", "-encrypt-keys", "-verbose"}},
		"convert":  {{"-in-word-file", wf, "-out-word-file", never}, {"-encrypt-phrase", "-simple", "-verbose", "-in-word-file=" + wf}},
	}
	n := 0
	for _, c := range cmds[1:] {
		for _, l := range lines[c] {
			for at := 0; at <= len(l); at++ {
				if at > 0 && strings.HasPrefix(l[at-1], "-") && !strings.Contains(l[at-1], "=") && pages[c].options[strings.TrimLeft(l[at-1], "-")].value != "" {
					continue // it would be the value
				}
				for _, h := range []string{"-h", "--help", "-help"} {
					args := append(append(append([]string{c}, l[:at]...), h), l[at:]...)
					help(strings.Join(args, " "), args, pages[c].text)
					n++
				}
			}
		}
	}
	if _, err := os.Lstat(never); err == nil {
		e.Bad("help with -out-word-file", "asking for help wrote a word file")
	}
	e.Space("%d command lines with -h, --help or -help at every place among other options", n)

	e.options34(pages, wf, ent)
	e.presets34(pages, wf, ent)
	e.examples34(pages, wf)
}

// base34 is a command line that works without a terminal.
func base34(c, wf, ent string) []string {
	if c == "generate" {
		return []string{c, "-unsafe-entropy", ent}
	}
	return []string{c, "-in-word-file", wf}
}

// options34: the options listed are the options accepted, with or without a value as listed.
func (e *env) options34(pages map[string]*page, wf, ent string) {
	values := map[string]string{"name": "Bob", "email": "b@x.org", "only": "master", "ttl": "3d", "auth-index": "1", "enc-index": "2", "sig-index": "3", "in-word-file": wf, "unsafe-entropy": ent}
	all := map[string]bool{"bogus": true, "version": true, "debug": true, "force": true, "seed": true, "password": true, "passphrase": true, "creation": true, "time": true, "test": true, "no-checksum": true, "index": true, "words": true}
	for _, p := range pages {
		for o := range p.options {
			all[o] = true
			for i := 1; i < len(o); i++ {
				all[o[:i]] = true // abbreviations
			}
			all[strings.ReplaceAll(o, "-", "_")], all[strings.ReplaceAll(o, "-", "")], all[strings.ToUpper(o)] = true, true, true
			all["no-"+o] = true
			for _, part := range strings.Split(o, "-") {
				all[part] = true
			}
		}
	}
	for _, l := range literals(filepath.Join(os.Getenv("VERIF_REPO"), "cmd/mnemonikey")) {
		all[l] = true
	}
	const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?"
	for _, a := range letters {
		all[string(a)] = true
		for _, b := range letters[:26] {
			all[string(a)+string(b)] = true
			if e.Thorough {
				for _, c := range letters[:26] {
					all[string(a)+string(b)+string(c)] = true
				}
			}
		}
	}
	delete(all, "h")
	delete(all, "help")
	delete(all, "")
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	type job struct {
		cmd, name, form string
	}
	var jobs []job
	listed := 0
	for _, c := range []string{"generate", "recover", "convert"} {
		for _, n := range names {
			if _, ok := pages[c].options[n]; ok {
				listed++
				jobs = append(jobs, job{c, n, "listed"})
				continue
			}
			jobs = append(jobs, job{c, n, "-x"}, job{c, n, "-x=v"})
			if len(n) > 2 || e.Thorough {
				jobs = append(jobs, job{c, n, "--x v"})
			}
		}
	}
	e.Space("%d listed options, in both spellings, with and without a value; %d names of options that are not listed (every name of one or two letters, abbreviations and variants of the listed ones, words of the sources) for each command", listed, len(names))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string { return fmt.Sprintf("%s: option -%s (%s)", j.cmd, j.name, j.form) }, func() error {
			base := base34(j.cmd, wf, ent)
			switch j.form {
			case "listed":
			default:
				args := append([]string{}, base...)
				switch j.form {
				case "-x":
					args = append(args, "-"+j.name)
				case "-x=v":
					args = append(args, "-"+j.name+"=1")
				default:
					args = append(args, "--"+j.name, "1")
				}
				r := e.box.Cmd(args...)
				if err := refused(r); err != nil {
					return fmt.Errorf("not an option of this help page: %w", err)
				}
				e.Outcome("unlisted option refused")
				if !strings.Contains(strings.Join(strings.Fields(cli.Plain(r.Err)), " "), strings.Join(strings.Fields(pages[j.cmd].text), " ")) {
					return fmt.Errorf("refused without the help page of %s: %s", j.cmd, r)
				}
				return nil
			}
			o := pages[j.cmd].options[j.name]
			var forms [][]string
			if o.value == "" { // a switch
				forms = [][]string{{"-" + j.name}, {"--" + j.name}, {"-" + j.name + "=true"}, {"--" + j.name + "=false"}}
			} else {
				v := values[j.name]
				out := ""
				if j.name == "out-word-file" {
					out = e.box.Path("new-words")
					v = out
					defer os.Remove(out)
				}
				if v == "" {
					return nil // an option this check has no value for
				}
				forms = [][]string{{"-" + j.name, v}, {"--" + j.name, v}, {"-" + j.name + "=" + v}, {"--" + j.name + "=" + v}}
			}
			for _, f := range forms {
				args := append(append([]string{}, base...), f...)
				var r *cli.Result
				if strings.HasPrefix(j.name, "encrypt-") && !strings.HasSuffix(f[0], "=false") {
					var err error
					if r, err = e.onTTY(args, "pw\npw\n"); err != nil {
						return err
					}
				} else {
					r = e.box.Cmd(args...)
				}
				if j.name == "out-word-file" {
					os.Remove(f[len(f)-1])
					if k := strings.Index(f[0], "="); k >= 0 {
						os.Remove(f[0][k+1:])
					}
				}
				if err := succeeded(r); err != nil {
					return fmt.Errorf("listed but %v: %w", f, err)
				}
				e.Outcome("listed option accepted")
			}
			bare := append(append([]string{}, base...), "-"+j.name)
			if o.value != "" {
				if err := refused(e.box.Cmd(bare...)); err != nil {
					return fmt.Errorf("without its value: %w", err)
				}
			} else if err := refused(e.box.Cmd(append(bare, "value")...)); err != nil {
				return fmt.Errorf("a switch with a value: %w", err)
			}
			return nil
		})
	})
}

// presets34: giving an option its shown default is the same as not giving it.
func (e *env) presets34(pages map[string]*page, wf, ent string) {
	type job struct {
		cmd  string
		args []string
	}
	var jobs []job
	for _, c := range []string{"generate", "recover", "convert"} {
		var names []string
		for n, o := range pages[c].options {
			if o.shown {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for bits := 0; bits < 1<<len(names); bits++ {
			var args []string
			for i, n := range names {
				if bits>>i&1 == 1 {
					args = append(args, "-"+n+"="+pages[c].options[n].preset)
				}
			}
			jobs = append(jobs, job{c, args})
		}
	}
	e.Space("%d sets of options given their shown defaults: all subsets, for each command", len(jobs))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string { return j.cmd + " " + strings.Join(j.args, " ") }, func() error {
			r := e.box.Cmd(append(base34(j.cmd, wf, ent), j.args...)...)
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome(j.cmd + " with defaults")
			if j.cmd == "recover" {
				if strings.Contains(cli.Plain(r.Err), "\n") && len(strings.TrimSpace(cli.Plain(r.Err))) > 0 {
					return fmt.Errorf("says more than without the options: %s", clipString(r.Err))
				}
				return keyIs(r.Out, expect(demoSeed, demoOffset, ref.Opts{All: true, Name: "anonymous"}, true, true))
			}
			words := cli.Phrase(r.Err)
			s, off, enc, err := seedOf(words, "")
			if err != nil {
				return err
			}
			if enc {
				return errors.New("the phrase is encrypted")
			}
			if j.cmd == "convert" {
				if s != demoSeed || off != demoOffset {
					return errors.New("another phrase")
				}
				if len(r.Out) != 0 {
					return fmt.Errorf("convert wrote %q", clipString(r.Out))
				}
				return nil
			}
			return keyIs(r.Out, expect(s, off, ref.Opts{All: true, Name: "anonymous"}, true, true))
		})
	})
}

// examples34: every example of a help page works and gives what its options say.
func (e *env) examples34(pages map[string]*page, wf string) {
	n := 0
	for _, c := range []string{"generate", "recover", "convert"} {
		for _, ex := range pages[c].examples {
			n++
			e.Case()
			ex := ex
			e.try(func() string { return "example: mnemonikey " + strings.Join(ex, " ") }, func() error { return e.example34(c, ex, wf) })
		}
	}
	e.Space("%d examples of the help pages, run as they stand (files under /etc replaced by scratch files)", n)
}

func (e *env) example34(cmd string, ex []string, wf string) error {
	if len(ex) == 0 || ex[0] != cmd {
		return fmt.Errorf("an example of another command: %v", ex)
	}
	o := ref.Opts{All: true, Name: "anonymous"}
	master, cert, encPhrase, encKeys, simple := true, true, false, false, false
	in, out := "", ""
	args := []string{cmd}
	for i := 1; i < len(ex); i++ {
		name, value, eq := strings.Cut(strings.TrimLeft(ex[i], "-"), "=")
		switch name {
		case "encrypt-phrase", "encrypt-keys", "simple", "verbose", "self-cert":
			on := value != "false"
			switch name {
			case "encrypt-phrase":
				encPhrase = on
			case "encrypt-keys":
				encKeys = on
			case "simple":
				simple = on
			case "self-cert":
				cert = on
			}
			args = append(args, ex[i])
			continue
		}
		if !eq {
			if i++; i >= len(ex) {
				args = append(args, ex[i-1])
				break
			}
			value = ex[i]
		}
		index := func() uint16 { n, _ := strconv.ParseUint(value, 10, 16); return uint16(n) }
		switch name {
		case "name":
			o.Name = value
		case "email":
			o.Email = value
		case "ttl":
			o.TTL, _ = ttlSeconds(value)
		case "enc-index":
			o.Enc = index()
		case "auth-index":
			o.Auth = index()
		case "sig-index":
			o.Sig = index()
		case "only":
			o.All, master, o.Select = false, false, []string{}
			for _, t := range strings.Split(value, ",") {
				if t == "master" {
					master = true
				} else {
					o.Select = append(o.Select, t)
				}
			}
		case "in-word-file":
			in, value = wf, wf
		case "out-word-file":
			out = e.box.Path("example-words")
			defer os.Remove(out)
			value = out
		case "unsafe-entropy":
			value = e.box.File("entropy", []byte("0123456789abcdef0123456789abcdef0123456789abcdef"))
		}
		if eq {
			args = append(args, ex[i][:strings.Index(ex[i], "=")+1]+value)
		} else {
			args = append(args, ex[i-1], value)
		}
	}
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
	if err != nil {
		return err
	}
	if cmd != "generate" && in == "" {
		if simple {
			t.WaitPrompt()
			t.Send([]byte(strings.Join(plainPhrase(), "\n") + "\n"))
		} else if t.WaitMode(cli.Raw) {
			t.Send([]byte(strings.Join(plainPhrase(), " ") + " "))
		}
	}
	if encPhrase || encKeys {
		if t.WaitMode(cli.NoEcho) {
			t.Send([]byte(strings.Repeat("pw\n", 4)))
		}
	}
	r, _ := t.End()
	if err := succeeded(r); err != nil {
		return err
	}
	e.Outcome("example of " + cmd + " works")
	words := cli.Phrase(r.Err)
	if out != "" {
		b, err := os.ReadFile(out)
		if err != nil {
			return err
		}
		words = strings.Fields(string(b))
	}
	seed, off := demoSeed, uint32(demoOffset)
	if cmd != "recover" {
		var enc bool
		if seed, off, enc, err = seedOf(words, "pw"); err != nil {
			return err
		}
		if enc != encPhrase {
			return fmt.Errorf("the phrase is encrypted: %v", enc)
		}
	}
	if cmd == "convert" {
		if seed != demoSeed || off != demoOffset {
			return errors.New("another phrase")
		}
		return nil
	}
	if encKeys {
		return nil // C09 and C24 judge these
	}
	return keyIs(r.Out, expect(seed, off, o, master, cert))
}
