package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C22"] = c22 }

// wordOut is a place where convert can be told to write.
type convCase struct {
	seed   ref.Seed16
	off    uint32
	inPW   string // "" plaintext input
	wrong  int    // wrong passwords typed first
	outPW  string // "" plaintext output
	via    string // file, simple, tty
	dest   string // stderr, new, existing, empty, input, missing, directory
	layout int
	verb   bool
}

func (c convCase) String() string {
	return fmt.Sprintf("convert seed=%x offset=%d in=%q wrong=%d out=%q via=%s dest=%s layout=%d verbose=%v", c.seed[:4], c.off, c.inPW, c.wrong, c.outPW, c.via, c.dest, c.layout, c.verb)
}

var layouts = []func(w []string) []byte{
	func(w []string) []byte { return joined(w) },
	func(w []string) []byte { return []byte(strings.ToUpper(strings.Join(w, "\n"))) },
	func(w []string) []byte { return []byte("\t " + strings.Join(w, " \r\n\t ") + "\n\n\n") },
}

func (e *env) convert(c convCase) error {
	f := ref.Fields{Seed: c.seed, Offset: c.off}
	if c.inPW != "" {
		f = ref.Encrypt(c.seed, c.off, 0x2f00d&0x7ffff, []byte(c.inPW))
	}
	words := ref.Phrase(f)
	dir := e.box.Path("conv")
	if err := os.Mkdir(dir, 0o700); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in")
	content := layouts[c.layout](words)
	args := []string{"convert"}
	if c.verb {
		args = append(args, "-verbose")
	}
	switch c.via {
	case "file":
		args = append(args, "-in-word-file", in)
	case "simple":
		args = append(args, "-simple")
	}
	if err := os.WriteFile(in, content, 0o640); err != nil {
		return err
	}
	out := filepath.Join(dir, "out")
	old := []byte("something precious\n")
	fails := true
	switch c.dest {
	case "new":
		fails = false
	case "existing":
		if err := os.WriteFile(out, old, 0o640); err != nil {
			return err
		}
	case "empty":
		old = nil
		if err := os.WriteFile(out, nil, 0o640); err != nil {
			return err
		}
	case "input":
		out, old = in, content
	case "missing":
		out = filepath.Join(dir, "none", "out")
	case "directory":
		out = dir
	case "stderr":
		out, fails = "", false
	}
	if out != "" {
		args = append(args, "-out-word-file", out)
	}
	if c.outPW != "" {
		args = append(args, "-encrypt-phrase")
	}
	// Type what is asked for.
	var pws string
	if c.inPW != "" {
		for i := 0; i < c.wrong; i++ {
			pws += wrongPassword(words, i) + "\n"
		}
		pws += c.inPW + "\n"
	}
	if c.outPW != "" {
		pws += c.outPW + "\n" + c.outPW + "\n"
	}
	var r *cli.Result
	if pws == "" && c.via != "tty" {
		var stdin []byte
		if c.via == "simple" {
			stdin = []byte(strings.Join(words, "\n") + "\n")
		}
		r = e.box.Run(cli.Spec{Args: args, Stdin: stdin})
	} else {
		t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
		if err != nil {
			return err
		}
		switch c.via {
		case "tty":
			if t.WaitMode(cli.Raw) {
				t.Send([]byte(strings.Join(words, "\r") + "\r"))
			}
		case "simple":
			t.Send([]byte(strings.Join(words, "\n") + "\n"))
		}
		if pws != "" && t.WaitMode(cli.NoEcho) {
			t.Send([]byte(pws))
		}
		r, _ = t.End()
	}
	if err := r.Sane(); err != nil {
		return err
	}
	if len(r.Out) != 0 {
		return fmt.Errorf("convert wrote to standard output: %s", r)
	}
	if b, err := os.ReadFile(in); err != nil || !bytes.Equal(b, content) {
		return fmt.Errorf("the input word file was changed: %q", b)
	}
	if c.dest == "existing" || c.dest == "empty" || c.dest == "input" {
		if b, err := os.ReadFile(out); err != nil || !bytes.Equal(b, old) {
			return fmt.Errorf("the existing output file was changed to %q", b)
		}
	}
	shown := cli.Phrase(r.Err)
	if fails {
		e.Outcome("destination " + c.dest + " refused")
		if len(shown) != 0 {
			return fmt.Errorf("the phrase was to go to a file but was shown: %s", r)
		}
		if err := refused(r); err != nil {
			return err
		}
		return onlyFiles(dir, "in", "out")
	}
	if r.Code != 0 {
		return fmt.Errorf("convert failed: %s", r)
	}
	got := shown
	if c.dest == "new" {
		if len(shown) != 0 {
			return fmt.Errorf("the phrase was to go to a file but was also shown: %s", r)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return fmt.Errorf("success, but no output file: %w", err)
		}
		got = strings.Fields(string(b))
		if string(b) != strings.Join(got, " ")+"\n" {
			return fmt.Errorf("output file has more than the words: %q", b)
		}
	} else if err := onlyFiles(dir, "in"); err != nil {
		return err
	}
	s, off, enc, err := seedOf(got, c.outPW)
	if err != nil {
		return err
	}
	if enc != (c.outPW != "") {
		return fmt.Errorf("output encrypted: %v", enc)
	}
	if s != c.seed || off != c.off {
		return fmt.Errorf("output phrase holds seed %x offset %d instead of %x, %d", s, off, c.seed, c.off)
	}
	if c.outPW == "" {
		if err := ref.SameWords(got, ref.Phrase(ref.Fields{Seed: c.seed, Offset: c.off})); err != nil {
			return err
		}
	}
	e.Outcome("converted to " + c.dest)
	return nil
}

// onlyFiles checks that a directory has no other entries than these.
func onlyFiles(dir string, names ...string) error {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
next:
	for _, x := range es {
		for _, n := range names {
			if x.Name() == n {
				continue next
			}
		}
		return fmt.Errorf("an unexpected file appeared: %s", x.Name())
	}
	return nil
}

func c22(e *env) {
	var ones ref.Seed16
	for i := range ones {
		ones[i] = 0xff
	}
	seeds := []ref.Seed16{demoSeed, {}, ones}
	offs := []uint32{demoOffset, 0, 1<<31 - 1}
	var cases []convCase
	for si, s := range seeds {
		for oi, off := range offs {
			for _, inPW := range []string{"", "old password", "ö"} {
				for _, wrong := range []int{0, 1, 2} {
					if inPW == "" && wrong > 0 {
						continue
					}
					for _, outPW := range []string{"", "new password", "old password"} {
						for _, via := range []string{"file", "simple", "tty"} {
							for _, dest := range []string{"stderr", "new", "existing", "empty", "input", "missing", "directory"} {
								for l := range layouts {
									if l > 0 && via != "file" {
										continue
									}
									if (si > 0 || oi > 0) && !e.Thorough && (wrong == 1 || l > 0 || dest == "empty" || dest == "missing") {
										continue
									}
									cases = append(cases, convCase{s, off, inPW, wrong, outPW, via, dest, l, (si+oi+l)%2 == 1})
								}
							}
						}
					}
				}
			}
		}
	}
	e.Space("%d conversions: seeds x creation offsets x input format and passwords (also wrong ones first) x output format x way of entry x destination x file layout", len(cases))
	e.Parallel(len(cases), func(i int) {
		e.Case()
		e.try(cases[i].String, func() error { return e.convert(cases[i]) })
	})
	// Chains of conversions through files.
	steps := []string{"", "one", "two"}
	depth := 3
	if e.Thorough {
		depth = 5
	}
	var chains [][]string
	var walk func(p []string)
	walk = func(p []string) {
		if len(p) == depth {
			chains = append(chains, p)
			return
		}
		for _, s := range steps {
			walk(append(append([]string{}, p...), s))
		}
	}
	walk(nil)
	e.Space("all chains of %d conversions over plaintext and two passwords: %d", depth, len(chains))
	e.Parallel(len(chains), func(i int) {
		e.States(1)
		e.Steps(depth)
		e.Trace()
		e.try(func() string { return fmt.Sprintf("chain %q", chains[i]) }, func() error { return e.chain(chains[i]) })
	})
}

func (e *env) chain(pws []string) error {
	dir := e.box.Path("chain")
	if err := os.Mkdir(dir, 0o700); err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	path := func(i int) string { return filepath.Join(dir, fmt.Sprint(i)) }
	var contents [][]byte
	contents = append(contents, joined(plainPhrase()))
	if err := os.WriteFile(path(0), contents[0], 0o600); err != nil {
		return err
	}
	have := ""
	for i, pw := range pws {
		args := []string{"convert", "-in-word-file", path(i), "-out-word-file", path(i + 1)}
		typed := ""
		if have != "" {
			typed = have + "\n"
		}
		if pw != "" {
			args = append(args, "-encrypt-phrase")
			typed += pw + "\n" + pw + "\n"
		}
		var r *cli.Result
		if typed == "" {
			r = e.box.Cmd(args...)
		} else {
			var err error
			if r, err = e.onTTY(args, typed); err != nil {
				return err
			}
		}
		if err := succeeded(r); err != nil {
			return err
		}
		if len(r.Out) != 0 {
			return errors.New("convert wrote to standard output")
		}
		b, err := os.ReadFile(path(i + 1))
		if err != nil {
			return err
		}
		contents = append(contents, b)
		for j, old := range contents {
			if now, err := os.ReadFile(path(j)); err != nil || !bytes.Equal(now, old) {
				return fmt.Errorf("file %d changed in step %d", j, i)
			}
		}
		s, off, enc, err := seedOf(strings.Fields(string(b)), pw)
		if err != nil {
			return err
		}
		if s != demoSeed || off != demoOffset || enc != (pw != "") {
			return fmt.Errorf("step %d gives another seed, time or format", i)
		}
		have = pw
	}
	e.Outcome("chain")
	return nil
}
