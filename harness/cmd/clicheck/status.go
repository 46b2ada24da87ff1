package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C26"] = c26 }

// bad is something wrong with an invocation: arguments for some of the commands.
type bad struct {
	name  string
	cmds  string // letters of the commands it applies to: g, r, c
	args  []string
	stdin []byte
}

func (e *env) badThings() []bad {
	wf := func(words []string) string { return e.box.File("bad", joined(words)) }
	plain, enc := plainPhrase(), encPhrase(demoPW)
	out := []bad{
		{name: "unknown option", cmds: "grc", args: []string{"-bogus"}},
		{name: "unknown long option", cmds: "grc", args: []string{"--no-such-thing=1"}},
		{name: "positional argument", cmds: "grc", args: []string{"extra"}},
		{name: "positional help", cmds: "grc", args: []string{"--", "help", "me"}},
		{name: "empty argument", cmds: "grc", args: []string{""}},
		{name: "bad boolean", cmds: "grc", args: []string{"-verbose=maybe"}},
		{name: "bad boolean encrypt", cmds: "gr", args: []string{"-encrypt-keys=2"}},
		{name: "no terminal for the phrase password", cmds: "gc", args: []string{"-encrypt-phrase"}},
		{name: "no terminal for the key password", cmds: "gr", args: []string{"-encrypt-keys"}},
		{name: "missing word file", cmds: "rc", args: []string{"-in-word-file", filepath.Join(e.box.Dir, "none")}},
		{name: "word file is a directory", cmds: "rc", args: []string{"-in-word-file", e.box.Dir}},
		{name: "word file is empty", cmds: "rc", args: []string{"-in-word-file", e.box.File("none", nil)}},
		{name: "encrypted phrase without a terminal", cmds: "rc", args: []string{"-in-word-file", wf(enc)}},
		{name: "typed phrase without input", cmds: "rc", args: []string{"-in-word-file=", "-simple"}, stdin: []byte{}},
		{name: "interactive phrase without input", cmds: "rc", args: []string{"-in-word-file="}, stdin: []byte{}},
		{name: "missing value", cmds: "grc", args: []string{"-verbose", "-out-word-file"}},
		{name: "destination exists", cmds: "gc", args: []string{"-out-word-file", e.box.File("there", []byte(precious))}},
		{name: "destination in no directory", cmds: "gc", args: []string{"-out-word-file", filepath.Join(e.box.Dir, "no", "file")}},
		{name: "destination is a directory", cmds: "gc", args: []string{"-out-word-file", e.box.Dir}},
		{name: "entropy missing", cmds: "g", args: []string{"-unsafe-entropy", filepath.Join(e.box.Dir, "none")}},
		{name: "entropy is a directory", cmds: "g", args: []string{"-unsafe-entropy", e.box.Dir}},
	}
	for _, v := range []string{"1", "x", "-1d", "1d1d", "0", "0d", "1s", "9999999999y", "1.5y", "forever", " 1d", "293y", "1y ", "d", "99999999999999999999d"} {
		if _, ok := ttlSeconds(v); ok {
			continue
		}
		out = append(out, bad{name: "lifetime " + v, cmds: "gr", args: []string{"-ttl", v}})
	}
	for _, v := range []string{"x", "master,x", ",", "master,", "Master", "subkeys", "master encryption"} {
		out = append(out, bad{name: "key types " + v, cmds: "gr", args: []string{"-only", v}})
	}
	for _, o := range []string{"enc", "auth", "sig"} {
		for _, v := range []string{"65536", "-1", "x", "18446744073709551616", "4294967296", "65537", "1.0"} {
			out = append(out, bad{name: o + " index " + v, cmds: "r", args: []string{"-" + o + "-index", v}})
		}
	}
	for n := 0; n < 16; n++ {
		out = append(out, bad{name: fmt.Sprintf("%d bytes of entropy", n), cmds: "g", args: []string{"-unsafe-entropy", e.box.File("short", bytes.Repeat([]byte{9}, n))}},
			bad{name: fmt.Sprintf("%d bytes of entropy from standard input", n), cmds: "g", args: []string{"-unsafe-entropy", "-"}, stdin: bytes.Repeat([]byte{9}, n)})
	}
	phrase := func(name string, words []string) {
		if _, why := ref.Parse(words); len(why) == 0 {
			return // the check bits happen to agree
		}
		out = append(out, bad{name: "phrase: " + name, cmds: "rc", args: []string{"-in-word-file", wf(words)}})
	}
	for base, p := range map[string][]string{"plain": plain, "encrypted": enc} {
		for i := range p {
			q := append([]string{}, p...)
			x, _ := ref.WordIndex(q[i])
			q[i] = ref.Words([]uint16{x ^ 1})[0]
			phrase(fmt.Sprintf("%s with word %d replaced", base, i), q)
			phrase(fmt.Sprintf("%s without word %d", base, i), append(append([]string{}, p[:i]...), p[i+1:]...))
			phrase(fmt.Sprintf("%s with word %d twice", base, i), append(append(append([]string{}, p[:i]...), p[i]), p[i:]...))
			q = append([]string{}, p...)
			q[i] = "zzz"
			phrase(fmt.Sprintf("%s with word %d unknown", base, i), q)
			if i > 0 && p[i] != p[i-1] {
				q = append([]string{}, p...)
				q[i], q[i-1] = q[i-1], q[i]
				phrase(fmt.Sprintf("%s with words %d and %d swapped", base, i-1, i), q)
			}
			phrase(fmt.Sprintf("%s, the first %d words", base, i), p[:i])
		}
	}
	for v := 2; v < 16; v++ {
		for _, n := range []int{14, 16} {
			q := append([]string{}, plain...)
			for len(q) < n {
				q = append(q, q[1])
			}
			q[0] = ref.Words([]uint16{uint16(v<<8 | 7)})[0]
			phrase(fmt.Sprintf("version %d, %d words", v, n), q)
		}
	}
	return out
}

func (b bad) argv(cmd string, good string, rest ...string) []string {
	args := []string{map[string]string{"g": "generate", "r": "recover", "c": "convert"}[cmd]}
	if cmd != "g" {
		args = append(args, "-in-word-file", good)
	}
	args = append(args, rest...)
	return append(args, b.args...)
}

func c26(e *env) {
	e.badInvocations()
	e.outputFaults()
	e.inputFaults()
	e.sessions()
}

// sessions: phrases typed at the terminal, right, wrong and broken off, with right and wrong passwords.
func (e *env) sessions() {
	type session struct {
		name  string
		cmd   []string
		raw   bool
		words []string
		pws   []string // lines typed at password prompts
		end   string   // typed last, if the command is to end there
		ok    bool
		key   bool
		pw    string // of the converted phrase
		keyPW string
	}
	plain, enc := plainPhrase(), encPhrase(demoPW)
	other := func(p []string, i int) []string {
		q := append([]string{}, p...)
		x, _ := ref.WordIndex(q[i])
		for k := uint16(1); ; k++ {
			q[i] = ref.Words([]uint16{x ^ k})[0]
			if _, why := ref.Parse(q); len(why) > 0 || k > 100 {
				return q
			}
		}
	}
	w := []string{wrongPassword(enc, 0), wrongPassword(enc, 1), wrongPassword(enc, 2)}
	var all []session
	for _, raw := range []bool{true, false} {
		for _, cmd := range [][]string{{"recover"}, {"convert"}, {"recover", "-verbose", "-encrypt-keys"}, {"convert", "-verbose", "-encrypt-phrase"}} {
			base := session{cmd: cmd, raw: raw, key: cmd[0] == "recover"}
			if !raw {
				base.cmd = append(append([]string{}, cmd...), "-simple")
			}
			var more []string
			if len(cmd) > 1 {
				more = []string{"new pw", "new pw"}
				if base.key {
					base.keyPW = "new pw"
				} else {
					base.pw = "new pw"
				}
			}
			add := func(name string, words, pws []string, end string, ok bool) {
				s := base
				s.name, s.words, s.pws, s.end, s.ok = name, words, pws, end, ok
				all = append(all, s)
			}
			for k := 0; k <= len(more); k++ {
				if k == len(more) {
					add("plain phrase", plain, more, "", true)
				} else {
					add(fmt.Sprintf("plain phrase, ^C at new password %d", k), plain, more[:k], "\x03", false)
				}
			}
			for n := 0; n <= 3; n++ {
				for bits := 0; bits < 1<<n; bits++ {
					var l []string
					for i := 0; i < n; i++ {
						if bits>>i&1 == 1 {
							l = append(l, "")
						} else {
							l = append(l, w[i])
						}
					}
					add(fmt.Sprintf("encrypted phrase, %d refused passwords", n), enc, append(append(append([]string{}, l...), demoPW), more...), "", true)
					add(fmt.Sprintf("encrypted phrase, %d refused passwords, ^C", n), enc, l, "\x03", false)
				}
			}
			for _, p := range [][]string{plain, enc} {
				for i := range p {
					if i > 0 {
						if q := other(p, i); q != nil {
							if _, why := ref.Parse(q); len(why) > 0 {
								add(fmt.Sprintf("wrong word %d of %d", i+1, len(p)), q, nil, "", false)
							}
						}
					}
					add(fmt.Sprintf("^C after %d words of %d", i, len(p)), p[:i], nil, "\x03", false)
					add(fmt.Sprintf("^D after %d words of %d", i, len(p)), p[:i], nil, "\x04", false)
				}
			}
		}
	}
	e.Space("%d sessions in which the phrase is typed at the terminal: right, with each word wrong, broken off after each word; with 0 to 3 refused passwords; broken off at each password prompt", len(all))
	e.Parallel(len(all), func(i int) {
		s := all[i]
		e.Case()
		e.try(func() string { return fmt.Sprintf("session %q %s %q", s.cmd, s.name, s.pws) }, func() error {
			t, err := e.box.Start(cli.TTYSpec{Args: s.cmd, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			defer t.Kill()
			if s.raw {
				if !t.WaitMode(cli.Raw) {
					return fmt.Errorf("no word prompt: %q", t.Stderr())
				}
				if len(s.words) > 0 {
					t.Send([]byte(strings.Join(s.words, " ") + " "))
				}
			} else if len(s.words) > 0 {
				t.Send([]byte(strings.Join(s.words, "\n") + "\n"))
			}
			pws := s.pws
			if s.end != "" && !strings.Contains(s.name, " after ") {
				pws = append(append([]string{}, pws...), s.end)
			} else if s.end != "" {
				t.Send([]byte(s.end))
			}
			for _, l := range pws {
				if !t.WaitPrompt() {
					return fmt.Errorf("no password prompt: %q", t.Stderr())
				}
				if l == "\x03" {
					t.Send([]byte(l))
				} else {
					t.Send([]byte(l + "\n"))
				}
			}
			r, _ := t.End()
			if r.Hung || r.Loop {
				return r.Sane()
			}
			if !s.ok {
				e.Outcome("session refused")
				if r.Code == 0 || len(r.Out) != 0 {
					return fmt.Errorf("no phrase, but: %s", r)
				}
				return nil
			}
			e.Outcome("session completed")
			if r.Code != 0 {
				return fmt.Errorf("failed: %s", r)
			}
			if s.key {
				x := expect(demoSeed, demoOffset, ref.Opts{All: true, Name: "anonymous"}, true, true)
				if s.keyPW != "" {
					x.Password, x.Open = []byte(s.keyPW), true
				}
				return keyIs(r.Out, x)
			}
			if len(r.Out) != 0 {
				return fmt.Errorf("convert wrote %q to standard output", clipString(r.Out))
			}
			seed, off, isEnc, err := seedOf(cli.Phrase(r.Err), s.pw)
			if err == nil && (seed != demoSeed || off != demoOffset || isEnc != (s.pw != "")) {
				err = fmt.Errorf("another phrase arrived")
			}
			return err
		})
	})
}

func (e *env) badInvocations() {
	good := e.box.File("good", joined(plainPhrase()))
	bads := e.badThings()
	type job struct {
		cmd string
		b   bad
		c   *bad
	}
	var jobs []job
	stops := func(b bad) bool { // parsing ends there, so a bad thing after it is not seen
		return b.name == "missing value" || strings.HasPrefix(b.name, "positional") || b.name == "empty argument"
	}
	file := func(b bad) bool { return len(b.args) > 0 && strings.HasPrefix(b.args[0], "-in-word-file") }
	overrides := func(b, c bad) bool { // the second gives the same option again
		return b.args[0] == c.args[0] || file(b) && file(c) || strings.HasPrefix(c.name, "missing value") && b.args[0] == "-out-word-file"
	}
	for _, b := range bads {
		b := b
		for _, cmd := range strings.Split(b.cmds, "") {
			jobs = append(jobs, job{cmd, b, nil})
			for i := range bads {
				c := &bads[i]
				if !strings.Contains(c.cmds, cmd) || overrides(b, *c) || stops(b) {
					continue
				}
				if !e.Thorough && strings.HasPrefix(c.name, "phrase") && strings.HasPrefix(b.name, "phrase") {
					continue
				}
				jobs = append(jobs, job{cmd, b, c})
			}
		}
	}
	var roots [][]string
	roots = append(roots, nil)
	for _, a := range []string{"", "bogus", "Generate", "gen", "-x", "--version", "recover2", "generate ", "-", "--"} {
		roots = append(roots, []string{a}, []string{a, "generate"}, []string{a, "-name", "x"})
	}
	e.Space("%d bad invocations: every bad thing alone and every pair of them, with each command it applies to (%d bad things: options, values, files, phrases, entropy, missing terminals)", len(jobs)+len(roots), len(bads))
	e.Parallel(len(roots), func(i int) {
		if len(roots[i]) > 1 && roots[i][0] == "--" {
			return // ends the options; a command follows
		}
		e.Case()
		e.try(func() string { return fmt.Sprintf("mnemonikey %q", roots[i]) }, func() error { return refused(e.box.Cmd(roots[i]...)) })
	})
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		b := j.b
		if j.c != nil {
			b.name += ", " + j.c.name
			b.args = append(append([]string{}, b.args...), j.c.args...)
			if b.stdin == nil {
				b.stdin = j.c.stdin
			}
		}
		e.Case()
		e.try(func() string { return j.cmd + " " + b.name }, func() error {
			r := e.box.Run(cli.Spec{Args: b.argv(j.cmd, good), Stdin: b.stdin})
			e.Outcome("refused")
			return refused(r)
		})
	})
}

// outCase is a command with output.
type outCase struct {
	name   string
	args   []string
	file   bool // asks for a word file
	key    bool
	phrase bool
	seed   *ref.Seed16
	opts   ref.Opts
	master bool
	cert   bool
	pw     string // of the phrase
	typed  string
}

var numberedWord = regexp.MustCompile(`([0-9]+):[ \t]+([A-Za-z]+)`)

// numbered finds the numbered words in a text that may be mangled around them.
func numbered(b []byte) (words []string) {
	for _, m := range numberedWord.FindAllStringSubmatch(cli.Plain(b), -1) {
		if m[1] == fmt.Sprint(len(words)+1) {
			words = append(words, m[2])
		}
	}
	return words
}

// delivered checks that all output of the command is complete.
func (c *outCase) delivered(r *cli.Result, path string) error {
	seed, off := demoSeed, uint32(demoOffset)
	if c.phrase {
		words := numbered(r.Err)
		if c.file {
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			words = strings.Fields(string(b))
		}
		s, o, enc, err := seedOf(words, c.pw)
		if err != nil {
			return fmt.Errorf("the phrase did not arrive: %v", err)
		}
		if enc != (c.pw != "") || c.seed != nil && s != *c.seed {
			return fmt.Errorf("a wrong phrase arrived")
		}
		seed, off = s, o
	}
	if c.key {
		if err := keyIs(r.Out, expect(seed, off, c.opts, c.master, c.cert)); err != nil {
			return fmt.Errorf("the key did not arrive: %v", err)
		}
	} else if len(r.Out) != 0 {
		return fmt.Errorf("standard output is %q", clipString(r.Out))
	}
	return nil
}

func (e *env) outputFaults() {
	ef := e.box.File("enc", joined(encPhrase(demoPW)))
	wf := e.box.File("in", joined(plainPhrase()))
	ent := e.box.File("entropy", bytes.Repeat([]byte{7, 1, 9, 3}, 20))
	all := ref.Opts{All: true, Name: "anonymous"}
	named := ref.Opts{All: true, Name: "A. U. Thor", Email: "au@thor.example"}
	long := ref.Opts{All: true, Name: strings.Repeat("long name ", 900) + "."}
	sub := ref.Opts{Select: []string{"signing", "encryption"}, Name: "anonymous"}
	seed := demoSeed
	cases := []*outCase{
		{name: "generate", args: []string{"generate"}, key: true, phrase: true, opts: all, master: true, cert: true},
		{name: "generate verbose", args: []string{"generate", "-verbose", "-name", "A. U. Thor", "-email", "au@thor.example", "-unsafe-entropy", ent}, key: true, phrase: true, opts: named, master: true, cert: true},
		{name: "generate with a word file", args: []string{"generate"}, file: true, key: true, phrase: true, opts: all, master: true, cert: true},
		{name: "generate encrypted", args: []string{"generate", "-encrypt-phrase"}, key: true, phrase: true, opts: all, master: true, cert: true, pw: "pw", typed: "pw\npw\n"},
		{name: "recover", args: []string{"recover", "-in-word-file", wf}, key: true, opts: all, master: true, cert: true},
		{name: "recover with a long name", args: []string{"recover", "-in-word-file", wf, "-name", long.Name}, key: true, opts: long, master: true, cert: true},
		{name: "recover subkeys", args: []string{"recover", "-in-word-file", wf, "-only", "signing,encryption", "-self-cert=false", "-verbose"}, key: true, opts: sub},
		{name: "convert", args: []string{"convert", "-in-word-file", wf}, phrase: true, seed: &seed},
		{name: "convert to encrypted", args: []string{"convert", "-in-word-file", ef, "-encrypt-phrase", "-verbose"}, phrase: true, seed: &seed, pw: "pw", typed: demoPW + "\npw\npw\n"},
		{name: "convert to a word file", args: []string{"convert", "-in-word-file", wf}, file: true, phrase: true, seed: &seed},
	}
	// Whole sinks that refuse everything. (Closed descriptors are opened on /dev/null by the Go runtime, which
	// takes everything, before the program starts.)
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	pr.Close()
	defer pw.Close()
	sinks := map[string]string{
		"full": `exec "$@" >/dev/full`, "read only": `exec "$@" >/dev/zero </dev/null 1</dev/null`,
		"errors full":      `exec "$@" 2>/dev/full`,
		"errors read only": `exec "$@" 2</dev/null`, "both full": `exec "$@" >/dev/full 2>/dev/full`,
	}
	type sink struct {
		c    *outCase
		name string
	}
	var sjobs []sink
	for _, c := range cases {
		if c.typed != "" {
			continue
		}
		for n := range sinks {
			sjobs = append(sjobs, sink{c, n})
		}
		sjobs = append(sjobs, sink{c, "broken pipe"}, sink{c, "errors into a broken pipe"})
	}
	e.Space("%d runs with standard output or standard error full or read-only", len(sjobs))
	e.Parallel(len(sjobs), func(i int) {
		j := sjobs[i]
		e.Case()
		e.try(func() string { return j.c.name + " [" + j.name + "]" }, func() error {
			path := e.box.Path("words")
			defer os.Remove(path)
			args := j.c.args
			if j.c.file {
				args = append(append([]string{}, args...), "-out-word-file", path)
			}
			spec := cli.Spec{Args: args, Shell: sinks[j.name]}
			switch j.name {
			case "broken pipe":
				spec.Out = pw
			case "errors into a broken pipe":
				spec.Err = pw
			}
			r := e.box.Run(spec)
			if r.Hung || r.Loop {
				return r.Sane()
			}
			if r.Code == 0 {
				e.Outcome("survived")
				if err := j.c.delivered(r, path); err != nil {
					return fmt.Errorf("exit 0, but %v", err)
				}
				return nil
			}
			e.Outcome("failed")
			return nil
		})
	})

	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE, syscall.EBADF, syscall.EDQUOT, syscall.EAGAIN}
	type job struct {
		c *outCase
		f []fault
	}
	var jobs []job
	run := func(c *outCase, faults []fault) (pts []point, err error) {
		path := e.box.Path("words")
		defer os.Remove(path)
		args := c.args
		if c.file {
			args = append(append([]string{}, args...), "-out-word-file", path)
		}
		var mu sync.Mutex
		injected := false
		hook := func(call *cli.Call) cli.Act {
			mu.Lock()
			defer mu.Unlock()
			if !call.Enter || !call.IsWrite(1) && !call.IsWrite(2) {
				return cli.Act{}
			}
			name := "output"
			if call.IsWrite(2) {
				name = "errors"
			}
			pts = append(pts, point{call: name, enter: true, n: call.Arg[2]})
			for _, f := range faults {
				if f.at != len(pts) {
					continue
				}
				if f.errno != 0 {
					injected = true
					return cli.Act{Errno: f.errno}
				}
				if f.count < call.Arg[2] {
					return cli.Act{Count: f.count}
				}
			}
			return cli.Act{}
		}
		spec := cli.TraceSpec{Args: args, Hook: hook}
		if c.typed != "" {
			spec.TTY = &cli.TTYSpec{Rows: 24, Cols: 80}
			typed := false
			spec.Idle = func(p *cli.Traced) bool {
				if typed || !p.Waiting() {
					return false
				}
				typed = true
				p.Type([]byte(c.typed))
				return true
			}
		}
		r, _, err := e.box.Trace(spec)
		if err != nil {
			return pts, err
		}
		if r.Hung {
			return pts, fmt.Errorf("the command does not finish: %s", r)
		}
		if bytes.Contains(r.Err, []byte("\ngoroutine ")) {
			return pts, fmt.Errorf("the command crashed: %s", r)
		}
		if r.Code != 0 {
			if !injected {
				return pts, fmt.Errorf("failed, although all output could be written: %s", r)
			}
			e.Outcome("failed")
			return pts, nil
		}
		e.Outcome("complete")
		if err := c.delivered(r, path); err != nil {
			return pts, fmt.Errorf("exit 0, but %v", err)
		}
		return pts, nil
	}
	for _, c := range cases {
		var pts []point
		e.Case()
		e.try(func() string { return c.name + " without faults" }, func() (err error) {
			pts, err = run(c, nil)
			return
		})
		add := func(f ...fault) { jobs = append(jobs, job{c, f}) }
		for i, p := range pts {
			at := i + 1
			for _, x := range errnos {
				add(fault{at: at, kind: "error", errno: x})
			}
			counts := []uint64{1, p.n / 2, p.n - 1}
			if p.n == 0 {
				counts = nil
			}
			if p.call == "output" && !e.Thorough {
				for n := uint64(37); n < p.n; n += 61 + p.n/100 {
					counts = append(counts, n)
				}
			}
			if e.Thorough {
				counts = nil
				for n := uint64(1); n < p.n; n++ {
					counts = append(counts, n)
				}
			}
			for k, n := range counts {
				if n == 0 || k > 0 && n == counts[k-1] {
					continue
				}
				add(fault{at: at, kind: "short", count: n})
				for _, x := range errnos[:2] {
					add(fault{at: at, kind: "short", count: n}, fault{at: at + 1, kind: "error", errno: x})
				}
				if e.Thorough {
					add(fault{at: at, kind: "short", count: n}, fault{at: at + 1, kind: "short", count: (p.n-n)/2 + 1}, fault{at: at + 2, kind: "error", errno: syscall.EIO})
				}
			}
			if e.Thorough {
				for j := i + 1; j < len(pts); j++ {
					add(fault{at: at, kind: "error", errno: syscall.EIO}, fault{at: j + 1, kind: "error", errno: syscall.ENOSPC})
				}
			}
		}
		// From some write on, everything fails.
		for i := range pts {
			for _, call := range []string{"output", "errors", ""} {
				var fs []fault
				for k := i; k < len(pts)+5; k++ {
					if call == "" || k >= len(pts) || pts[k].call == call {
						fs = append(fs, fault{at: k + 1, kind: "error", errno: syscall.ENOSPC})
					}
				}
				add(fs...)
			}
		}
	}
	e.Space("%d runs of %d commands with a failing or partial write of standard output or standard error at every write", len(jobs), len(cases))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.States(1)
		e.Trace()
		e.try(func() string { return fmt.Sprint(j.c.name, " ", j.f) }, func() error {
			pts, err := run(j.c, j.f)
			e.Steps(len(pts))
			return err
		})
	})
}

// inputFaults: reads of the entropy file, of the word file and of the terminal fail or give less than asked.
func (e *env) inputFaults() {
	var es ref.Seed16
	raw := bytes.Repeat([]byte{7, 1, 9, 3}, 8)
	copy(es[:], raw)
	dir := e.box.Path("inputs")
	os.Mkdir(dir, 0o700)
	put := func(name string, b []byte) string {
		p := filepath.Join(dir, name)
		os.WriteFile(p, b, 0o600)
		return p
	}
	ent, wf, ef := put("entropy", raw), put("plain", joined(plainPhrase())), put("enc", joined(encPhrase(demoPW)))
	all := ref.Opts{All: true, Name: "anonymous"}
	seed := demoSeed
	cases := []*outCase{
		{name: "generate from an entropy file", args: []string{"generate", "-unsafe-entropy", ent}, key: true, phrase: true, opts: all, master: true, cert: true, seed: nil},
		{name: "recover", args: []string{"recover", "-in-word-file", wf}, key: true, opts: all, master: true, cert: true},
		{name: "convert", args: []string{"convert", "-in-word-file", wf}, phrase: true, seed: &seed},
		{name: "recover encrypted", args: []string{"recover", "-in-word-file", ef}, key: true, opts: all, master: true, cert: true, typed: demoPW + "\n"},
		{name: "generate encrypted", args: []string{"generate", "-unsafe-entropy", ent, "-encrypt-phrase"}, key: true, phrase: true, opts: all, master: true, cert: true, pw: "pw", typed: "pw\npw\n"},
	}
	type job struct {
		c *outCase
		f []fault
	}
	var jobs []job
	run := func(c *outCase, faults []fault) (pts []point, err error) {
		var mu sync.Mutex
		injected := false
		hook := func(call *cli.Call) cli.Act {
			mu.Lock()
			defer mu.Unlock()
			if !call.Enter {
				return cli.Act{}
			}
			name := call.Touches(dir)
			if name == "close" {
				name = ""
			}
			if name == "" && c.typed != "" && call.Arg[0] == 0 && call.Nr == 0 {
				name = "terminal"
			}
			if name == "" && c.typed != "" && call.Nr == 16 && call.Arg[0] == 0 && (call.Arg[1] == 0x5401 || call.SetsMode()) {
				name = "mode"
			}
			if name == "" {
				return cli.Act{}
			}
			pts = append(pts, point{call: name, enter: true, n: call.Arg[2]})
			for _, f := range faults {
				if f.at != len(pts) {
					continue
				}
				if f.errno != 0 {
					injected = true
					return cli.Act{Errno: f.errno}
				}
				if f.count < call.Arg[2] && (name == "read" || name == "terminal") {
					return cli.Act{Count: f.count}
				}
			}
			return cli.Act{}
		}
		spec := cli.TraceSpec{Args: c.args, Hook: hook}
		if c.typed != "" {
			spec.TTY = &cli.TTYSpec{Rows: 24, Cols: 80}
			lines := strings.SplitAfter(strings.TrimSuffix(c.typed, "\n"), "\n")
			n := 0
			spec.Idle = func(p *cli.Traced) bool {
				// After a failed read the prompt may ask again: keep on answering.
				if n > 20 || !p.Waiting() {
					return false
				}
				p.Type([]byte(strings.TrimSuffix(lines[n%len(lines)], "\n") + "\n"))
				n++
				return true
			}
		}
		r, _, err := e.box.Trace(spec)
		if err != nil {
			return pts, err
		}
		if r.Hung {
			return pts, fmt.Errorf("the command does not finish: %s", r)
		}
		if bytes.Contains(r.Err, []byte("\ngoroutine ")) {
			return pts, fmt.Errorf("the command crashed: %s", r)
		}
		if r.Code != 0 {
			if !injected {
				return pts, fmt.Errorf("failed, although all input could be read: %s", r)
			}
			e.Outcome("input fault refused")
			return pts, refused(r)
		}
		e.Outcome("input fault survived")
		if err := c.delivered(r, ""); err != nil {
			return pts, fmt.Errorf("exit 0, but %v", err)
		}
		if c.phrase && c.seed == nil { // generated
			if s, _, _, err := seedOf(cli.Phrase(r.Err), c.pw); err != nil || s != es {
				return pts, fmt.Errorf("the seed is %x, not the entropy given", s)
			}
		}
		return pts, nil
	}
	for _, c := range cases {
		var pts []point
		e.Case()
		e.try(func() string { return c.name + " without faults" }, func() (err error) {
			pts, err = run(c, nil)
			return
		})
		add := func(f ...fault) { jobs = append(jobs, job{c, f}) }
		for i, p := range pts {
			at := i + 1
			for _, x := range []syscall.Errno{syscall.EIO, syscall.EBADF, syscall.ENXIO, syscall.EACCES} {
				add(fault{at: at, kind: "error", errno: x})
				add(fault{at: at, kind: "error", errno: x}, fault{at: at + 1, kind: "error", errno: x})
			}
			if p.call != "read" {
				continue
			}
			for n := uint64(1); n <= 90; n++ {
				add(fault{at: at, kind: "short", count: n})
				add(fault{at: at, kind: "short", count: n}, fault{at: at + 1, kind: "error", errno: syscall.EIO})
				if e.Thorough {
					for m := uint64(1); m <= 90; m++ {
						add(fault{at: at, kind: "short", count: n}, fault{at: at + 1, kind: "short", count: m}, fault{at: at + 2, kind: "error", errno: syscall.EIO})
					}
				}
			}
		}
	}
	e.Space("%d runs of %d commands with a failing or partial read of the entropy file, the word file or the terminal, or a failing terminal mode change", len(jobs), len(cases))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.States(1)
		e.Trace()
		e.try(func() string { return fmt.Sprint(j.c.name, " ", j.f) }, func() error {
			pts, err := run(j.c, j.f)
			e.Steps(len(pts))
			return err
		})
	})
}
