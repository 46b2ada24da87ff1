package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"unicode"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C28"] = c28 }

var masterOnly = ref.Opts{Name: "anonymous", Select: []string{}}

// opens gives the seed of a phrase and the password to type (any that its check bits take).
func opens(words []string) (s ref.Seed16, off uint32, pw string, ok bool) {
	f, why := ref.Parse(words)
	if len(why) != 0 {
		return s, 0, "", false
	}
	if f.Version == 0 {
		return f.Seed, f.Offset, "", true
	}
	for i := 0; ; i++ {
		pw = fmt.Sprintf("pw%d", i)
		if s, ok := ref.Decrypt(f, []byte(pw)); ok {
			return s, f.Offset, pw, true
		}
	}
}

// anyPassword opens practically every phrase with one of its many lines.
var anyPassword = func() string {
	var l []string
	for i := 0; i < 250; i++ {
		l = append(l, fmt.Sprintf("pw%d", i))
	}
	return strings.Join(l, "\n")
}()

// wordsIn is the model of a word file.
func wordsIn(content []byte) []string { return strings.FieldsFunc(string(content), unicode.IsSpace) }

// readsAs checks that the command takes a word file for exactly the phrase in it.
func (e *env) readsAs(cmd string, path string, content []byte) error {
	words := wordsIn(content)
	s, off, pw, ok := opens(words)
	args := []string{cmd, "-in-word-file", path}
	if cmd == "recover" {
		args = append(args, "-only", "master")
	}
	if pw == "" && len(words) > 0 {
		if x, in := ref.WordIndex(strings.ToLower(words[0])); in && x>>8 == 1 {
			pw = anyPassword // it has to be refused in spite of it
		}
	}
	var r *cli.Result
	var err error
	if pw == "" {
		r = e.box.Cmd(args...)
	} else if r, err = e.onTTY(args, pw+"\n"); err != nil {
		return err
	}
	if !ok {
		e.Outcome("file refused")
		return refused(r)
	}
	e.Outcome("file read")
	if err := succeeded(r); err != nil {
		return err
	}
	return e.gives(cmd, r, s, off)
}

func (e *env) gives(cmd string, r *cli.Result, s ref.Seed16, off uint32) error {
	if cmd == "recover" {
		return keyIs(r.Out, expect(s, off, masterOnly, true, true))
	}
	got, o, enc, err := seedOf(cli.Phrase(r.Err), "")
	if err == nil && (got != s || o != off || enc) {
		err = errors.New("converted to another phrase")
	}
	return err
}

// coverPhrases gives phrases that together have every word of the list.
func coverPhrases() (out [][]string) {
	next := 0
	take := func() uint16 { // a word index
		x := uint16(next % 4096)
		next++
		return x
	}
	build := func(version int) []string {
		n := ref.WordCount(version)
		idx := make([]uint16, n)
		idx[0] = uint16(version<<8) | take()&0xff
		for i := 1; i < n-1; i++ {
			idx[i] = take()
		}
		for x := 0; x < 4096; x++ {
			idx[n-1] = uint16(x)
			w := ref.Words(idx)
			if _, why := ref.Parse(w); len(why) == 0 {
				return w
			}
		}
		panic("no valid last word")
	}
	seen := map[string]bool{}
	for len(seen) < 4096 && len(out) < 1000 {
		w := build(len(out) % 2)
		for _, x := range w {
			seen[x] = true
		}
		out = append(out, w)
	}
	return out
}

func c28(e *env) {
	e.wordFiles()
	e.wordFileFaults()
	e.lineEntry()
}

func (e *env) wordFiles() {
	plain, enc := plainPhrase(), ref.Phrase(ref.Encrypt(demoSeed, demoOffset, 0x31234, []byte("pw0")))
	type file struct {
		name    string
		content []byte
	}
	var files []file
	add := func(name string, content string) { files = append(files, file{name, []byte(content)}) }
	spaces := []string{" ", "\t", "\n", "\v", "\f", "\r", "\r\n", "\u0085", "\u00a0", "\u1680", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}
	for r := '\u2000'; r <= '\u200a'; r++ {
		spaces = append(spaces, string(r))
	}
	bases := map[string][]string{"plain": plain, "encrypted": enc}
	for base, p := range bases {
		for _, a := range spaces {
			for _, b := range append([]string{""}, spaces...) {
				if b != "" && base == "encrypted" && !e.Thorough {
					continue
				}
				name := fmt.Sprintf("%s, between words %q", base, a+b)
				add(name, strings.Join(p, a+b))
				add(name+" and around", a+strings.Join(p, b+a)+b+a)
			}
			add(fmt.Sprintf("%s after %q", base, a), a+strings.Join(p, " "))
			add(fmt.Sprintf("%s before %q", base, a), strings.Join(p, " ")+a)
			for i := 1; i < len(p); i++ {
				add(fmt.Sprintf("%s with %q before word %d", base, a, i+1), strings.Join(p[:i], " ")+a+strings.Join(p[i:], " "))
			}
		}
		for i := 1; i < len(p); i++ { // no separator
			add(fmt.Sprintf("%s with words %d and %d joined", base, i, i+1), strings.Join(p[:i], " ")+strings.Join(p[i:], " "))
		}
		// Letter case.
		title := func(w string) string { return strings.ToUpper(w[:1]) + w[1:] }
		mixed := func(w string) string {
			b := []byte(w)
			for i := range b {
				if i%2 == 1 {
					b[i] -= 32
				}
			}
			return string(b)
		}
		for n, f := range map[string]func(string) string{"upper": strings.ToUpper, "title": title, "mixed": mixed} {
			q := make([]string, len(p))
			for i := range p {
				q[i] = f(p[i])
				r := append([]string{}, p...)
				r[i] = f(p[i])
				add(fmt.Sprintf("%s with word %d in %s case", base, i+1, n), strings.Join(r, " "))
			}
			add(base+" in "+n+" case", strings.Join(q, " "))
		}
		// Things that are not words.
		junk := []string{"zzz", "1", "1.", "-", "#", "\x00", "\xff", "\u00e9", "\u200b", p[0] + ",", p[0] + ".", p[0][:3], p[0] + "s", "'" + p[1] + "'", "\ufeff", "//", "0x10", strings.Repeat("z", 64)}
		for _, j := range junk {
			for i := 0; i <= len(p); i++ {
				if i < len(p) {
					q := append([]string{}, p...)
					q[i] = j
					add(fmt.Sprintf("%s with word %d replaced by %q", base, i+1, j), strings.Join(q, " "))
					q = append([]string{}, p...)
					q[i] += j
					add(fmt.Sprintf("%s with %q after word %d", base, j, i+1), strings.Join(q, " "))
					q = append([]string{}, p...)
					q[i] = j + q[i]
					add(fmt.Sprintf("%s with %q in front of word %d", base, j, i+1), strings.Join(q, " "))
				}
				add(fmt.Sprintf("%s with %q put before word %d", base, j, i+1), strings.Join(append(append(append([]string{}, p[:i]...), j), p[i:]...), " "))
			}
		}
		// Long tokens and long blanks, around the sizes of read buffers.
		for _, n := range []int{100, 4095, 4096, 4097, 32768, 65520, 65535, 65536, 65537, 65600, 70000, 131072, 200000} {
			for _, i := range []int{0, 1, len(p) - 1, len(p)} {
				z := strings.Join(p[:i], " ")
				y := strings.Join(p[i:], " ")
				add(fmt.Sprintf("%s with a token of %d letters before word %d", base, n, i+1), z+" "+strings.Repeat("z", n)+" "+y)
				add(fmt.Sprintf("%s with %d blanks before word %d", base, n, i+1), z+strings.Repeat(" ", n)+y)
				add(fmt.Sprintf("%s with %d newlines before word %d", base, n, i+1), z+strings.Repeat("\n", n)+y)
			}
		}
		// Counts.
		var q []string
		for n := 0; n <= 130; n++ {
			add(fmt.Sprintf("%d words of the %s phrase over and over", n, base), strings.Join(q, " "))
			q = append(q, p[n%len(p)])
		}
		for i := range p {
			add(fmt.Sprintf("%s without word %d", base, i+1), strings.Join(append(append([]string{}, p[:i]...), p[i+1:]...), " "))
			add(fmt.Sprintf("%s with word %d twice", base, i+1), strings.Join(append(append([]string{}, p[:i+1]...), p[i:]...), " "))
			for j := 0; j < i; j++ {
				q := append([]string{}, p...)
				q[i], q[j] = q[j], q[i]
				add(fmt.Sprintf("%s with words %d and %d exchanged", base, j+1, i+1), strings.Join(q, " "))
			}
		}
	}
	for v := 0; v < 16; v++ {
		for _, n := range []int{0, 1, 13, 14, 15, 16, 17} {
			q := []string{ref.Words([]uint16{uint16(v<<8 | 3)})[0]}
			for len(q) < n {
				q = append(q, plain[1])
			}
			add(fmt.Sprintf("%d words of version %d", n, v), strings.Join(q, " "))
		}
	}
	for i, p := range coverPhrases() {
		add(fmt.Sprintf("phrase %d of the cover", i), strings.Join(p, " ")+"\n")
		add(fmt.Sprintf("phrase %d of the cover, upper case", i), strings.ToUpper(strings.Join(p, "\n"))+"\n")
	}
	e.Space("%d word files: all single and paired blanks, letter cases, insertions, replacements, deletions, exchanges and lengths, and phrases with all 4096 words", len(files))
	e.Parallel(len(files), func(i int) {
		f := files[i]
		cmd := "recover"
		if i%3 == 2 {
			cmd = "convert"
		}
		e.Case()
		e.try(func() string { return "file: " + f.name }, func() error {
			path := e.box.File("words", f.content)
			defer os.Remove(path)
			return e.readsAs(cmd, path, f.content)
		})
	})
	// Other kinds of files.
	dir := e.box.Path("kinds")
	os.Mkdir(dir, 0o700)
	good := filepath.Join(dir, "good")
	os.WriteFile(good, joined(plain), 0o600)
	link := filepath.Join(dir, "link")
	os.Symlink(good, link)
	dangling := filepath.Join(dir, "dangling")
	os.Symlink(filepath.Join(dir, "no"), dangling)
	self := filepath.Join(dir, "self")
	os.Symlink(self, self)
	for _, cmd := range []string{"recover", "convert"} {
		for _, p := range []string{dir, dir + "/", dangling, self, good + "/x", "/dev/null", filepath.Join(dir, "none"), strings.Repeat("x", 300)} {
			e.Case()
			e.try(func() string { return cmd + " " + p }, func() error { return refused(e.box.Cmd(cmd, "-in-word-file", p)) })
		}
		for _, p := range []string{good, link} {
			e.Case()
			e.try(func() string { return cmd + " " + p }, func() error { return e.readsAs(cmd, p, joined(plain)) })
		}
		e.Case()
		e.try(func() string { return cmd + " pipe" }, func() error {
			args := []string{cmd, "-in-word-file", "/dev/stdin"}
			if cmd == "recover" {
				args = append(args, "-only", "master")
			}
			r := e.box.Run(cli.Spec{Args: args, Stdin: joined(plain)})
			if err := succeeded(r); err != nil {
				return err
			}
			return e.gives(cmd, r, demoSeed, demoOffset)
		})
	}
}

// wordFileFaults: a word file which cannot be read to its end is refused, however much of it was read.
func (e *env) wordFileFaults() {
	dir := e.box.Path("faulty")
	os.Mkdir(dir, 0o700)
	type job struct {
		cmd     string
		content []byte
		faults  []fault
	}
	var jobs []job
	contents := [][]byte{joined(plainPhrase()), []byte(strings.Join(plainPhrase(), " ")), []byte(strings.Join(plainPhrase(), strings.Repeat(" ", 700)) + strings.Repeat("\n", 5000))}
	for _, cmd := range []string{"recover", "convert"} {
		for _, c := range contents {
			for at := 1; at <= 5; at++ {
				jobs = append(jobs, job{cmd, c, []fault{{at: at, kind: "error", errno: syscall.EIO}}})
			}
			n := uint64(len(c))
			step := uint64(1)
			if n > 300 {
				step = 97
			}
			for k := uint64(1); k < n; k += step {
				jobs = append(jobs, job{cmd, c, []fault{{at: 1, kind: "short", count: k}}})
				jobs = append(jobs, job{cmd, c, []fault{{at: 1, kind: "short", count: k}, {at: 2, kind: "error", errno: syscall.EIO}}})
				jobs = append(jobs, job{cmd, c, []fault{{at: 1, kind: "short", count: k}, {at: 3, kind: "error", errno: syscall.EIO}}})
				if e.Thorough {
					for m := uint64(1); m < n-k; m += step {
						jobs = append(jobs, job{cmd, c, []fault{{at: 1, kind: "short", count: k}, {at: 2, kind: "short", count: m}, {at: 3, kind: "error", errno: syscall.EIO}}})
					}
				}
			}
		}
	}
	e.Space("%d runs with the word file's reads cut at every byte or failing after it", len(jobs))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.States(1)
		e.Trace()
		e.try(func() string { return fmt.Sprintf("%s %d bytes %v", j.cmd, len(j.content), j.faults) }, func() error {
			path := filepath.Join(dir, fmt.Sprint("w", i))
			if err := os.WriteFile(path, j.content, 0o600); err != nil {
				return err
			}
			defer os.Remove(path)
			var mu sync.Mutex
			reads, struck := 0, false
			hook := func(call *cli.Call) cli.Act {
				mu.Lock()
				defer mu.Unlock()
				if !call.Enter || call.Touches(path) != "read" {
					return cli.Act{}
				}
				reads++
				for _, f := range j.faults {
					if f.at != reads {
						continue
					}
					if f.errno != 0 {
						struck = true
						return cli.Act{Errno: f.errno}
					}
					if f.count < call.Arg[2] {
						return cli.Act{Count: f.count}
					}
				}
				return cli.Act{}
			}
			args := []string{j.cmd, "-in-word-file", path}
			if j.cmd == "recover" {
				args = append(args, "-only", "master")
			}
			r, _, err := e.box.Trace(cli.TraceSpec{Args: args, Hook: hook})
			if err != nil {
				return err
			}
			e.Steps(reads)
			if struck {
				e.Outcome("unreadable file refused")
				return refused(r)
			}
			e.Outcome("file read in pieces")
			if err := succeeded(r); err != nil {
				return err
			}
			return e.gives(j.cmd, r, demoSeed, demoOffset)
		})
	})
}

// lineWords is the model of line-by-line entry: the words taken, and whether the phrase became complete.
func lineWords(text string) (words []string, done bool) {
	count := 1
	lines := strings.SplitAfter(text, "\n")
	for _, l := range lines {
		if l == "" { // after the last newline
			break
		}
		w := strings.ToLower(strings.TrimSpace(l))
		x, ok := ref.WordIndex(w)
		if !ok {
			continue
		}
		if len(words) == 0 {
			if x>>8 > 1 {
				continue
			}
			count = ref.WordCount(int(x >> 8))
		}
		if words = append(words, w); len(words) == count {
			return words, true
		}
	}
	return words, false
}

func (e *env) lines(cmd, text string, tty bool) error {
	words, done := lineWords(text)
	s, off, pw, ok := opens(words)
	ok = ok && done
	if done && !ok && len(words) == 16 {
		pw = anyPassword
	}
	args := []string{cmd, "-simple"}
	if cmd == "recover" {
		args = append(args, "-only", "master")
	}
	var r *cli.Result
	if pw == "" && !tty {
		r = e.box.Run(cli.Spec{Args: args, Stdin: []byte(text)})
	} else {
		t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
		if err != nil {
			return err
		}
		t.Send([]byte(text))
		if text != "" && !strings.HasSuffix(text, "\n") {
			t.Send([]byte("\x04\x04")) // hands over the unfinished line, and ends the input
		} else if !done {
			t.Send([]byte("\x04"))
		}
		if pw != "" && done {
			if !t.WaitMode(cli.NoEcho) && ok {
				r, _ := t.End()
				return errors.New("no password prompt: " + r.String())
			}
			t.Send([]byte(pw + "\n"))
		}
		r, _ = t.End()
	}
	if !ok {
		e.Outcome("lines refused")
		return refused(r)
	}
	e.Outcome("lines read")
	if err := succeeded(r); err != nil {
		return err
	}
	return e.gives(cmd, r, s, off)
}

func (e *env) lineEntry() {
	plain, enc := plainPhrase(), ref.Phrase(ref.Encrypt(demoSeed, demoOffset, 0x31234, []byte("pw0")))
	unsupported := ref.Words([]uint16{0x2ff})[0]
	type job struct {
		name, text string
		tty        bool
	}
	var jobs []job
	seen := map[string]bool{}
	add := func(name, text string, tty bool) {
		if key := fmt.Sprint(tty, text); !seen[key] {
			seen[key] = true
			jobs = append(jobs, job{name, text, tty})
		}
	}
	for base, p := range map[string][]string{"plain": plain, "encrypted": enc} {
		junk := []string{"", "   ", "zzz", p[1] + " " + p[2], p[0][:3], unsupported, "\t", p[1] + ",", "1. " + p[1], strings.Repeat("y", 3000), p[1] + p[2], "help"}
		if base == "encrypted" && !e.Thorough {
			junk = junk[:6]
		}
		depth := 2
		if e.Thorough {
			depth = 3
		}
		build := func(at int, dist []string, sep string) string {
			l := append(append(append([]string{}, p[:at]...), dist...), p[at:]...)
			return strings.Join(l, sep) + sep
		}
		var walk func(at int, d []string, max int)
		walk = func(at int, d []string, max int) {
			add(fmt.Sprintf("%s with lines %q before word %d", base, d, at+1), build(at, d, "\n"), false)
			if len(d) < max {
				for _, j := range junk {
					walk(at, append(append([]string{}, d...), j), max)
				}
			}
		}
		for at := 0; at <= len(p); at++ {
			max := depth
			if base == "encrypted" && !e.Thorough {
				max = 1
			}
			if at < 2 && base == "plain" {
				max++
			}
			walk(at, nil, max)
		}
		for _, j := range junk { // before every word
			var l []string
			for _, w := range p {
				l = append(l, j, w)
			}
			add(fmt.Sprintf("%s with %q before each word", base, j), strings.Join(l, "\n")+"\n", false)
			if len(j) < 200 {
				add(fmt.Sprintf("%s with %q before each word", base, j), strings.Join(l, "\n")+"\n", true)
			}
		}
		// Dress.
		for _, f := range []string{"%s", " %s", "%s ", "\t%s \t", "%s\r", "\r%s", "\u00a0%s\u3000", "\v%s\f", "  %s   "} {
			for _, u := range []bool{false, true} {
				var l []string
				for _, w := range p {
					if u {
						w = strings.ToUpper(w)
					}
					l = append(l, fmt.Sprintf(f, w))
				}
				text := strings.Join(l, "\n")
				add(fmt.Sprintf("%s dressed %q (upper: %v)", base, f, u), text+"\n", false)
				if base == "plain" {
					add(fmt.Sprintf("%s dressed %q (upper: %v), no last newline", base, f, u), text, false)
				}
			}
		}
		// Early end, extra lines, other words.
		for n := 0; n < len(p); n++ {
			t := strings.Join(p[:n], "\n")
			for _, end := range []string{"", "\n", "\n\n", "\n" + p[n][:2], "\nzzz\n", "\n" + unsupported} {
				add(fmt.Sprintf("%s ending after %d words and %q", base, n, end), t+end, false)
				if base == "plain" {
					add(fmt.Sprintf("%s ending after %d words and %q", base, n, end), t+end, true)
				}
			}
			for _, x := range []string{"zone", p[(n+1)%len(p)], unsupported, "ability"} {
				q := append([]string{}, p...)
				q[n] = x
				add(fmt.Sprintf("%s with word %d replaced by %q", base, n+1, x), strings.Join(q, "\n")+"\n", false)
			}
		}
		if base == "plain" {
			for _, extra := range []string{"zzz", p[0], "", strings.Join(p, "\n"), unsupported} {
				add(fmt.Sprintf("%s followed by %q", base, extra), strings.Join(p, "\n")+"\n"+extra+"\n", false)
			}
		}
		add(base+" on a terminal", strings.Join(p, "\n")+"\n", true)
	}
	for v := 0; v < 16; v++ { // first words
		first := ref.Words([]uint16{uint16(v<<8 | 0x80)})[0]
		if v > 1 {
			add(fmt.Sprintf("version %d first word skipped", v), first+"\n"+strings.Join(plain, "\n")+"\n", false)
		}
		add(fmt.Sprintf("version %d first word only", v), first+"\n", false)
	}
	for i, p := range coverPhrases() {
		add(fmt.Sprintf("phrase %d of the cover", i), strings.Join(p, "\n")+"\n", false)
	}
	e.Space("%d line sequences: blanks, wrong and foreign lines before every word (up to %d in a row), all dress, all early ends, and phrases with all 4096 words", len(jobs), 3)
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		cmd := "recover"
		if i%3 == 2 {
			cmd = "convert"
		}
		e.Trace()
		e.States(1)
		e.Steps(strings.Count(j.text, "\n"))
		e.try(func() string { return fmt.Sprintf("%s (terminal: %v)", j.name, j.tty) }, func() error { return e.lines(cmd, j.text, j.tty) })
	})
}
