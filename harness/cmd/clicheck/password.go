package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C24"] = c24 }

// pwCase is a command with password prompts and the lines typed at them.
type pwCase struct {
	name  string
	args  []string
	lines []string
	done  []int // numbers of lines after which a prompt has what it asked for
	mode  string
	check func(r *cli.Result) error // of a successful end
}

var modes = map[string]func(*cli.Termios){
	"cooked":     nil,
	"no echo":    func(t *cli.Termios) { t.Lflag &^= cli.ECHO },
	"no signals": func(t *cli.Termios) { t.Lflag &^= cli.ISIG },
	"cbreak":     func(t *cli.Termios) { t.Lflag &^= cli.ICANON | cli.ECHO; t.Cc[6], t.Cc[5] = 1, 0 },
	"raw": func(t *cli.Termios) {
		t.Iflag &^= cli.ICRNL
		t.Lflag &^= cli.ICANON | cli.ECHO | cli.ISIG
		t.Cc[6], t.Cc[5] = 1, 0
	},
	"custom keys": func(t *cli.Termios) { t.Cc[0], t.Cc[2], t.Iflag = 0x1d, 0x08, t.Iflag^0x800 },
}

// A step of a schedule: "int" (interrupt), "line" (type the next line), or the name of a point whose thread is
// let go.
type schedule []string

func (s schedule) String() string { return strings.Join(s, ", ") }

// seenStep is one decision of an execution: what was possible and what was done.
type seenStep struct {
	could []string
	did   string
	late  bool // an interrupt after the prompt had its answer
}

// pwRun runs the case under the schedule, then lets the default (first) choice decide. It gives all decisions.
func (e *env) pwRun(c *pwCase, s schedule) (hist []seenStep, r *cli.Result, mode, orig cli.Termios, diverged bool, err error) {
	typed := 0
	interrupted, wasLate := false, false
	lastRestored := 0 // terminal mode changes back to the original after the last line was read
	var origMode cli.Termios
	hook := func(call *cli.Call) cli.Act {
		switch {
		case call.SetsMode():
			m, err := call.NewMode()
			name := "hide"
			if err == nil && m == origMode {
				name = "restore"
			}
			if call.Enter {
				return cli.Act{Hold: "before " + name}
			}
			return cli.Act{Hold: "after " + name}
		case call.IsExit() && call.Enter:
			return cli.Act{Hold: "exit"}
		}
		return cli.Act{}
	}
	idle := func(p *cli.Traced) bool {
		held := p.Held()
		var could []string
		byName := map[string]int{}
		for _, h := range held {
			n := h.Name
			for byName[n] != 0 {
				n += "'"
			}
			byName[n] = h.TID
			could = append(could, n)
		}
		// After an interrupt that came too late for the prompt before, the next prompt gets its line as long as it
		// hides what is typed; an interrupt at a waiting prompt ends the typing.
		hidden := false
		if interrupted && wasLate {
			m, err := p.Term.Mode()
			hidden = err == nil && cli.NoEcho(m)
		}
		if p.Waiting() && typed < len(c.lines) && (!interrupted || hidden) {
			could = append(could, "line")
		}
		// The interrupt comes while a prompt is up: from the first change of the mode to the last change back.
		if !interrupted && (p.Waiting() || anyMode(held)) && !(typed == len(c.lines) && lastRestored > 0) {
			could = append(could, "int")
		}
		if len(could) == 0 {
			return false
		}
		did := could[0]
		if n := len(hist); n < len(s) {
			did = s[n]
			ok := false
			for _, x := range could {
				ok = ok || x == did
			}
			if !ok {
				diverged = true
				did = could[0]
			}
		}
		late := !p.Waiting() && !anyHide(held) && c.answered(typed)
		hist = append(hist, seenStep{could, did, late})
		switch did {
		case "int":
			interrupted, wasLate = true, late
			p.Signal(syscall.SIGINT)
		case "line":
			p.Type([]byte(c.lines[typed] + "\n"))
			typed++
		default:
			if strings.HasPrefix(did, "after restore") && typed == len(c.lines) {
				lastRestored++
			}
			p.Release(byName[did])
		}
		return true
	}
	tty := &cli.TTYSpec{Rows: 24, Cols: 80, Mode: modes[c.mode]}
	tty.Opened = func(t *cli.TTY) { origMode = t.Orig }
	r, mode, err = e.box.Trace(cli.TraceSpec{Args: c.args, TTY: tty, Hook: hook, Idle: idle})
	return hist, r, mode, origMode, diverged, err
}

func anyMode(held []cli.Held) bool {
	for _, h := range held {
		if strings.HasSuffix(h.Name, "hide") || strings.HasSuffix(h.Name, "restore") {
			return true
		}
	}
	return false
}

func anyHide(held []cli.Held) bool {
	for _, h := range held {
		if strings.HasSuffix(h.Name, "hide") {
			return true
		}
	}
	return false
}

func (c *pwCase) answered(typed int) bool {
	for _, n := range c.done {
		if n == typed {
			return true
		}
	}
	return false
}

// knownRace reports the recorded finding: an interrupt, the terminal restored because of it, and only then the
// prompt's own change to the hidden mode, which was already under way, with no change back before the end.
func knownRace(hist []seenStep) bool {
	phase := 0
	for _, h := range hist {
		switch {
		case phase == 0 && h.did == "int":
			phase = 1
		case phase >= 1 && strings.HasPrefix(h.did, "before restore"):
			phase = 2
		case phase == 2 && strings.HasPrefix(h.did, "before hide"):
			phase = 3
		}
	}
	return phase == 3
}

func judge(c *pwCase, hist []seenStep, r *cli.Result, mode, orig cli.Termios) error {
	interrupted, late := false, false
	for _, h := range hist {
		if h.did == "int" {
			interrupted, late = true, h.late
		}
	}
	if r.Hung {
		return fmt.Errorf("the command does not finish: %s", r)
	}
	if bytes.Contains(r.Err, []byte("\ngoroutine ")) {
		return fmt.Errorf("the command crashed: %s", r)
	}
	for _, l := range c.lines {
		if l != "" && bytes.Contains(r.TTY, []byte(l)) {
			return fmt.Errorf("the password %q appeared on the terminal: %q", l, r.TTY)
		}
		if l != "" && (bytes.Contains(r.Err, []byte(l)) || bytes.Contains(r.Out, []byte(l))) {
			return fmt.Errorf("the password %q appeared in the output: %s", l, r)
		}
	}
	if len(bytes.Trim(r.TTY, "\r\n^C")) != 0 {
		return fmt.Errorf("typed characters appeared on the terminal: %q", r.TTY)
	}
	if mode != orig {
		return fmt.Errorf("the terminal is left in another mode (lflag %x instead of %x)", mode.Lflag, orig.Lflag)
	}
	if interrupted && r.Code != 0 {
		if len(r.Out) != 0 {
			return fmt.Errorf("interrupted, but standard output is %q", clipString(r.Out))
		}
		return nil
	}
	if interrupted && !late {
		return fmt.Errorf("interrupted at a prompt, but: %s", r)
	}
	if r.Code != 0 {
		return fmt.Errorf("failed: %s", r)
	}
	return c.check(r)
}

func clipString(b []byte) string {
	if len(b) > 100 {
		b = b[:100]
	}
	return string(b)
}

func (e *env) explore(c *pwCase, known *atomic.Int64) {
	// Depth-first over all schedules: each execution follows a prefix and adds the alternatives it passes.
	type item struct{ prefix schedule }
	var mu sync.Mutex
	queue := []item{{}}
	active := 0
	cond := sync.NewCond(&mu)
	var wg sync.WaitGroup
	worker := func() {
		defer wg.Done()
		for {
			mu.Lock()
			for len(queue) == 0 && active > 0 {
				cond.Wait()
			}
			if len(queue) == 0 || e.Stop() || e.Expired() {
				mu.Unlock()
				cond.Broadcast()
				return
			}
			it := queue[len(queue)-1]
			queue = queue[:len(queue)-1]
			active++
			mu.Unlock()
			var next []item
			e.Trace()
			id := func() string { return fmt.Sprintf("%s [%s]: %v", c.name, c.mode, it.prefix) }
			// Replays of a violation run all schedules, as the prefix alone identifies the case.
			e.try(id, func() error {
				hist, r, mode, orig, diverged, err := e.pwRun(c, it.prefix)
				for n := 0; err == nil && diverged && n < 4; n++ {
					// The program's own random choice between two ready events can go another way.
					hist, r, mode, orig, diverged, err = e.pwRun(c, it.prefix)
				}
				if err != nil {
					return err
				}
				next = nil
				if diverged {
					e.Outcome("schedule not reproduced")
				} else {
					for i := len(it.prefix); i < len(hist); i++ {
						var p schedule
						for _, h := range hist[:i] {
							p = append(p, h.did)
						}
						for _, x := range hist[i].could {
							if x != hist[i].did {
								next = append(next, item{append(append(schedule{}, p...), x)})
							}
						}
					}
				}
				e.Steps(len(hist))
				state := ""
				for _, h := range hist {
					state += h.did + ";"
					e.Visit(c.name + c.mode + state)
				}
				if err := judge(c, hist, r, mode, orig); err != nil {
					if e.known && knownRace(hist) && strings.HasPrefix(err.Error(), "the terminal is left in another mode") {
						known.Add(1)
						e.Outcome("known finding: prompt hides input after the interrupt restored the terminal")
						return nil
					}
					var did []string
					for _, h := range hist {
						did = append(did, h.did)
					}
					return fmt.Errorf("%v; schedule: %s", err, strings.Join(did, ", "))
				}
				e.Outcome(fmt.Sprintf("exit %d", r.Code))
				return nil
			})
			mu.Lock()
			queue = append(queue, next...)
			active--
			mu.Unlock()
			cond.Broadcast()
		}
	}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go worker()
	}
	wg.Wait()
}

func c24(e *env) {
	enc := encPhrase(demoPW)
	ef := e.box.File("enc", joined(enc))
	pf := e.box.File("plain", joined(plainPhrase()))
	ent := e.box.File("entropy", bytes.Repeat([]byte{7, 1, 9, 3}, 20))
	anon := ref.Opts{All: true, Name: "anonymous"}
	recovered := func(keyPW string) func(*cli.Result) error {
		return func(r *cli.Result) error {
			x := expect(demoSeed, demoOffset, anon, true, true)
			if keyPW != "" {
				x.Password, x.Open = []byte(keyPW), true
			}
			return keyIs(r.Out, x)
		}
	}
	generated := func(phrasePW, keyPW string) func(*cli.Result) error {
		return func(r *cli.Result) error {
			s, off, isEnc, err := seedOf(cli.Phrase(r.Err), phrasePW)
			if err != nil {
				return err
			}
			if isEnc != (phrasePW != "") {
				return errors.New("phrase in the wrong format")
			}
			x := expect(s, off, anon, true, true)
			if keyPW != "" {
				x.Password, x.Open = []byte(keyPW), true
			}
			return keyIs(r.Out, x)
		}
	}
	converted := func(pw string) func(*cli.Result) error {
		return func(r *cli.Result) error {
			if len(r.Out) != 0 {
				return fmt.Errorf("convert wrote %q to standard output", r.Out)
			}
			s, off, isEnc, err := seedOf(cli.Phrase(r.Err), pw)
			if err != nil {
				return err
			}
			if !isEnc || s != demoSeed || off != demoOffset {
				return errors.New("converted to something else")
			}
			return nil
		}
	}
	w0 := wrongPassword(enc, 0)
	// Under the controlled scheduler.
	var cases []*pwCase
	add := func(name string, args []string, check func(*cli.Result) error, done []int, lines ...string) {
		cases = append(cases, &pwCase{name: name, args: args, lines: lines, done: done, check: check, mode: "cooked"})
	}
	add("recover", []string{"recover", "-in-word-file", ef}, recovered(""), []int{1}, demoPW)
	add("recover, wrong first", []string{"recover", "-in-word-file", ef}, recovered(""), []int{1, 2}, w0, demoPW)
	add("recover, empty first", []string{"recover", "-in-word-file", ef}, recovered(""), []int{2}, "", demoPW)
	add("recover and encrypt keys", []string{"recover", "-in-word-file", ef, "-encrypt-keys"}, recovered("keypw"), []int{1, 3}, demoPW, "keypw", "keypw")
	add("generate encrypted phrase", []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, generated("secret", ""), []int{2}, "secret", "secret")
	add("generate encrypted phrase, mismatch first", []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, generated("secret", ""), []int{4}, "secret", "sekret", "secret", "secret")
	add("generate both", []string{"generate", "-encrypt-keys", "-encrypt-phrase", "-unsafe-entropy", ent}, generated("secret", "keypw"), []int{2, 4}, "keypw", "keypw", "secret", "secret")
	add("convert", []string{"convert", "-in-word-file", ef, "-encrypt-phrase"}, converted("newpw"), []int{1, 3}, demoPW, "newpw", "newpw")
	for _, m := range []string{"no echo", "no signals", "cbreak", "raw", "custom keys"} {
		for i := 0; i < 8; i++ {
			if !e.Thorough && i != 0 && i != 4 {
				continue
			}
			c := *cases[i]
			c.mode = m
			cases = append(cases, &c)
		}
	}
	var known atomic.Int64
	findings, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "KNOWN_FINDINGS.txt"))
	e.known = bytes.Contains(findings, []byte("\nknown: property=C24 schedule=int,restore,hide "))
	e.Space("%d sessions (command, lines typed, original terminal mode): all schedules of the threads that change the terminal mode or end the process, with one interrupt at every point of every prompt", len(cases))
	for _, c := range cases {
		e.explore(c, &known)
	}
	if known.Load() > 0 {
		fmt.Println("KNOWN-FINDING: property=C24 interrupt while a prompt is about to hide its input: if the hiding takes effect after the terminal was restored, and before the process ends, the terminal stays without echo")
	}
	e.confirmations(pf, enc, ef, ent, generated, recovered)
	e.keyInterrupts(ef)
	e.contents(pf, ent, generated, recovered)
}

// contents: the password used is the line typed, whatever its characters and length, and an entry that differs in
// anything does not confirm it.
func (e *env) contents(pf, ent string, generated func(a, b string) func(*cli.Result) error, recovered func(string) func(*cli.Result) error) {
	special := map[byte]bool{0x03: true, 0x04: true, 0x08: true, 0x0a: true, 0x0d: true, 0x0f: true, 0x11: true, 0x12: true, 0x13: true, 0x15: true, 0x16: true, 0x17: true, 0x1a: true, 0x1c: true, 0x7f: true}
	const core = "Zq7kW"
	var pws []string
	for b := 0; b < 256; b++ {
		if special[byte(b)] {
			continue // the terminal's own editing and control keys
		}
		x := string([]byte{byte(b)})
		pws = append(pws, x+core, core+x, core[:2]+x+core[2:])
	}
	for _, x := range []string{"  ", "\t\t", " \t ", "\u00a0", "\u2003", "\u3000", "\ufeff", "\u200b", "e\u0301", "\u00e9", "\u212a", "\u017f", "\xff\xfe", "%s%d", "\\n", "'\"", "\x1b[A"} {
		pws = append(pws, x+core, core+x, x+core+x, core[:2]+x+core[2:])
	}
	pws = append(pws, "ZQ7KW", "zq7kw", strings.Repeat(" ", 7)+core)
	for _, n := range []int{6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4000, 4094} {
		pws = append(pws, strings.Repeat("Zq7kWp", n/6+1)[:n])
	}
	type pjob struct {
		name  string
		args  []string
		lines []string
		check func(*cli.Result) error
	}
	var jobs []pjob
	for i, pw := range pws {
		enc := e.box.File("enc", joined(encPhrase(pw)))
		jobs = append(jobs, pjob{"decrypting", []string{"recover", "-in-word-file", enc}, []string{pw}, recovered("")})
		if i%3 == 1 || i >= 3*241 || e.Thorough {
			jobs = append(jobs, pjob{"phrase", []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, []string{pw, pw}, generated(pw, "")})
		}
		if i%12 == 1 || i >= 3*241 && i%4 == 1 || e.Thorough {
			jobs = append(jobs, pjob{"keys", []string{"recover", "-in-word-file", pf, "-encrypt-keys"}, []string{pw, pw}, recovered(pw)})
		}
	}
	n := len(jobs)
	// Entries that differ a little.
	base := "Zq7kW\u00e9x"
	for _, other := range []string{"zq7kW\u00e9x", "Zq7kw\u00e9x", "ZQ7KW\u00c9X", "Zq7kW\u00c9x", "Zq7kWe\u0301x", base + " ", " " + base, base + "\t", base + base, base + "x", base[:len(base)-1], base[1:], "Zq7kWex", "Zq7kW\u00e9X", "Zq7kW \u00e9x", base + "\u200b", base + "\x00", "xZq7kW\u00e9", "Zq7\u212aW\u00e9x", "Zq6kW\u00e9x"} {
		for k, l := range [][]string{{base, other}, {other, base}} {
			jobs = append(jobs, pjob{"phrase", []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, append(l, "Qother", "Qother"), generated("Qother", "")})
			if k == 0 || e.Thorough {
				jobs = append(jobs, pjob{"keys", []string{"recover", "-in-word-file", pf, "-encrypt-keys"}, append(l, "Qother", "Qother"), recovered("Qother")})
			}
		}
	}
	// The same two, equal but for what differs only after many characters.
	for _, n := range []int{8, 16, 32, 64, 72, 128, 256, 1024} {
		l := strings.Repeat("Zq7kWp", n/6+1)[:n]
		jobs = append(jobs, pjob{"phrase", []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, []string{l + "a", l + "b", "Qother", "Qother"}, generated("Qother", "")})
	}
	e.Space("%d passwords (every byte that is no control key of the terminal, in front, in the middle and behind; white space, Unicode, lengths up to 4094) at the three kinds of prompt; %d confirmations that differ in case, white space, normal form, one character or length", n, len(jobs)-n)
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string {
			x := fmt.Sprintf("%q", j.lines)
			if len(x) > 300 {
				x = fmt.Sprintf("%s... (%d)", x[:100], len(x))
			}
			return "content " + j.name + " " + x
		}, func() error {
			t, err := e.box.Start(cli.TTYSpec{Args: j.args, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			defer t.Kill()
			for _, l := range j.lines {
				if !t.WaitPrompt() {
					return fmt.Errorf("no prompt for the next line: %q", t.Stderr())
				}
				t.Send([]byte(l + "\n"))
			}
			r, mode := t.End()
			e.Outcome("content as typed")
			return judge(&pwCase{lines: j.lines, check: j.check}, []seenStep{{did: "line"}}, r, mode, t.Orig)
		})
	})
}

// confirmations tries all sequences of lines at the prompts.
func (e *env) confirmations(pf string, enc []string, ef, ent string, generated func(a, b string) func(*cli.Result) error, recovered func(string) func(*cli.Result) error) {
	depth := 5
	if e.Thorough {
		depth = 7
	}
	alpha := []string{"", "hunter2", "hunter3"}
	type pjob struct {
		name  string
		args  []string
		lines []string
		check func(*cli.Result) error
	}
	var jobs []pjob
	var seqs [][]string
	var walk func(p []string)
	walk = func(p []string) {
		seqs = append(seqs, p)
		if len(p) < depth {
			for _, a := range alpha {
				walk(append(append([]string{}, p...), a))
			}
		}
	}
	walk(nil)
	seen := map[string]bool{}
	for _, q := range seqs {
		// The model of the confirming prompt.
		first, done := "", ""
		var lines []string
		for _, l := range q {
			lines = append(lines, l)
			if first == "" {
				first = l // an empty one is refused
			} else if l == first {
				done = first
				break
			} else {
				first = ""
			}
		}
		if done == "" {
			if first == "" {
				lines = append(lines, "hunter9")
				first = "hunter9"
			}
			lines = append(lines, first)
			done = first
		}
		key := fmt.Sprintf("%q", lines)
		if seen[key] {
			continue
		}
		seen[key] = true
		jobs = append(jobs, pjob{"phrase " + key, []string{"generate", "-encrypt-phrase", "-unsafe-entropy", ent}, lines, generated(done, "")})
		if len(lines) <= 4 || e.Thorough {
			jobs = append(jobs, pjob{"keys " + key, []string{"recover", "-in-word-file", pf, "-encrypt-keys"}, lines, recovered(done)})
		}
	}
	// The decrypting prompt.
	alpha = []string{"", wrongPassword(enc, 0), wrongPassword(enc, 1)}
	seqs = nil
	depth -= 2
	walk(nil)
	for _, q := range seqs {
		lines := append(append([]string{}, q...), demoPW)
		jobs = append(jobs, pjob{fmt.Sprintf("decrypt %q", lines), []string{"recover", "-in-word-file", ef}, lines, recovered("")})
	}
	e.Space("%d sequences of empty, equal and different lines at the confirming prompts (up to %d lines), and of empty and wrong ones at the decrypting prompt", len(jobs), depth+2)
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string { return j.name }, func() error {
			t, err := e.box.Start(cli.TTYSpec{Args: j.args, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			if t.WaitMode(cli.NoEcho) {
				t.Send([]byte(strings.Join(j.lines, "\n") + "\n"))
			}
			r, mode := t.End()
			var hist []seenStep
			for range j.lines {
				hist = append(hist, seenStep{did: "line"})
			}
			e.Outcome("lines accepted")
			return judge(&pwCase{lines: j.lines, check: j.check}, hist, r, mode, t.Orig)
		})
	})
	// Too few lines: the prompt must go on asking, and control-C ends it.
	var few []pjob
	for _, q := range [][]string{{}, {""}, {"hunter2"}, {"hunter2", ""}, {"hunter2", "hunter3"}, {"", "", "hunter2"}, {"hunter2", "hunter3", "hunter2"}, {"hunterA", "hunterB", "hunterB"}} {
		dir := e.box.Path("few")
		few = append(few, pjob{"phrase", []string{"generate", "-encrypt-phrase", "-out-word-file", filepath.Join(dir, "w")}, q, nil},
			pjob{"keys", []string{"recover", "-in-word-file", pf, "-encrypt-keys"}, q, nil})
	}
	e.Space("%d unfinished sequences, ended with control-C typed at the terminal", len(few))
	e.Parallel(len(few), func(i int) {
		j := few[i]
		e.Case()
		e.try(func() string { return fmt.Sprintf("%s %q then ^C", j.name, j.lines) }, func() error {
			t, err := e.box.Start(cli.TTYSpec{Args: j.args, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			defer t.Kill()
			for _, l := range append(append([]string{}, j.lines...), "\x03") {
				if !t.WaitPrompt() {
					return fmt.Errorf("no prompt for the next line: %q", t.Stderr())
				}
				if l == "\x03" {
					t.Send([]byte(l))
				} else {
					t.Send([]byte(l + "\n"))
				}
			}
			r, mode := t.End()
			e.Outcome("control-C")
			if r.Code == 0 || r.Hung {
				return fmt.Errorf("control-C: %s", r)
			}
			return judge(&pwCase{lines: j.lines}, []seenStep{{did: "int"}}, r, mode, t.Orig)
		})
	})
}

// keyInterrupts: the terminal's own interrupt key at a prompt that has a partial line.
func (e *env) keyInterrupts(ef string) {
	parts := []string{"", "h", "hunter", demoPW, "x\x7f"}
	e.Space("control-C after %d partial lines at the decrypting prompt", len(parts))
	e.Parallel(len(parts), func(i int) {
		e.Case()
		e.try(func() string { return fmt.Sprintf("partial %q then ^C", parts[i]) }, func() error {
			t, err := e.box.Start(cli.TTYSpec{Args: []string{"recover", "-in-word-file", ef}, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			defer t.Kill()
			if !t.WaitPrompt() {
				return errors.New("no prompt")
			}
			t.Send([]byte(parts[i] + "\x03"))
			r, mode := t.End()
			if r.Code == 0 || r.Hung {
				return fmt.Errorf("control-C: %s", r)
			}
			return judge(&pwCase{}, []seenStep{{did: "int"}}, r, mode, t.Orig)
		})
	})
}
