package main

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/kklash/wordlist4096"
	"verif/cli"
	"verif/ref"
)

func init() { checks["C36"] = c36 }

// ---- C36: the word prompts show what they will take, and no word stays on the screen ----

// view is what the screen has to show at some point of an entry.
type view struct {
	pos    int    // number of the word that is asked for
	input  string // text left of the cursor
	suffix string // text right of it
	notice int    // 1: there must be a notice, -1: there must not
	hidden []string
}

var firstNumber = regexp.MustCompile(`\d+`)

func (v *view) on(s *cli.Screen) error {
	left := s.Before()
	if !strings.HasSuffix(left, v.input) {
		return fmt.Errorf("%q is entered so far, but the screen does not show it left of the cursor:\n%s", v.input, s)
	}
	prompt := strings.TrimSuffix(left, v.input)
	if t := strings.TrimRight(prompt, " "); t == prompt || t == "" {
		return fmt.Errorf("%q is entered so far, but the screen shows more left of the cursor:\n%s", v.input, s)
	}
	if n := firstNumber.FindString(prompt); n != strconv.Itoa(v.pos) {
		return fmt.Errorf("word %d is to be entered, but the prompt is %q:\n%s", v.pos, prompt, s)
	}
	if s.After() != v.suffix {
		return fmt.Errorf("%q would be completed by %q, but the screen shows %q:\n%s", v.input, v.suffix, s.After(), s)
	}
	if b := s.Below(); v.notice > 0 && b == "" {
		return fmt.Errorf("%q (word %d) is not accepted, but nothing on the screen says so:\n%s", v.input, v.pos, s)
	} else if v.notice < 0 && b != "" {
		return fmt.Errorf("%q (word %d) is right, but the screen says %q:\n%s", v.input, v.pos, b, s)
	}
	var rest []string
	rest = append(rest, s.Scrolled...)
	for i := 0; i < s.Rows; i++ {
		if i != s.R {
			rest = append(rest, s.Row(i))
		}
	}
	return gone(strings.Join(rest, "\n"), v.hidden)
}

// gone checks that none of the words is left.
func gone(text string, words []string) error {
	if w := leaked(text, words); w != "" {
		return fmt.Errorf("the word %q is left on the screen: %q", w, strings.TrimSpace(text))
	}
	return nil
}

// shownWords gives words that the program's own texts do not have.
func shownWords(version, n int) (out []string) {
	for i := 0; len(out) < n; i++ {
		w := wordlist4096.WordList[(version*256+40+i*577)%4096]
		if len(out) == 0 && (version*256+40+i*577)%4096>>8 != version || vocabulary()[w] {
			continue
		}
		out = append(out, w)
	}
	return out
}

// watched is a session whose screen is looked at.
type watched struct {
	t   *cli.TTY
	scr *cli.Screen
	fed int
}

func (e *env) watch(args []string, rows, cols, row int) (*watched, error) {
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: uint16(rows), Cols: uint16(cols), ErrTTY: true})
	if err != nil {
		return nil, err
	}
	return &watched{t: t, scr: cli.NewScreen(rows, cols, row)}, nil
}

func (w *watched) look() {
	b := w.t.Echo()
	w.scr.Feed(b[w.fed:])
	w.fed = len(b)
}

// shows waits until the screen shows what it has to.
func (w *watched) shows(v *view) (err error) {
	d := 50 * time.Microsecond
	for end := time.Now().Add(cli.Patience / 3); ; {
		w.look()
		if err = v.on(w.scr); err == nil || len(w.scr.Odd) > 0 {
			return nil
		}
		if time.Now().After(end) || w.t.Exited() {
			return err
		}
		time.Sleep(d)
		if d < time.Millisecond {
			d += d / 4
		}
	}
}

// taken waits until the terminal has echoed the end of a line.
func (w *watched) taken(from int) {
	for end := time.Now().Add(cli.Patience / 3); time.Now().Before(end) && !w.t.Exited(); time.Sleep(100 * time.Microsecond) {
		w.look()
		if bytes.IndexByte(w.t.Echo()[from:w.fed], '\n') >= 0 {
			return
		}
	}
}

func (w *watched) end() *cli.Result {
	r, _ := w.t.End()
	w.scr.Feed(r.TTY[w.fed:])
	w.fed = len(r.TTY)
	return r
}

// editView gives what the screen has to show after a key.
func editView(m *editor, key byte, refusedNow bool) *view {
	v := &view{pos: len(m.words) + 1, input: m.input, hidden: ref.Words(m.words)}
	w, ok := complete(m.input)
	if ok {
		v.suffix = wordlist4096.WordList[w][len(m.input):]
	}
	switch {
	case m.input != "" && !ok || refusedNow:
		v.notice = 1
	case ok && key >= 'a' && key <= 'z':
		v.notice = -1
	}
	return v
}

type shownCase struct {
	keys      string
	full      bool // the keys complete the phrase
	end       string
	rows, row int
	cols      int
	cmd       string
}

func (c shownCase) String() string {
	return fmt.Sprintf("%s: type %q then %q on %d x %d from row %d", c.cmd, c.keys, c.end, c.rows, c.cols, c.row)
}

func (e *env) shownCase(c shownCase) error {
	args := []string{c.cmd}
	if c.cmd == "recover" {
		args = append(args, "-only", "master")
	}
	w, err := e.watch(args, c.rows, c.cols, c.row)
	if err != nil {
		return err
	}
	if !w.t.WaitMode(cli.Raw) {
		return fmt.Errorf("the interactive prompt did not come up: %s", w.end())
	}
	m := &editor{count: 1}
	if err := w.shows(&view{pos: 1}); err != nil {
		w.t.Kill()
		return err
	}
	typed := map[string]bool{}
	for i := 0; i < len(c.keys); i++ {
		k := c.keys[i]
		before := m.String()
		w.t.Send(c2b(k))
		done := m.key(k)
		for _, x := range ref.Words(m.words) {
			typed[x] = true
		}
		if done {
			break
		}
		if err := w.shows(editView(m, k, (k == '\r' || k == ' ') && m.String() == before)); err != nil {
			w.t.Kill()
			return fmt.Errorf("after %q: %w", c.keys[:i+1], err)
		}
	}
	if c.full && m.words[0]>>8 == 1 {
		// Nothing is left when the password is asked for, either.
		if !w.t.WaitPrompt() {
			return fmt.Errorf("no password prompt: %s", w.end())
		}
		w.look()
		if err := gone(w.scr.Text(), ref.Words(m.words)); err != nil && len(w.scr.Odd) == 0 {
			w.t.Kill()
			return fmt.Errorf("at the password prompt: %w", err)
		}
		w.t.Send([]byte("\x03"))
	}
	if c.end != "" {
		w.t.Send([]byte(c.end))
	}
	r := w.end()
	if err := r.Sane(); err != nil {
		return err
	}
	if (r.Code == 0) != (c.full && m.words[0]>>8 == 0) {
		return fmt.Errorf("ended with %s", r)
	}
	if len(w.scr.Odd) > 0 {
		e.Outcome("terminal sequences that this screen does not know")
		return nil
	}
	var all []string
	for x := range typed {
		all = append(all, x)
	}
	if c.cmd == "convert" && c.full {
		e.Outcome("converted phrase shown")
		return nil
	}
	if err := gone(w.scr.Text(), all); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	if p, ok := complete(m.input); ok && !c.full {
		if err := gone(w.scr.Text(), []string{wordlist4096.WordList[p]}); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if len(m.input) > 2 && !c.full && !vocabulary()[m.input] {
		for _, t := range tokensOf(w.scr.Text()) {
			if t == m.input {
				return fmt.Errorf("at the end the text %q is left on the screen:\n%s", m.input, w.scr)
			}
		}
	}
	if c.full {
		e.Outcome("whole entry shown right, nothing left")
	} else {
		e.Outcome("aborted entry shown right, nothing left")
	}
	return nil
}

func c2b(b byte) []byte { return []byte{b} }

func c36(e *env) {
	v0, v1 := shownWords(0, 14), shownWords(1, 16)
	bad := shownWords(11, 1)[0]
	left := "\x1b[D"
	tokens := []string{v0[0] + "\r", v1[0][:4] + " ", v0[5] + " ", bad + "\r", "ca\t", "a", "\r", " ", "\x7f", "\x7f\x7f\x7f", left, "\x1b[CZ7", "zq", "\t"}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	type screen struct{ rows, cols, row int }
	screens := []screen{{24, 80, 0}, {24, 80, 23}, {50, 132, 7}, {12, 80, 11}, {4, 100, 3}}
	var cases []shownCase
	var walk func(prefix string, m *editor, d int)
	walk = func(prefix string, m *editor, d int) {
		e.Visit(m.String())
		if d == 0 {
			n := len(cases)
			s := screens[n%len(screens)]
			cases = append(cases, shownCase{prefix, false, []string{"\x03", "\x04"}[n%2], s.rows, s.row, s.cols, []string{"recover", "convert"}[n/2%2]})
			return
		}
		for _, t := range tokens {
			if n := m.clone(); !n.feed(t) {
				walk(prefix+t, n, d-1)
			}
		}
	}
	walk("", &editor{count: 1}, depth)
	e.Space("all sequences of %d of %d key groups %q at the first words, the screen compared after every key: %d sessions", depth, len(tokens), tokens, len(cases))
	n := len(cases)
	// Whole entries, with a detour before each word, on every screen.
	detours := []string{"", "zzq\x7f\x7f\x7f", "\r", bad[:3] + "\x7f\x7f\x7f", "ca\t" + strings.Repeat("\x7f", 12), "abcdefgh" + strings.Repeat("\x7f", 8)}
	for v, base := range [][]string{v0, v1} {
		if v == 1 && !e.Thorough {
			continue
		}
		for _, s := range screens {
			for _, d := range detours {
				for at := -1; at < len(base); at++ {
					for _, cmd := range []string{"recover", "convert"} {
						if cmd == "convert" && at > 0 && !e.Thorough {
							continue
						}
						m := &editor{count: 1}
						keys := ""
						do := func(k string) {
							keys += k
							m.feed(k)
						}
						for i := 0; i < len(base)-1; i++ {
							if at == i || at < 0 {
								do(d)
								if i > 0 {
									do(left)
									do(base[i-1] + " ")
								}
							}
							do(base[i] + []string{"\r", " "}[i%2])
						}
						keys += m.finish(at + 3)
						cases = append(cases, shownCase{keys, true, "", s.rows, s.row, s.cols, cmd})
					}
				}
			}
		}
	}
	e.Space("%d whole entries with a detour before a word or before every word, on %d screens", len(cases)-n, len(screens))
	n = len(cases)
	// Encrypted phrases up to their last word, and the password prompt after it.
	for i, s := range screens {
		m := &editor{count: 1}
		keys := m.finish(2*i + 1)
		cases = append(cases, shownCase{keys, true, "", s.rows, s.row, s.cols, []string{"recover", "convert"}[i%2]})
		for k := 1; k < len(v1); k++ {
			cases = append(cases, shownCase{strings.Join(v1[:k], " ") + " " + v1[k][:3], false, "\x03", s.rows, s.row, s.cols, "recover"})
		}
	}
	// Every word of the list: text, completion and no remains.
	step := 8
	words := wordlist4096.WordList
	for i := 0; i < len(words); i += step {
		keys := v0[0] + "\r"
		for _, w := range words[i:min(i+step, len(words))] {
			keys += w + strings.Repeat("\x7f", len(w)-1) + w[1:] + "\r"
		}
		s := screens[i/step%len(screens)]
		cases = append(cases, shownCase{keys, false, "\x04", s.rows, s.row, s.cols, "recover"})
	}
	e.Space("%d more: all prefixes of an encrypted phrase, and each of the 4096 words typed, taken back and typed again", len(cases)-n)
	e.Parallel(len(cases), func(i int) {
		e.Trace()
		e.Steps(len(cases[i].keys))
		e.try(cases[i].String, func() error { return e.shownCase(cases[i]) })
	})
	e.shownSimple(v0, bad, screens[0].rows)
}

// shownSimple looks at the screen of line-by-line entry: each line is wiped when it has been taken.
func (e *env) shownSimple(v0 []string, bad string, _ int) {
	type sc struct {
		lines     []string
		eof       bool
		rows, row int
		cols      int
	}
	tokens := []string{v0[0], v0[5], strings.ToUpper(v0[7]), bad, "zzz", "", "  " + v0[3] + " ", v0[2] + " " + v0[4]}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	var cases []sc
	type screen struct{ rows, cols, row int }
	screens := []screen{{24, 80, 0}, {24, 80, 23}, {50, 132, 7}, {5, 100, 4}}
	var walk func(l []string, d int)
	walk = func(l []string, d int) {
		if d == 0 {
			s := screens[len(cases)%len(screens)]
			cases = append(cases, sc{append([]string{}, l...), true, s.rows, s.row, s.cols})
			return
		}
		for _, t := range tokens {
			walk(append(append([]string{}, l...), t), d-1)
		}
	}
	walk(nil, depth)
	for _, s := range screens {
		m := &editor{count: 1}
		m.finish(2)
		w := ref.Words(m.words)
		cases = append(cases, sc{w, false, s.rows, s.row, s.cols})
		for i := range w {
			for _, t := range tokens[3:6] {
				if i > 0 && t == bad {
					continue // a word like any other there
				}
				cases = append(cases, sc{append(append(append([]string{}, w[:i]...), t), w[i:]...), false, s.rows, s.row, s.cols})
			}
		}
	}
	e.Space("line-by-line entry on a terminal: all sequences of %d of %d lines, and whole entries with a refused line at every position: %d", depth, len(tokens), len(cases))
	e.Parallel(len(cases), func(i int) {
		c := cases[i]
		e.Trace()
		e.Steps(len(c.lines))
		e.try(func() string {
			return fmt.Sprintf("lines %q on %d x %d from row %d", c.lines, c.rows, c.cols, c.row)
		}, func() error {
			w, err := e.watch([]string{"recover", "-simple", "-only", "master"}, c.rows, c.cols, c.row)
			if err != nil {
				return err
			}
			if err := w.shows(&view{pos: 1}); err != nil {
				w.t.Kill()
				return err
			}
			var text string
			var hidden []string
			for _, l := range c.lines {
				n, _ := lineWords(text)
				text += l + "\n"
				words, done := lineWords(text)
				for _, t := range tokensOf(l) {
					if !vocabulary()[t] {
						hidden = append(hidden, t)
					}
				}
				from := w.fed
				w.t.Send([]byte(l + "\n"))
				if done {
					break
				}
				w.taken(from)
				v := &view{pos: len(words) + 1, hidden: hidden}
				if len(n) == len(words) {
					v.notice = 1
				} else {
					v.notice = -1
				}
				if err := w.shows(v); err != nil {
					w.t.Kill()
					return fmt.Errorf("after %q: %w", text, err)
				}
			}
			if c.eof {
				w.t.Send([]byte("\x04"))
			}
			r := w.end()
			if err := r.Sane(); err != nil {
				return err
			}
			if (r.Code != 0) != c.eof {
				return fmt.Errorf("ended with %s", r)
			}
			e.Outcome("lines wiped")
			return gone(w.scr.Text(), hidden)
		})
	})
}
