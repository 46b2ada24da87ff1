package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/kklash/wordlist4096"
	"verif/cli"
	"verif/ref"
)

func init() { checks["C23"] = c23 }

// ---- the model of the interactive prompt ----

// editor is the state of the prompt: the words submitted so far and the text of the current one.
type editor struct {
	words []uint16
	input string
	count int
}

func (m *editor) clone() *editor {
	c := *m
	c.words = append([]uint16{}, m.words...)
	return &c
}

// complete gives the first word of the list that starts with the text.
func complete(text string) (uint16, bool) {
	if text == "" {
		return 0, false
	}
	for i, w := range wordlist4096.WordList {
		if strings.HasPrefix(w, text) {
			return uint16(i), true
		}
	}
	return 0, false
}

// key feeds one byte to the model, and reports whether the phrase is complete.
func (m *editor) key(c byte) bool {
	switch {
	case c >= 'a' && c <= 'z':
		m.input += string(c)
	case c == 0x7f:
		if m.input != "" {
			m.input = m.input[:len(m.input)-1]
		}
	case c == 'D': // the last byte of the left arrow's sequence
		if len(m.words) > 0 {
			m.words = m.words[:len(m.words)-1]
		}
		m.input = ""
	case c == '\t':
		if w, ok := complete(m.input); ok {
			m.input = wordlist4096.WordList[w]
		}
	case c == '\r' || c == ' ':
		w, ok := complete(m.input)
		if !ok {
			break
		}
		if len(m.words) == 0 {
			n := ref.WordCount(int(w >> 8))
			if n == 0 {
				break
			}
			m.count = n
		}
		m.words = append(m.words, w)
		m.input = ""
		return len(m.words) == m.count
	}
	return false
}

func (m *editor) feed(keys string) bool {
	for i := 0; i < len(keys); i++ {
		if m.key(keys[i]) {
			return true
		}
	}
	return false
}

func (m *editor) String() string { return fmt.Sprint(m.words, m.input, m.count) }

// finish gives keystrokes that complete the phrase to a valid one from where it is, and moves the model there.
func (m *editor) finish(style int) string {
	var keys string
	do := func(k string) {
		keys += k
		m.feed(k)
	}
	do(strings.Repeat("\x7f", len(m.input)))
	if len(m.words) == 0 {
		do(wordlist4096.WordList[style%2*256+17] + "\r")
	}
	for len(m.words) < m.count-1 {
		n := len(m.words)
		do(wordlist4096.WordList[(n*331+style*7)%4096] + []string{"\r", " "}[n%2])
	}
	idx := append(append([]uint16{}, m.words...), uint16(style*96)&0xfff)
	ref.FixChecksum(idx)
	do(wordlist4096.WordList[idx[m.count-1]] + "\r")
	return keys
}

// open gives the seed and creation offset of the model's phrase, and the password to type for an encrypted one.
func (m *editor) open() (s ref.Seed16, off uint32, pw string, err error) {
	f, why := ref.Parse(ref.Words(m.words))
	if len(why) != 0 {
		return s, 0, "", fmt.Errorf("model phrase invalid: %v", why)
	}
	if f.Version == 0 {
		return f.Seed, f.Offset, "", nil
	}
	for i := 0; ; i++ {
		pw = fmt.Sprintf("p%d", i)
		if s, ok := ref.Decrypt(f, []byte(pw)); ok {
			return s, f.Offset, pw, nil
		}
	}
}

// enter types keys at the interactive prompt, then the password if there is one, and gives the end.
func (e *env) enter(args []string, keys, pw string) (*cli.Result, error) {
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
	if err != nil {
		return nil, err
	}
	if !t.WaitMode(cli.Raw) {
		r, _ := t.End()
		return r, errors.New("the interactive prompt did not come up: " + r.String())
	}
	t.Send([]byte(keys))
	if pw != "" {
		if !t.WaitMode(cli.NoEcho) {
			r, _ := t.End()
			return r, errors.New("the words typed did not lead to the password prompt: " + r.String())
		}
		t.Send([]byte(pw + "\n"))
	}
	r, mode := t.End()
	if r.Hung {
		return r, fmt.Errorf("after all words the command still waits: %s", r)
	}
	if mode != t.Orig {
		return r, errors.New("the terminal is left in another mode")
	}
	return r, nil
}

func show(keys string) string { return fmt.Sprintf("%q", keys) }

// entryCase types keys and a valid ending and compares the key with the one of the model's words.
func (e *env) entryCase(keys string, style int) error {
	m := &editor{count: 1}
	if m.feed(keys) {
		return errors.New("the case completes a phrase by itself")
	}
	all := keys + m.finish(style)
	seed, off, pw, err := m.open()
	if err != nil {
		return err
	}
	r, err := e.enter([]string{"recover", "-only", "master,signing"}, all, pw)
	if err != nil {
		return fmt.Errorf("%v (model: %d words of %d)", err, len(m.words), m.count)
	}
	if err := succeeded(r); err != nil {
		return err
	}
	e.Outcome(fmt.Sprintf("key of a version %d phrase", m.words[0]>>8))
	return keyIs(r.Out, expect(seed, off, ref.Opts{Name: "anonymous", Select: []string{"signing"}}, true, true))
}

func (e *env) entry(keys string, style int) {
	e.Trace()
	e.Steps(len(keys))
	e.try(func() string { return "type " + show(keys) }, func() error { return e.entryCase(keys, style) })
}

func c23(e *env) {
	v0, v1, bad := wordlist4096.WordList[40], wordlist4096.WordList[300], wordlist4096.WordList[3000]
	left := "\x1b[D"
	tokens := []string{v0 + "\r", v1[:4] + " ", bad + "\r", "ca\t", "a", "\r", " ", "\x7f", left, "\x1b[CZ7\n", "zq", "\t"}
	depth := 4
	if e.Thorough {
		depth = 5
	}
	// All sequences up to the depth; states that the model has seen at the same or a smaller depth are still
	// executed (the real prompt might differ), but counted once.
	var seqs []string
	var walk func(prefix string, m *editor, d int)
	walk = func(prefix string, m *editor, d int) {
		seqs = append(seqs, prefix)
		e.Visit(m.String())
		if d == 0 {
			return
		}
		for _, t := range tokens {
			n := m.clone()
			if n.feed(t) {
				continue
			}
			walk(prefix+t, n, d-1)
		}
	}
	walk("", &editor{count: 1}, depth)
	e.Space("all sequences of up to %d of %d key groups %q at the first words: %d", depth, len(tokens), tokens, len(seqs))
	e.Parallel(len(seqs), func(i int) { e.entry(seqs[i], i) })

	// Going back: n words, k steps back, then on; at every position of both versions.
	w := func(i int) string { return wordlist4096.WordList[(i*577+91)%4096] + "\r" }
	run := func(first string, n int) string {
		s := first + "\r"
		for i := 1; i < n; i++ {
			s += w(i)
		}
		return s
	}
	var back []string
	for v, first := range []string{v0, v1} {
		for n := 1; n < ref.WordCount(v); n++ {
			for k := 1; k <= n+1; k++ {
				if !e.Thorough && n > 4 && n < ref.WordCount(v)-1 && k > 2 && k < n {
					continue
				}
				s := run(first, n) + strings.Repeat(left, k)
				back = append(back, s, run(first, n)+"ab"+strings.Repeat(left, k)+"ab\x7f\x7f"+left)
				for _, f2 := range []string{v0, v1, wordlist4096.WordList[9]} {
					// back again, then other words, then once more back
					re := s
					if k >= n {
						re += f2 + "\r"
					}
					back = append(back, re+w(50)+w(51)[:3]+left+w(52)[:2]+"\t"+"\x7f", re+left)
				}
			}
		}
	}
	kept := back[:0]
	for _, s := range back {
		m := &editor{count: 1}
		if !m.feed(s) {
			kept = append(kept, s)
			e.Visit(m.String())
		}
	}
	back = kept
	e.Space("going back k steps after n words, for all n and k of both versions, retyping words and changing the version: %d", len(back))
	e.Parallel(len(back), func(i int) { e.entry(back[i], i) })

	// Every word of the list, typed in full, by its shortest unambiguous prefix, and with TAB.
	var lines [3][]string
	for i, word := range wordlist4096.WordList {
		p := word
		for n := 1; n <= len(word); n++ {
			if c, _ := complete(word[:n]); int(c) == i {
				p = word[:n]
				break
			}
		}
		lines[0] = append(lines[0], word+"\r")
		lines[1] = append(lines[1], p+" ")
		lines[2] = append(lines[2], p+"\t\x7f\t\r")
	}
	var sess []string
	for k, l := range lines {
		if k == 2 && !e.Thorough {
			break
		}
		for i := 0; i < len(l); i += 12 {
			end := i + 12
			if end > len(l) {
				end = len(l)
			}
			sess = append(sess, v0+"\r"+strings.Join(l[i:end], ""))
		}
	}
	e.Space("each of the 4096 words entered in full, by its shortest unambiguous prefix%s: %d sessions", map[bool]string{true: " and by TAB"}[e.Thorough], len(sess))
	e.Parallel(len(sess), func(i int) { e.entry(sess[i], 2*i) })
	first := []int{}
	for i := 0; i < 4096; i++ {
		if i < 512 || i%16 == 0 || e.Thorough {
			first = append(first, i)
		}
	}
	e.Space("%d words as first word", len(first))
	e.Parallel(len(first), func(i int) { e.entry(wordlist4096.WordList[first[i]]+"\r", i) })

	// Long text in a word, taken back.
	top := 40
	if e.Thorough {
		top = 300
	}
	var long []string
	for g := 0; g <= top; g++ {
		junk := strings.Repeat("qzxjkv", g/6+1)[:g]
		for _, word := range []string{v0, wordlist4096.WordList[1234], "zone"} {
			for p := 0; p <= len(word); p++ {
				if !e.Thorough && p > 2 && p < len(word)-1 {
					continue
				}
				del := strings.Repeat("\x7f", g)
				long = append(long, v0+"\r"+word[:p]+junk+del+word[p:]+"\r")
				if p == 2 {
					long = append(long, v0+"\r"+word[:p]+junk+" \r\t"+del+word[p:]+"\r", v0+"\r"+word[:p]+junk+del+"\x7f"+word[p-1:]+"\r",
						v0+"\r"+word[:p]+junk+del+"\x7f\x7f\x7f"+word+"\r", word[:p]+junk+del+"\x7f\x7f"+v1+"\r", word+junk+left+v0+"\r")
				}
			}
		}
	}
	kept = nil
	for _, s := range long {
		m := &editor{count: 1}
		if !m.feed(s) {
			kept = append(kept, s)
			e.Visit(m.String())
		}
	}
	long = kept
	e.Space("up to %d wrong letters in a word, taken back one by one: %d sessions", top, len(long))
	e.Parallel(len(long), func(i int) { e.entry(long[i], i) })

	// Single stray bytes: every byte but the ones with a meaning, anywhere in a word.
	var stray []byte
	for b := 0; b < 256; b++ {
		if b >= 'a' && b <= 'z' || strings.IndexByte("\x03\x04\x08\t\n\r \x7fD", byte(b)) >= 0 {
			continue
		}
		stray = append(stray, byte(b))
	}
	e.Space("%d bytes without a meaning, before, inside and after a word", len(stray))
	e.Parallel(len(stray), func(i int) {
		s := string(stray[i : i+1])
		e.entry(s+v0[:2]+s+v0[2:]+s+"\r"+s+"zo"+s+" ", i)
	})

	// Aborting at every point.
	var cut []string
	for i := 0; i < len(seqs); i++ {
		if strings.Count(seqs[i], "") < 40 && (i < 200 || i%29 == 0 || e.Thorough && i%3 == 0) {
			cut = append(cut, seqs[i])
		}
	}
	full := run(v0, 13)
	for i := 0; i <= len(full); i++ {
		cut = append(cut, full[:i])
	}
	e.Space("control-C, control-D and hanging up (with and without a hangup signal) after %d histories, among them every prefix of a whole entry", len(cut))
	e.Parallel(len(cut)*2, func(i int) {
		keys, cmd := cut[i/2], []string{"recover", "convert"}[i%2]
		for _, how := range []string{"^C", "^D", "hangup", "eof"} {
			e.Case()
			e.try(func() string { return fmt.Sprintf("%s: type %s then %s", cmd, show(keys), how) }, func() error { return e.abort(cmd, keys, how) })
		}
	})
}

func (e *env) abort(cmd, keys, how string) error {
	t, err := e.box.Start(cli.TTYSpec{Args: []string{cmd}, Rows: 24, Cols: 80, NoCtty: how == "eof"})
	if err != nil {
		return err
	}
	if !t.WaitMode(cli.Raw) {
		r, _ := t.End()
		return errors.New("the interactive prompt did not come up: " + r.String())
	}
	switch how {
	case "^C":
		t.Send([]byte(keys + "\x03"))
	case "^D":
		t.Send([]byte(keys + "\x04"))
	default:
		t.Send([]byte(keys))
		if len(keys) > 0 {
			time.Sleep(2 * time.Millisecond)
		}
		t.HangUp()
	}
	r, mode := t.End()
	if r.Hung {
		return fmt.Errorf("still there after %s: %s", how, r)
	}
	if len(r.Out) != 0 {
		return fmt.Errorf("aborted, but wrote to standard output: %s", r)
	}
	if r.Code == 0 {
		return fmt.Errorf("aborted, but the exit status is 0: %s", r)
	}
	if bytes.Contains(r.Err, []byte("\ngoroutine ")) {
		return fmt.Errorf("the command crashed: %s", r)
	}
	e.Outcome("aborted by " + how)
	if how == "^C" || how == "^D" {
		if r.Sig != 0 {
			return fmt.Errorf("the command died of %v", r.Sig)
		}
		if mode != t.Orig {
			return errors.New("the terminal is left in another mode")
		}
	}
	return nil
}
