package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"verif/cli"
	"verif/ref"
)

func init() {
	checks["C19"] = c19
	checks["C20"] = c20
	checks["C21"] = c21
}

// ---- C19 ----

type genCase struct {
	name, email, ttl string // "-" means not given
	sel              selection
	file, verbose    bool
	entropy          string // "", "file", "stdin"
	encPhrase        string // password, or "" for plaintext
	encKeys          string
	n                int
	slow             int // number of the typed line before which the user waits into another second; 0 for none
}

func (g genCase) String() string {
	return fmt.Sprintf("generate name=%s email=%s ttl=%s only=%s file=%v verbose=%v entropy=%s phrase-password=%q key-password=%q #%d slow=%d",
		g.name, g.email, g.ttl, g.sel.text, g.file, g.verbose, g.entropy, g.encPhrase, g.encKeys, g.n, g.slow)
}

func (g genCase) args() (args []string) {
	if g.name != "-" {
		args = append(args, "-name", g.name)
	}
	if g.email != "-" {
		args = append(args, "-email", g.email)
	}
	if g.ttl != "-" {
		args = append(args, "-ttl", g.ttl)
	}
	if g.sel.text != "" {
		args = append(args, "-only", g.sel.text)
	}
	if g.verbose {
		args = append(args, "-verbose")
	}
	if g.encKeys != "" {
		args = append(args, "-encrypt-keys")
	}
	return
}

func (g genCase) opts() ref.Opts {
	o := g.sel.opts
	o.Name = "anonymous"
	if g.name != "-" {
		o.Name = g.name
	}
	if g.email != "-" {
		o.Email = g.email
	}
	switch g.ttl {
	case "1d":
		o.TTL = 86400
	case "2Y":
		o.TTL = 2 * 365 * 86400
	}
	return o
}

// onTTY runs a command whose passwords are typed at the terminal when its first password prompt is up.
func (e *env) onTTY(args []string, passwords string) (*cli.Result, error) {
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
	if err != nil {
		return nil, err
	}
	if t.WaitMode(cli.NoEcho) {
		t.Send([]byte(passwords))
	}
	r, _ := t.Wait()
	return r, nil
}

// slowTTY types line after line, each when a prompt waits for it, and waits into another second before one of them.
func (e *env) slowTTY(args []string, lines []string, slow int) (*cli.Result, error) {
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80})
	if err != nil {
		return nil, err
	}
	for i, l := range lines {
		if !t.WaitPrompt() {
			break
		}
		if i+1 == slow {
			time.Sleep(1100 * time.Millisecond)
		}
		t.Send([]byte(l + "\n"))
	}
	r, _ := t.End()
	return r, nil
}

// slowRun runs a command whose standard input says nothing for more than a second.
func (e *env) slowRun(args []string, stdin []byte, cut int) *cli.Result {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	go func() {
		pw.Write(stdin[:cut])
		time.Sleep(1100 * time.Millisecond)
		pw.Write(stdin[cut:])
		pw.Close()
	}()
	defer pr.Close()
	return e.box.Run(cli.Spec{Args: args, In: pr})
}

func (e *env) genCase(g genCase) error {
	args := append([]string{"generate"}, g.args()...)
	entropy := make([]byte, 40)
	for i := range entropy {
		entropy[i] = byte(i*37 + g.n*101 + 1)
	}
	var stdin []byte
	switch g.entropy {
	case "file":
		args = append(args, "-unsafe-entropy", e.box.File("entropy", entropy))
	case "stdin":
		args = append(args, "-unsafe-entropy", "-")
		stdin = entropy
	}
	wordFile := ""
	if g.file {
		wordFile = e.box.Path("words")
		defer os.Remove(wordFile)
		args = append(args, "-out-word-file", wordFile)
	}
	typed := ""
	if g.encKeys != "" {
		typed += g.encKeys + "\n" + g.encKeys + "\n"
	}
	if g.encPhrase != "" {
		args = append(args, "-encrypt-phrase")
		typed += g.encPhrase + "\n" + g.encPhrase + "\n"
	}
	before := time.Now().Unix()
	var r *cli.Result
	var err error
	if typed != "" && g.slow > 0 {
		if r, err = e.slowTTY(args, strings.Split(strings.TrimSuffix(typed, "\n"), "\n"), g.slow); err != nil {
			return err
		}
	} else if typed != "" {
		if r, err = e.onTTY(args, typed); err != nil {
			return err
		}
	} else if g.slow > 0 {
		r = e.slowRun(args, stdin, g.slow-1)
	} else {
		r = e.box.Run(cli.Spec{Args: args, Stdin: stdin})
	}
	after := time.Now().Unix()
	if err := succeeded(r); err != nil {
		return err
	}
	// The phrase is where it was asked for, and nowhere else.
	shown := cli.Phrase(r.Err)
	words := shown
	if g.file {
		b, err := os.ReadFile(wordFile)
		if err != nil {
			return err
		}
		words = strings.Fields(string(b))
		if len(shown) != 0 || bytes.Contains(r.Err, []byte(strings.Join(words[:4], " "))) || bytes.Contains(r.Out, []byte(words[0]+" "+words[1])) {
			return fmt.Errorf("the phrase was saved to the file but also shown: %s", r)
		}
	}
	seed, off, enc, err := seedOf(words, g.encPhrase)
	if err != nil {
		return err
	}
	if enc != (g.encPhrase != "") {
		return fmt.Errorf("phrase encrypted: %v", enc)
	}
	if c := ref.Epoch + int64(off); c < before || c > after {
		return fmt.Errorf("created at %d, but the time was %d to %d", c, before, after)
	}
	if g.entropy != "" {
		s, err := mnemonikey.GenerateSeed(bytes.NewReader(entropy))
		if err != nil {
			return err
		}
		if !bytes.Equal(s.Bytes(), seed[:]) {
			return fmt.Errorf("seed %x does not come from the entropy given (%x)", seed, s.Bytes())
		}
	}
	// The key belongs to the phrase.
	x := expect(seed, off, g.opts(), g.sel.master, true)
	if g.encKeys != "" {
		x.Password, x.Open = []byte(g.encKeys), true
	}
	if err := keyIs(r.Out, x); err != nil {
		return err
	}
	// And recover agrees.
	wf := e.box.File("in", joined(words))
	defer os.Remove(wf)
	rargs := append([]string{"recover", "-in-word-file", wf}, g.args()...)
	var rr *cli.Result
	switch {
	case g.encPhrase != "":
		typed = g.encPhrase + "\n"
		if g.encKeys != "" {
			typed += g.encKeys + "\n" + g.encKeys + "\n"
		}
		if rr, err = e.onTTY(rargs, typed); err != nil {
			return err
		}
	case g.encKeys != "":
		if rr, err = e.onTTY(rargs, g.encKeys+"\n"+g.encKeys+"\n"); err != nil {
			return err
		}
	default:
		rr = e.box.Run(cli.Spec{Args: rargs})
	}
	if err := succeeded(rr); err != nil {
		return err
	}
	if g.encKeys != "" {
		return keyIs(rr.Out, x)
	}
	if !bytes.Equal(rr.Out, r.Out) {
		return fmt.Errorf("recover prints another key than generate: %q and %q", rr.Out, r.Out)
	}
	return nil
}

func c19(e *env) {
	var cases []genCase
	n := 0
	add := func(g genCase) {
		n++
		g.n = n
		cases = append(cases, g)
	}
	sels := selections()
	for _, sel := range sels {
		for _, name := range []string{"-", "Alice B", ""} {
			for _, email := range []string{"-", "a@example.org"} {
				for _, ttl := range []string{"-", "1d", "2Y"} {
					for _, file := range []bool{false, true} {
						for _, verbose := range []bool{false, true} {
							ent := []string{"", "file", "stdin"}
							if !e.Thorough {
								ent = ent[n%3 : n%3+1]
							}
							for _, x := range ent {
								add(genCase{name: name, email: email, ttl: ttl, sel: sel, file: file, verbose: verbose, entropy: x})
							}
						}
					}
				}
			}
		}
	}
	plain := n
	pws := []string{"x", "pass word", "ünïcödé", strings.Repeat("long", 40)}
	for _, sel := range sels {
		for i, file := range []bool{false, true, true, false} {
			for j, pw := range pws {
				if !e.Thorough && (i+j)%2 == 1 {
					continue
				}
				add(genCase{name: "-", email: "-", ttl: "-", sel: sel, file: file, verbose: i >= 2, entropy: []string{"", "file"}[i%2], encPhrase: pw})
			}
		}
	}
	enc := n - plain
	for i, sel := range sels {
		if !e.Thorough && i%3 != 0 {
			continue
		}
		for _, ph := range []string{"", "phrase pw"} {
			add(genCase{name: "K", email: "-", ttl: "1d", sel: sel, file: i%2 == 0, entropy: "file", encKeys: "key pw", encPhrase: ph})
		}
	}
	quickly := n
	for _, file := range []bool{false, true} {
		for _, sel := range []selection{sels[0], sels[1], sels[6]} {
			for _, ph := range []string{"", "phrase pw"} {
				for _, kp := range []string{"", "key pw"} {
					lines := 0
					if ph != "" {
						lines += 2
					}
					if kp != "" {
						lines += 2
					}
					for slow := 1; slow <= lines; slow++ {
						add(genCase{name: "-", email: "-", ttl: "1d", sel: sel, file: file, entropy: []string{"", "file"}[n%2], encKeys: kp, encPhrase: ph, slow: slow})
					}
				}
			}
			for _, cut := range []int{1, 2, 17} {
				add(genCase{name: "-", email: "-", ttl: "1d", sel: sel, file: file, entropy: "stdin", slow: cut})
			}
		}
	}
	e.Space("%d sessions in which the user or the entropy source takes more than a second at some point: the phrase has the key's second", n-quickly)
	e.Space("generate then recover for %d option combinations without passwords, %d with an encrypted phrase, %d with encrypted keys", plain, enc, quickly-plain-enc)
	e.Parallel(len(cases), func(i int) {
		e.States(1)
		e.Steps(2)
		e.Trace()
		e.try(cases[i].String, func() error {
			err := e.genCase(cases[i])
			if err == nil {
				e.Outcome(fmt.Sprintf("phrase encrypted=%v keys encrypted=%v", cases[i].encPhrase != "", cases[i].encKeys != ""))
			}
			return err
		})
	})
	// Without a given source, every key is another one.
	m := 64
	e.Space("%d keys from the system's random source: all seeds different", m)
	var all [64]ref.Seed16
	e.Parallel(m, func(i int) {
		e.Case()
		e.try(func() string { return fmt.Sprint("fresh ", i) }, func() error {
			r := e.box.Cmd("generate")
			if err := succeeded(r); err != nil {
				return err
			}
			s, _, _, err := seedOf(cli.Phrase(r.Err), "")
			all[i] = s
			return err
		})
	})
	if !e.Violated() && e.Wanted(func() string { return "fresh seeds" }) {
		count := map[ref.Seed16]int{}
		for _, s := range all {
			if count[s]++; count[s] > 1 {
				e.Bad("fresh seeds", "seed %x came twice", s)
			}
		}
		for b := 0; b < 128; b++ {
			k := 0
			for _, s := range all {
				k += int(s[b/8] >> uint(b%8) & 1)
			}
			if k == 0 || k == m {
				e.Bad("fresh seeds", "bit %d of the seeds never changes", b)
			}
		}
	}
}

// ---- C20 ----

func c20(e *env) {
	wf := e.box.File("words", joined(plainPhrase()))
	rec := func(id string, args []string, want *ref.Expect) {
		e.Case()
		e.try(func() string { return id }, func() error {
			r := e.box.Cmd(append([]string{"recover", "-in-word-file", wf}, args...)...)
			if want == nil {
				e.Outcome("refused")
				return refused(r)
			}
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome("key")
			return keyIs(r.Out, want)
		})
	}
	type job struct {
		id   string
		args []string
		want *ref.Expect
	}
	var jobs []job
	add := func(args []string, want *ref.Expect) {
		jobs = append(jobs, job{"recover " + strings.Join(args, " "), args, want})
	}
	anon := func(o ref.Opts) ref.Opts {
		if o.Name == "" && o.Email == "" {
			o.Name = "anonymous"
		}
		return o
	}
	// All -only lists up to three elements.
	els := []string{"master", "encryption", "signing", "authentication", "", "bogus", "Master", " encryption", "subkeys"}
	var lists [][]string
	for _, a := range els {
		lists = append(lists, []string{a})
		for _, b := range els {
			lists = append(lists, []string{a, b})
			for _, c := range els {
				lists = append(lists, []string{a, b, c})
			}
		}
	}
	lists = append(lists, []string{"master", "encryption", "signing", "authentication"}, []string{"signing", "authentication", "encryption", "master"},
		[]string{"signing", "signing", "encryption", "encryption", "signing"}, []string{"signing", "signing", "encryption", "encryption", "x"})
	for _, l := range lists {
		text := strings.Join(l, ",")
		if text == "" {
			continue // the same as no option
		}
		o := ref.Opts{Select: []string{}}
		master, ok := false, true
		for _, t := range l {
			switch t {
			case "master":
				master = true
			case "encryption", "signing", "authentication":
				o.Select = append(o.Select, t)
			default:
				ok = false
			}
		}
		var want *ref.Expect
		if ok {
			want = expect(demoSeed, demoOffset, anon(o), master, true)
		}
		add([]string{"-only", text}, want)
		if len(l) < 3 {
			add([]string{"-only=" + text}, want)
		}
	}
	e.Space("all -only lists of 1..3 elements over %d (valid, unknown, empty, wrongly cased) key types", len(els))
	// Indices.
	idx := []string{"0", "1", "2", "255", "256", "257", "32767", "32768", "65534", "65535", "65536", "65537", "131071", "131072", "4294967295", "4294967296", "4294967297",
		"18446744073709551615", "18446744073709551616", "18446744073709617153", "99999999999999999999", "-1", "-65536", "abc", "1.5", "1e2", "1 ", "", "١"}
	for _, f := range []string{"-enc-index", "-auth-index", "-sig-index"} {
		for _, sel := range selections() {
			for _, v := range idx {
				if !e.Thorough && sel.text != "" && sel.text != "encryption" && sel.text != "authentication,signing" && sel.text != "master" {
					continue
				}
				o := anon(sel.opts)
				n, err := strconv.ParseUint(v, 10, 64)
				var want *ref.Expect
				if err == nil && n <= 65535 {
					switch f {
					case "-enc-index":
						o.Enc = uint16(n)
					case "-auth-index":
						o.Auth = uint16(n)
					default:
						o.Sig = uint16(n)
					}
					want = expect(demoSeed, demoOffset, o, sel.master, true)
				}
				args := []string{f + "=" + v}
				if sel.text != "" {
					args = append(args, "-only", sel.text)
				}
				add(args, want)
			}
		}
	}
	e.Space("%d index texts (boundaries of 16, 32 and 64 bits, signs, garbage) for each of the three index options x selections", len(idx))
	var three []uint16 = []uint16{0, 1, 65535}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				for _, sel := range selections() {
					o := anon(sel.opts)
					o.Enc, o.Auth, o.Sig = a, b, c
					args := []string{"-enc-index", fmt.Sprint(a), "-auth-index", fmt.Sprint(b), "-sig-index", fmt.Sprint(c)}
					if sel.text != "" {
						args = append(args, "-only", sel.text)
					}
					add(args, expect(demoSeed, demoOffset, o, sel.master, true))
				}
			}
		}
	}
	e.Space("all combinations of indices {0,1,65535}^3 x 16 selections")
	// Good and bad indices together, whichever subkeys are selected.
	vals := []string{"", "0", "1", "65535", "65536", "65537", "131072", "4294967297"}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				bad := false
				var args []string
				var got [3]uint16
				for i, v := range []string{a, b, c} {
					if v != "" {
						n, _ := strconv.ParseUint(v, 10, 64)
						bad = bad || n > 65535
						got[i] = uint16(n)
						args = append(args, []string{"-enc-index", "-auth-index", "-sig-index"}[i], v)
					}
				}
				for i, sel := range selections() {
					if !bad && i > 0 || !e.Thorough && sel.text != "" && sel.text != "encryption" && sel.text != "authentication,signing" && sel.text != "master" {
						continue
					}
					x := args
					if sel.text != "" {
						x = append(append([]string{}, args...), "-only", sel.text)
					}
					if bad {
						add(x, nil)
					} else {
						o := anon(sel.opts)
						o.Enc, o.Auth, o.Sig = got[0], got[1], got[2]
						add(x, expect(demoSeed, demoOffset, o, sel.master, true))
					}
				}
			}
		}
	}
	e.Space("all combinations of %d index values, too large ones among them, for the three index options", len(vals))
	// Self-certification.
	for _, sel := range selections() {
		for _, sc := range []string{"-self-cert", "-self-cert=true", "-self-cert=false"} {
			args := []string{sc}
			if sel.text != "" {
				args = append(args, "-only", sel.text)
			}
			add(args, expect(demoSeed, demoOffset, anon(sel.opts), sel.master, sc != "-self-cert=false"))
		}
	}
	e.Space("self-certification on and off x 16 selections")
	// Everything together.
	type encJob struct {
		args []string
		want *ref.Expect
	}
	var encJobs []encJob
	for _, sel := range selections() {
		for bits := 0; bits < 64; bits++ {
			on := func(i int) bool { return bits>>i&1 == 1 }
			o := anon(sel.opts)
			var args []string
			if sel.text != "" {
				args = append(args, "-only", sel.text)
			}
			if on(0) {
				args = append(args, "-self-cert=false")
			}
			if on(1) {
				o.Enc, o.Auth, o.Sig = 3, 700, 65535
				args = append(args, "-enc-index=3", "-auth-index=700", "-sig-index=65535")
			}
			if on(2) {
				o.Name, o.Email = "Bob", "b@x.org"
				args = append([]string{"-name", "Bob", "-email", "b@x.org"}, args...)
			}
			if on(3) {
				o.TTL = 14 * 86400
				args = append([]string{"-ttl", "2w"}, args...)
			}
			if on(4) {
				args = append(args, "-verbose")
			}
			want := expect(demoSeed, demoOffset, o, sel.master, !on(0))
			if !on(5) {
				add(args, want)
			} else if e.Thorough || bits&0b11100 == 0 || bits&0b11111 == 0b11111 {
				want.Password, want.Open = []byte("key pw"), true
				encJobs = append(encJobs, encJob{append([]string{"-encrypt-keys"}, args...), want})
			}
		}
	}
	e.Space("16 selections x all combinations of self-certification, indices, user ID, lifetime, verbosity and (some: %d) key encryption", len(encJobs))
	e.Parallel(len(encJobs), func(i int) {
		j := encJobs[i]
		e.Case()
		e.try(func() string { return "recover " + strings.Join(j.args, " ") }, func() error {
			r, err := e.onTTY(append([]string{"recover", "-in-word-file", wf}, j.args...), "key pw\nkey pw\n")
			if err != nil {
				return err
			}
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome("encrypted key")
			return keyIs(r.Out, j.want)
		})
	})
	// The options mean the same however the words come in.
	type modeJob struct {
		mode string
		enc  bool
		args []string
		want *ref.Expect
	}
	var modes []modeJob
	for _, sel := range selections() {
		for bits := 0; bits < 8; bits++ {
			o := anon(sel.opts)
			var args []string
			if sel.text != "" {
				args = append(args, "-only", sel.text)
			}
			cert := true
			if bits&1 != 0 {
				cert = false
				args = append(args, "-self-cert=false")
			}
			if bits&2 != 0 {
				o.Enc, o.Auth, o.Sig = 3, 700, 65535
				args = append(args, "-enc-index=3", "-auth-index=700", "-sig-index=65535")
			}
			if bits&4 != 0 {
				o.Name, o.Email, o.TTL = "Bob", "b@x.org", 14*86400
				args = append(args, "-ttl", "2w", "-name", "Bob", "-email", "b@x.org")
			}
			for _, enc := range []bool{false, true} {
				for _, mode := range []string{"file", "simple", "interactive", "pipe"} {
					if enc && mode == "pipe" {
						continue // the password would have to come the same way
					}
					modes = append(modes, modeJob{mode, enc, args, expect(demoSeed, demoOffset, o, sel.master, cert)})
				}
			}
		}
	}
	enc := encPhrase(demoPW)
	ef := e.box.File("enc", joined(enc))
	e.Space("16 selections x certification x indices x user ID and lifetime, with the words from a file, typed line by line, typed at the interactive prompt and piped, plain and encrypted: %d", len(modes))
	e.Parallel(len(modes), func(i int) {
		j := modes[i]
		e.Case()
		e.try(func() string {
			return fmt.Sprintf("recover %s (%s, encrypted: %v)", strings.Join(j.args, " "), j.mode, j.enc)
		}, func() error {
			args := append([]string{"recover"}, j.args...)
			words, file, pw := plainPhrase(), wf, ""
			if j.enc {
				words, file, pw = enc, ef, demoPW
			}
			var r *cli.Result
			var err error
			switch j.mode {
			case "file":
				args = append(args, "-in-word-file", file)
				if j.enc {
					r, err = e.onTTY(args, pw+"\n")
				} else {
					r = e.box.Cmd(args...)
				}
			case "simple":
				t, err := e.box.Start(cli.TTYSpec{Args: append(args, "-simple"), Rows: 24, Cols: 80})
				if err != nil {
					return err
				}
				t.Send([]byte(strings.Join(words, "\n") + "\n"))
				if j.enc && t.WaitMode(cli.NoEcho) {
					t.Send([]byte(pw + "\n"))
				}
				r, _ = t.End()
			case "interactive":
				r, err = e.enter(args, strings.Join(words, " ")+" ", pw)
			default:
				r = e.box.Run(cli.Spec{Args: append(args, "-simple"), Stdin: []byte(strings.Join(words, "\n") + "\n")})
			}
			if err != nil {
				return err
			}
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome("key (" + j.mode + ")")
			return keyIs(r.Out, j.want)
		})
	})
	// User IDs.
	for _, name := range []string{"-", "", "Bob", "Bob Bobson", "Zoë", "a,b", "-dash", "=x", "<>", strings.Repeat("n", 300), "help", "100%", "q\"uote"} {
		for _, mail := range []string{"-", "", "b@x.org", "B <b@x.org>", strings.Repeat("m", 200)} {
			o := ref.Opts{All: true, Name: "anonymous"}
			var args []string
			if name != "-" {
				o.Name = name
				args = append(args, "-name="+name)
			}
			if mail != "-" {
				o.Email = mail
				args = append(args, "-email="+mail)
			}
			add(args, expect(demoSeed, demoOffset, o, true, true))
		}
	}
	e.Space("13 names x 5 email addresses")
	// Stray and misplaced arguments.
	valid := [][]string{{"-only", "encryption"}, {"-name", "Bob", "-only", "master,signing"}, {"-self-cert=false", "-only", "signing", "-sig-index", "4"}, {"-verbose", "-ttl", "1d", "-only", "authentication"}}
	strays := []string{"extra", "false", "true", "signing", "recover", "generate", "help", "-", "", "7", "--bogus", "-bogus", "-only-", "/etc/passwd", "name=Bob", "—only"}
	n := 0
	for _, v := range valid {
		for p := 0; p <= len(v); p++ {
			if p > 0 && strings.HasPrefix(v[p-1], "-") && !strings.Contains(v[p-1], "=") && v[p-1] != "-verbose" {
				continue // it would be that option's value
			}
			for _, s := range strays {
				args := append(append(append([]string{}, v[:p]...), s), v[p:]...)
				add(args, nil)
				n++
			}
			add(append(append(append([]string{}, v[:p]...), "--", "extra"), v[p:]...), nil)
		}
		if len(v) > 0 {
			add(append(append([]string{}, v...), "-only"), nil) // value missing
			add(append(append([]string{}, v...), "-self-cert=maybe"), nil)
			add(append(append([]string{}, v...), "-verbose", "false"), nil)
		}
	}
	e.Space("%d insertions of a stray or unknown argument at every position of %d valid command lines", n, len(valid))
	e.Parallel(len(jobs), func(i int) { rec(jobs[i].id, jobs[i].args, jobs[i].want) })

	// The same for generate.
	ent := e.box.File("entropy", bytes.Repeat([]byte{7, 1, 9}, 20))
	type gjob struct {
		args []string
		sel  selection
		o    ref.Opts
		ok   bool
		file string
	}
	var gjobs []gjob
	for _, sel := range selections() {
		for _, u := range [][2]string{{"-", "-"}, {"Bob", "b@x.org"}, {"", "b@x.org"}} {
			o := sel.opts
			o.Name = "anonymous"
			var args []string
			if u[0] != "-" {
				o.Name, o.Email = u[0], u[1]
				args = append(args, "-name", u[0], "-email", u[1])
			}
			if sel.text != "" {
				args = append(args, "-only", sel.text)
			}
			gjobs = append(gjobs, gjob{args, sel, o, true, ""})
			for _, s := range strays {
				for _, at := range []int{0, len(args)} {
					gjobs = append(gjobs, gjob{append(append(append([]string{}, args[:at]...), s), args[at:]...), sel, o, false, ""})
				}
			}
			for _, bad := range []string{"bogus", ",", "master,", "encryption,bogus", "Encryption", "enc"} {
				gjobs = append(gjobs, gjob{append(append([]string{}, args...), "-only", bad), sel, o, false, ""})
			}
			gjobs = append(gjobs, gjob{append(append([]string{}, args...), "-enc-index", "1"), sel, o, false, ""})
		}
	}
	for _, sel := range selections() {
		for bits := 0; bits < 32; bits++ {
			on := func(i int) bool { return bits>>i&1 == 1 }
			o := sel.opts
			o.Name = "anonymous"
			var args []string
			if on(0) {
				o.Name = ""
				args = append(args, "-name=")
			}
			if on(1) {
				o.Email = "b@x.org"
				args = append(args, "-email=b@x.org")
			}
			if on(2) {
				o.TTL = 14 * 86400
				args = append(args, "-ttl", "2w")
			}
			if on(3) {
				args = append(args, "-verbose")
			}
			if sel.text != "" {
				args = append(args, "-only", sel.text)
			}
			file := ""
			if on(4) {
				file = e.box.Path(fmt.Sprintf("gw-%d-%s", bits, strings.ReplaceAll(sel.text, ",", "-")))
				args = append(args, "-out-word-file", file)
			}
			gjobs = append(gjobs, gjob{args, sel, o, true, file})
		}
	}
	e.Space("generate: %d command lines of the same kinds, with 16 selections x all combinations of user ID, lifetime, verbosity and word file among them", len(gjobs))
	e.Parallel(len(gjobs), func(i int) {
		g := gjobs[i]
		e.Case()
		e.try(func() string { return "generate " + strings.Join(g.args, " ") }, func() error {
			r := e.box.Cmd(append([]string{"generate", "-unsafe-entropy", ent}, g.args...)...)
			if !g.ok {
				e.Outcome("generate refused")
				if err := refused(r); err != nil {
					return err
				}
				if len(cli.Phrase(r.Err)) != 0 {
					return fmt.Errorf("refused, but a phrase was shown: %s", r)
				}
				return nil
			}
			if err := succeeded(r); err != nil {
				return err
			}
			words := cli.Phrase(r.Err)
			if g.file != "" {
				b, err := os.ReadFile(g.file)
				if err != nil {
					return err
				}
				os.Remove(g.file)
				words = strings.Fields(string(b))
			}
			seed, off, _, err := seedOf(words, "")
			if err != nil {
				return err
			}
			e.Outcome("generate key")
			return keyIs(r.Out, expect(seed, off, g.o, g.sel.master, true))
		})
	})
	// Convert and the root command.
	var misc [][]string
	for _, s := range strays {
		misc = append(misc, []string{"convert", "-in-word-file", wf, s}, []string{"convert", "-in-word-file", wf, s, "-out-word-file", filepath.Join(e.box.Dir, "never")})
		if s != "help" && s != "recover" && s != "generate" {
			misc = append(misc, []string{s}, []string{s, "recover", "-in-word-file", wf})
		}
	}
	misc = append(misc, []string{}, []string{"Recover", "-in-word-file", wf}, []string{"-verbose", "recover", "-in-word-file", wf}, []string{"-in-word-file", wf})
	e.Space("%d stray arguments to convert and to the root command", len(misc))
	e.Parallel(len(misc), func(i int) {
		e.Case()
		e.try(func() string { return "args " + strings.Join(misc[i], " ") }, func() error {
			return refused(e.box.Cmd(misc[i]...))
		})
	})
	if _, err := os.Lstat(filepath.Join(e.box.Dir, "never")); err == nil {
		e.Bad("convert stray", "convert with a stray argument wrote a word file")
	}
}

// ---- C21 ----

func ttlSeconds(text string) (uint32, bool) {
	if len(text) < 2 {
		return 0, false
	}
	unit := map[byte]uint64{'d': 86400, 'w': 7 * 86400, 'm': 730 * 3600, 'y': 365 * 86400}[text[len(text)-1]|0x20]
	if c := text[len(text)-1]; unit == 0 || !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
		return 0, false
	}
	var n uint64
	for _, c := range []byte(text[:len(text)-1]) {
		if c < '0' || c > '9' {
			return 0, false
		}
		if n = n*10 + uint64(c-'0'); n > 1<<40 {
			return 0, false
		}
	}
	if n*unit > 1<<32-1 {
		return 0, false
	}
	return uint32(n * unit), true
}

func c21(e *env) {
	wf := e.box.File("words", joined(plainPhrase()))
	ent := e.box.File("entropy", bytes.Repeat([]byte{7, 1, 9}, 20))
	var texts []string
	seen := map[string]bool{}
	add := func(s string) {
		if s != "" && !seen[s] && !strings.Contains(s, "\x00") {
			seen[s] = true
			texts = append(texts, s)
		}
	}
	alpha := "019dwmyDx+-. "
	if e.Thorough {
		alpha = "0129dwmyDWMYxhs+-._, \ne"
	}
	for _, a := range alpha {
		add(string(a))
		for _, b := range alpha {
			add(string(a) + string(b))
			for _, c := range alpha {
				add(string(a) + string(b) + string(c))
			}
		}
	}
	e.Space("all texts of 1..3 characters over %q", alpha)
	units := []string{"d", "w", "m", "y", "D", "W", "M", "Y"}
	secs := map[string]uint64{"d": 86400, "w": 7 * 86400, "m": 730 * 3600, "y": 365 * 86400}
	for _, u := range units {
		max := (uint64(1)<<32 - 1) / secs[strings.ToLower(u)]
		i63 := uint64(1) << 63 / (secs[strings.ToLower(u)] * 1e9)
		for d := uint64(0); d <= 3; d++ {
			add(fmt.Sprint(max+1-d, u))
			add(fmt.Sprintf("%d%s", max+1-d, u))
			add(fmt.Sprintf("%d%s", max+1+d, u))
			add(fmt.Sprintf("%d%s", i63+d-1, u))
			add(fmt.Sprintf("%d%s", 2*i63+d, u))
			add(fmt.Sprintf("%d%s", uint64(1)<<32+d, u))
			add(fmt.Sprintf("%d%s", uint64(1)<<63+d, u))
			add(fmt.Sprintf("%d%s", ^uint64(0)-d, u))
		}
		top := 60
		if e.Thorough {
			top = 3000
		}
		for n := 0; n <= top; n++ {
			add(fmt.Sprintf("%d%s", n, u))
		}
		for _, n := range []string{"365", "366", "1000", "10000", "007", "0000000000000000000001", "00", "18446744073709551616", "99999999999999999999999", "1_000", "0x10", "0b1", "1e3", "１", "١", "1.5", "1,5", "+1", "-1", " 1", "1 ", "1d1", "--1", "1/2"} {
			add(n + u)
			add(n + u + u)
			add(u + n)
		}
		// multiples of 2^64 ns that wrap to something small
		for k := uint64(1); k <= 40; k++ {
			v := (k << 58) / (secs[strings.ToLower(u)] * 1e9 >> 6)
			for d := uint64(0); d < 2; d++ {
				add(fmt.Sprintf("%d%s", v+d, u))
			}
		}
	}
	letters := "abcdefghijklmnopqrstuvwxyz"
	for _, a := range letters {
		for _, n := range []string{"2", "10"} {
			add(n + string(a))
			add(n + strings.ToUpper(string(a)))
			for _, b := range letters {
				add(n + string(a) + string(b))
			}
		}
	}
	for _, u := range []string{"day", "days", "week", "weeks", "wks", "month", "months", "mon", "mos", "year", "years", "yrs", "Days", "YEARS", "hours", "hrs", "min", "sec", "1d", "d1", "w2d", "y6m", "d ", " d", "d.", "d,", "d;", "d\n", "d-", "d+", "dd", "yy", "ｄ", "ｙ", "ÿ", "dб", "d\xff"} {
		add("2" + u)
		add("2 " + u)
	}
	e.Space("all suffixes of one and two letters, and words and marks after the number")
	e.Space("per unit and case: small counts, counts around the 32-bit, 63-bit and 64-bit limits, wrap-around multiples, and malformed numbers: %d texts in all", len(texts))
	e.Parallel(len(texts), func(i int) {
		ttl, ok := ttlSeconds(texts[i])
		e.Case()
		e.try(func() string { return fmt.Sprintf("recover -ttl %q", texts[i]) }, func() error {
			r := e.box.Cmd("recover", "-in-word-file", wf, "-ttl="+texts[i])
			if !ok {
				e.Outcome("refused")
				return refused(r)
			}
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome("honoured")
			return keyIs(r.Out, expect(demoSeed, demoOffset, ref.Opts{All: true, Name: "anonymous", TTL: ttl}, true, true), ref.CatParse, ref.CatExpiry)
		})
		if i%3 != 0 && len(texts[i]) > 3 && !e.Thorough {
			return
		}
		e.Case()
		e.try(func() string { return fmt.Sprintf("generate -ttl %q", texts[i]) }, func() error {
			r := e.box.Cmd("generate", "-unsafe-entropy", ent, "-ttl="+texts[i], "-only", "master,signing,encryption")
			if !ok {
				return refused(r)
			}
			if err := succeeded(r); err != nil {
				return err
			}
			seed, off, _, err := seedOf(cli.Phrase(r.Err), "")
			if err != nil {
				return err
			}
			return keyIs(r.Out, expect(seed, off, ref.Opts{Select: []string{"signing", "encryption"}, Name: "anonymous", TTL: ttl}, true, true), ref.CatParse, ref.CatExpiry)
		})
	})
}
