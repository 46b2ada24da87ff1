package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C29"] = c29 }

// ---- C29: what -verbose reports is true of the key, and no secret is shown ----

// secrets is what must not be on standard error or on the screen.
type secrets struct {
	seed      *ref.Seed16
	model     *ref.Model
	words     []string // a phrase which was not asked to be shown
	passwords []string
	args      []string // what the command was given
}

var hexRun = regexp.MustCompile(`[0-9A-Fa-f]{16,}`)
var rfcTime = regexp.MustCompile(`\d{4,}-\d\d-\d\dT\d\d:\d\d:\d\d(?:Z|[+-]\d\d:\d\d)`)

// hides checks that the text shows no secret.
func (s *secrets) hides(text []byte) error {
	plain := cli.Plain(text)
	lower := strings.ToLower(plain)
	packed := strings.Join(strings.Fields(lower), "")
	var raw [][]byte
	if s.seed != nil {
		raw = append(raw, s.seed[:])
		if d := s.seed.Int().String(); len(d) > 12 && strings.Contains(packed, d) {
			return fmt.Errorf("the seed's number is shown: %q", clipString(text))
		}
	}
	if s.model != nil {
		raw = append(raw, s.model.Master.Secret, s.model.Root)
		for _, k := range s.model.Subs {
			raw = append(raw, k.Secret)
		}
	}
	for _, r := range raw {
		if len(r) < 8 {
			continue
		}
		if bytes.Contains(text, r) || strings.Contains(packed, hex.EncodeToString(r)) || strings.Contains(packed, hex.EncodeToString(reverse(r))) {
			return fmt.Errorf("secret bytes %x are shown: %q", r, clipString(text))
		}
		for _, enc := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
			if strings.Contains(plain, enc.EncodeToString(r)) {
				return fmt.Errorf("secret bytes %x are shown in base64: %q", r, clipString(text))
			}
		}
		if strings.Contains(plain, strings.Trim(fmt.Sprint(r), "[]")) {
			return fmt.Errorf("secret bytes %x are shown: %q", r, clipString(text))
		}
	}
	tokens := strings.FieldsFunc(lower, func(r rune) bool { return !(r >= 'a' && r <= 'z') })
	for i := 0; i+1 < len(s.words); i++ {
		for j := 0; j+1 < len(tokens); j++ {
			if tokens[j] == s.words[i] && tokens[j+1] == s.words[i+1] {
				return fmt.Errorf("words %d and %d of the phrase are shown: %q", i+1, i+2, clipString(text))
			}
		}
	}
	if w := leaked(plain, s.words, s.args...); w != "" {
		return fmt.Errorf("the word %q of the phrase is shown: %q", w, clipString(text))
	}
	for _, pw := range s.passwords {
		if len(pw) < 6 {
			continue
		}
		for _, form := range []string{pw, strings.Trim(strconv.Quote(pw), `"`), strings.Trim(strconv.QuoteToASCII(pw), `"`), hex.EncodeToString([]byte(pw))} {
			if bytes.Contains(text, []byte(form)) || strings.Contains(plain, form) {
				return fmt.Errorf("the password is shown: %q", clipString(text))
			}
		}
	}
	return nil
}

func reverse(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// tells checks that the report describes exactly the key of the model.
func tells(text []byte, m *ref.Model) error {
	plain := cli.Plain(text)
	types := []string{"master"}
	want := map[string]string{"master": strings.ToUpper(hex.EncodeToString(m.Master.Fpr()))}
	for t, k := range m.Subs {
		types = append(types, t)
		want[t] = strings.ToUpper(hex.EncodeToString(k.Fpr()))
	}
	sort.Strings(types)
	trueUID := ref.UID(m.Opts.Name, m.Opts.Email)
	got := map[string]string{}
	var stamps []int64
	uid := ""
	uids := 0
	for _, line := range strings.Split(plain, "\n") {
		line = strings.TrimRight(line, "\r")
		low := strings.ToLower(line)
		if i := strings.Index(low, "user id"); i >= 0 {
			uids++
			rest := line[i+len("user id"):]
			j := strings.IndexByte(rest, '"')
			if j < 0 {
				return fmt.Errorf("the user ID is not quoted: %q", line)
			}
			u, err := strconv.Unquote(strings.TrimSpace(rest[j:]))
			if err != nil {
				return fmt.Errorf("the user ID is not quoted properly: %q", line)
			}
			uid = u
			continue
		}
		for _, h := range hexRun.FindAllString(line, -1) {
			found := ""
			for _, t := range append([]string{"master"}, ref.Types...) {
				if strings.Contains(low, t) {
					found += t
				}
			}
			if _, twice := got[found]; twice || found == "" {
				return fmt.Errorf("cannot tell which key %q is about", line)
			}
			got[found] = strings.ToUpper(h)
		}
		for _, t := range rfcTime.FindAllString(line, -1) {
			x, err := time.Parse(time.RFC3339, t)
			if err != nil {
				return fmt.Errorf("unreadable time %q", line)
			}
			kind := int64(0)
			if strings.Contains(low, "expir") {
				kind = 1
			}
			stamps = append(stamps, kind, x.Unix())
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("fingerprints of %v are reported, the key has %v", keysOf(got), types)
	}
	for t, f := range want {
		if got[t] != f {
			return fmt.Errorf("fingerprint of the %s key is %s, reported as %q", t, f, got[t])
		}
	}
	if uids != 1 || uid != trueUID {
		return fmt.Errorf("user ID %q is reported as %q (%d times)", trueUID, uid, uids)
	}
	wantStamps := []int64{0, int64(m.Creation)}
	if m.Opts.TTL != 0 {
		wantStamps = append(wantStamps, 1, int64(m.Creation)+int64(m.Opts.TTL))
	}
	if fmt.Sprint(stamps) != fmt.Sprint(wantStamps) {
		return fmt.Errorf("times reported (0 creation, 1 expiry): %v, true are %v", stamps, wantStamps)
	}
	return nil
}

func keysOf(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// phraseReport checks the report about the phrase that was read.
func phraseReport(text []byte, f ref.Fields) error {
	want := map[string]string{"version": strconv.Itoa(f.Version), "era": "0", "encrypted": strconv.FormatBool(f.Version == 1)}
	got := map[string]string{}
	for _, line := range strings.Split(cli.Plain(text), "\n") {
		p := strings.Fields(line)
		if len(p) == 2 && strings.HasSuffix(p[0], ":") {
			k := strings.ToLower(strings.TrimSuffix(p[0], ":"))
			if _, ok := want[k]; ok {
				if _, twice := got[k]; twice {
					return fmt.Errorf("%s is reported twice", k)
				}
				got[k] = p[1]
			}
		}
	}
	for k, v := range want {
		if got[k] != v {
			return fmt.Errorf("the phrase's %s is %s, reported as %q: %q", k, v, got[k], clipString(text))
		}
	}
	return nil
}

// quietReport checks that without -verbose nothing of the report is there.
func quietReport(text []byte) error {
	if h := hexRun.FindString(cli.Plain(text)); h != "" {
		return fmt.Errorf("a report without -verbose: %q", clipString(text))
	}
	return nil
}

type repCase struct {
	seed        ref.Seed16
	off         uint32
	sel         selection
	enc, au, sg int // indices, -1 not given
	ttl         string
	secs        uint32
	name, email string
	noCert      bool
	phrasePW    string
	keyPW       string
	wrong       int
}

func (c repCase) String() string {
	return fmt.Sprintf("recover seed=%x off=%d only=%q idx=%d,%d,%d ttl=%s name=%q email=%q cert=%v phrase-password=%q key-password=%q wrong=%d",
		c.seed, c.off, c.sel.text, c.enc, c.au, c.sg, c.ttl, c.name, c.email, !c.noCert, c.phrasePW, c.keyPW, c.wrong)
}

func (e *env) report(c repCase) error {
	f := ref.Fields{Version: 0, Seed: c.seed, Offset: c.off}
	if c.phrasePW != "" {
		f = ref.Encrypt(c.seed, c.off, 0x2abcd, []byte(c.phrasePW))
	}
	words := ref.Phrase(f)
	wf := e.box.File("words", joined(words))
	defer os.Remove(wf)
	o := c.sel.opts
	o.Name, o.Email, o.TTL = "anonymous", "", c.secs
	args := []string{"recover", "-in-word-file", wf}
	opt := func(flag, v string, given bool) {
		if given {
			args = append(args, flag+"="+v)
		}
	}
	if c.name != "-" {
		o.Name = strings.TrimSpace(c.name)
	}
	opt("-name", c.name, c.name != "-")
	if c.email != "-" {
		o.Email = strings.TrimSpace(c.email)
	}
	opt("-email", c.email, c.email != "-")
	opt("-ttl", c.ttl, c.ttl != "")
	opt("-only", c.sel.text, c.sel.text != "")
	opt("-self-cert", "false", c.noCert)
	opt("-enc-index", strconv.Itoa(c.enc), c.enc >= 0)
	opt("-auth-index", strconv.Itoa(c.au), c.au >= 0)
	opt("-sig-index", strconv.Itoa(c.sg), c.sg >= 0)
	o.Enc, o.Auth, o.Sig = idx(c.enc), idx(c.au), idx(c.sg)
	m := ref.Build(c.seed, stamp(c.off), o)
	x := expect(c.seed, c.off, o, c.sel.master, !c.noCert)
	typed := ""
	sec := secrets{seed: &c.seed, model: m, words: words}
	if c.phrasePW != "" {
		for i := 0; i < c.wrong; i++ {
			w := wrongPassword(words, i)
			typed += w + "\n"
			sec.passwords = append(sec.passwords, w)
		}
		typed += c.phrasePW + "\n"
		sec.passwords = append(sec.passwords, c.phrasePW)
	}
	if c.keyPW != "" {
		args = append(args, "-encrypt-keys")
		typed += c.keyPW + "\n" + c.keyPW + "\n"
		x.Password, x.Open = []byte(c.keyPW), true
		sec.passwords = append(sec.passwords, c.keyPW)
	}
	for _, verbose := range []bool{false, true} {
		a := args
		if verbose {
			a = append(append([]string{}, args...), "-verbose")
		}
		var r *cli.Result
		var err error
		if typed != "" {
			if r, err = e.onTTY(a, typed); err != nil {
				return err
			}
		} else {
			r = e.box.Run(cli.Spec{Args: a})
		}
		if err := succeeded(r); err != nil {
			return err
		}
		if err := keyIs(r.Out, x); err != nil {
			return fmt.Errorf("verbose=%v: %w", verbose, err)
		}
		sec.args = append(a, e.box.Bin)
		if err := sec.hides(r.Err); err != nil {
			return fmt.Errorf("verbose=%v: %w", verbose, err)
		}
		if !verbose {
			if err := quietReport(r.Err); err != nil {
				return err
			}
			continue
		}
		if err := tells(r.Err, m); err != nil {
			return err
		}
		if err := phraseReport(r.Err, f); err != nil {
			return err
		}
	}
	return nil
}

func idx(i int) uint16 {
	if i < 0 {
		return 0
	}
	return uint16(i)
}

func c29(e *env) {
	sels := selections()
	type ttl struct {
		text string
		secs uint32
	}
	ttls := []ttl{{"", 0}, {"1d", 86400}, {"3w", 3 * 7 * 86400}, {"2y", 2 * 365 * 86400}, {"49710d", 49710 * 86400}}
	type id struct{ name, email string }
	ids := []id{{"-", "-"}, {"", "-"}, {"-", ""}, {"", ""}, {"Alice B", "a@example.org"}, {"", "only@mail"}, {"Ünïcödé ☃ \"q\" \\n", "-"},
		{"tab\tnl\nesc\x1b[2J", "-"}, {"  trimmed ", " m@x "}, {strings.Repeat("long name ", 60) + "x", "-"}}
	type at struct {
		seed ref.Seed16
		off  uint32
	}
	var ats []at
	one := ref.Seed16{15: 1}
	top := ref.Seed16{}
	for i := range top {
		top[i] = 0xff
	}
	for _, s := range []ref.Seed16{demoSeed, {}, one, top} {
		for _, off := range []uint32{0, demoOffset, 1<<31 - 1} {
			ats = append(ats, at{s, off})
		}
	}
	triples := [][3]int{{-1, -1, -1}, {0, 0, 0}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}, {65535, 3, 256}, {7, 7, 7}, {255, 65535, 0}}
	var cases []repCase
	add := func(c repCase) {
		cases = append(cases, c)
	}
	for _, sel := range sels {
		for _, t := range triples {
			for _, l := range ttls {
				add(repCase{seed: demoSeed, off: demoOffset, sel: sel, enc: t[0], au: t[1], sg: t[2], ttl: l.text, secs: l.secs, name: "-", email: "-"})
			}
			add(repCase{seed: demoSeed, off: demoOffset, sel: sel, enc: t[0], au: t[1], sg: t[2], name: "-", email: "-", noCert: true})
		}
		for _, u := range ids {
			for _, l := range ttls[:2] {
				add(repCase{seed: demoSeed, off: demoOffset, sel: sel, enc: -1, au: -1, sg: -1, ttl: l.text, secs: l.secs, name: u.name, email: u.email})
			}
		}
		for _, a := range ats {
			for _, l := range ttls {
				add(repCase{seed: a.seed, off: a.off, sel: sel, enc: -1, au: -1, sg: -1, ttl: l.text, secs: l.secs, name: "-", email: "-"})
			}
		}
	}
	if e.Thorough {
		for _, sel := range sels {
			for _, t := range triples {
				for _, l := range ttls {
					for _, u := range ids {
						for _, a := range ats {
							add(repCase{seed: a.seed, off: a.off, sel: sel, enc: t[0], au: t[1], sg: t[2], ttl: l.text, secs: l.secs, name: u.name, email: u.email})
						}
					}
				}
			}
		}
	}
	plain := len(cases)
	for i, sel := range sels {
		for wrong := 0; wrong < 3; wrong++ {
			for _, kp := range []string{"", "key pässword"} {
				if !e.Thorough && (i+wrong)%2 == 1 && kp != "" {
					continue
				}
				t := triples[(i+wrong)%len(triples)]
				l := ttls[i%len(ttls)]
				add(repCase{seed: ats[i%len(ats)].seed, off: ats[i%len(ats)].off, sel: sel, enc: t[0], au: t[1], sg: t[2], ttl: l.text, secs: l.secs, name: "-", email: "-", phrasePW: demoPW, keyPW: kp, wrong: wrong})
			}
		}
		add(repCase{seed: demoSeed, off: demoOffset, sel: sel, enc: -1, au: -1, sg: -1, name: "-", email: "-", keyPW: "key pässword"})
	}
	e.Space("recover with and without -verbose: %d combinations of selection, indices, lifetime, user ID, certification, seed and time; %d more with phrase and key passwords, wrong ones first", plain, len(cases)-plain)
	e.Parallel(len(cases), func(i int) {
		e.States(1)
		e.Steps(2)
		e.Trace()
		e.try(cases[i].String, func() error {
			err := e.report(cases[i])
			if err == nil {
				e.Outcome(fmt.Sprintf("recover: password=%v expiry=%v subkeys=%d", cases[i].phrasePW != "", cases[i].secs != 0, len(cases[i].sel.opts.Select)))
			}
			return err
		})
	})
	e.reportGenerate(sels)
	e.reportConvert()
	e.reportRefusals()
}

// reportGenerate looks at the reports of new keys.
func (e *env) reportGenerate(sels []selection) {
	type gc struct {
		sel         selection
		ttl         string
		name, email string
		file        bool
		entropy     bool
		phrasePW    string
		keyPW       string
	}
	var cases []gc
	for _, sel := range sels {
		for _, ttl := range []string{"-", "1d", "2Y"} {
			for _, name := range []string{"-", "", "Alice \"B\""} {
				for _, file := range []bool{false, true} {
					for _, ent := range []bool{false, true} {
						cases = append(cases, gc{sel: sel, ttl: ttl, name: name, email: "-", file: file, entropy: ent})
					}
				}
			}
		}
		cases = append(cases, gc{sel: sel, ttl: "1d", name: "-", email: "a@b.c", file: true, phrasePW: demoPW},
			gc{sel: sel, ttl: "-", name: "-", email: "-", file: false, phrasePW: demoPW, keyPW: "key pässword"},
			gc{sel: sel, ttl: "-", name: "-", email: "-", file: true, keyPW: "key pässword"})
	}
	e.Space("generate with and without -verbose: %d combinations of selection, lifetime, user ID, word file, entropy source and passwords", len(cases))
	e.Parallel(len(cases), func(i int) {
		c := cases[i]
		e.States(1)
		e.Steps(2)
		e.Trace()
		id := func() string {
			return fmt.Sprintf("generate only=%q ttl=%s name=%q email=%q file=%v entropy=%v phrase-password=%q key-password=%q", c.sel.text, c.ttl, c.name, c.email, c.file, c.entropy, c.phrasePW, c.keyPW)
		}
		e.try(id, func() error {
			g := genCase{name: c.name, email: c.email, ttl: c.ttl, sel: c.sel, encKeys: c.keyPW}
			for _, verbose := range []bool{false, true} {
				g.verbose = verbose
				args := append([]string{"generate"}, g.args()...)
				if c.entropy {
					ent := e.box.File("entropy", []byte("0123456789abcdef0123456789abcdef"))
					defer os.Remove(ent)
					args = append(args, "-unsafe-entropy", ent)
				}
				wf := ""
				if c.file {
					wf = e.box.Path("out")
					defer os.Remove(wf)
					args = append(args, "-out-word-file", wf)
				}
				typed := ""
				var sec secrets
				if c.keyPW != "" {
					typed += c.keyPW + "\n" + c.keyPW + "\n"
					sec.passwords = append(sec.passwords, c.keyPW)
				}
				if c.phrasePW != "" {
					args = append(args, "-encrypt-phrase")
					typed += c.phrasePW + "\n" + c.phrasePW + "\n"
					sec.passwords = append(sec.passwords, c.phrasePW)
				}
				var r *cli.Result
				var err error
				if typed != "" {
					if r, err = e.onTTY(args, typed); err != nil {
						return err
					}
				} else {
					r = e.box.Run(cli.Spec{Args: args})
				}
				if err := succeeded(r); err != nil {
					return err
				}
				words := cli.Phrase(r.Err)
				if c.file {
					b, err := os.ReadFile(wf)
					if err != nil {
						return err
					}
					words = strings.Fields(string(b))
					sec.words = words
				}
				seed, off, _, err := seedOf(words, c.phrasePW)
				if err != nil {
					return err
				}
				x := expect(seed, off, g.opts(), c.sel.master, true)
				if c.keyPW != "" {
					x.Password, x.Open = []byte(c.keyPW), true
				}
				if err := keyIs(r.Out, x); err != nil {
					return err
				}
				m := ref.Build(seed, stamp(off), g.opts())
				sec.seed, sec.model, sec.args = &seed, m, append(args, e.box.Bin)
				if err := sec.hides(r.Err); err != nil {
					return fmt.Errorf("verbose=%v: %w", verbose, err)
				}
				if !verbose {
					if err := quietReport(r.Err); err != nil {
						return err
					}
					continue
				}
				if err := tells(r.Err, m); err != nil {
					return err
				}
			}
			e.Outcome("generate reported")
			return nil
		})
	})
}

// reportConvert looks at the reports about phrases that are converted.
func (e *env) reportConvert() {
	var n int
	run := func(inPW, outPW string, file bool, wrong int, off uint32) {
		n++
		id := fmt.Sprintf("convert from password=%q to password=%q file=%v wrong=%d offset=%d", inPW, outPW, file, wrong, off)
		e.States(1)
		e.Steps(2)
		e.Trace()
		e.try(func() string { return id }, func() error {
			f := ref.Fields{Version: 0, Seed: demoSeed, Offset: off}
			if inPW != "" {
				f = ref.Encrypt(demoSeed, off, 0x12345, []byte(inPW))
			}
			words := ref.Phrase(f)
			in := e.box.File("words", joined(words))
			defer os.Remove(in)
			for _, verbose := range []bool{false, true} {
				args := []string{"convert", "-in-word-file", in}
				if verbose {
					args = append(args, "-verbose")
				}
				sec := secrets{seed: &demoSeed, model: ref.Build(demoSeed, stamp(off), ref.Opts{All: true})}
				typed := ""
				if inPW != "" {
					for i := 0; i < wrong; i++ {
						w := wrongPassword(words, i)
						typed += w + "\n"
						sec.passwords = append(sec.passwords, w)
					}
					typed += inPW + "\n"
					sec.passwords = append(sec.passwords, inPW)
				}
				if outPW != "" {
					args = append(args, "-encrypt-phrase")
					typed += outPW + "\n" + outPW + "\n"
					sec.passwords = append(sec.passwords, outPW)
				}
				out := ""
				if file {
					out = e.box.Path("out")
					defer os.Remove(out)
					args = append(args, "-out-word-file", out)
				}
				var r *cli.Result
				var err error
				if typed != "" {
					if r, err = e.onTTY(args, typed); err != nil {
						return err
					}
				} else {
					r = e.box.Run(cli.Spec{Args: args})
				}
				if err := succeeded(r); err != nil {
					return err
				}
				if len(r.Out) != 0 {
					return fmt.Errorf("standard output: %s", r)
				}
				got := cli.Phrase(r.Err)
				if file {
					b, err := os.ReadFile(out)
					if err != nil {
						return err
					}
					got = strings.Fields(string(b))
				}
				s, o, _, err := seedOf(got, outPW)
				if err != nil {
					return err
				}
				if s != demoSeed || o != off {
					return fmt.Errorf("verbose=%v: another phrase", verbose)
				}
				// A phrase that is shown shares words with the one that was read: the time is in both.
				if file {
					sec.words, sec.args = words, append(args, e.box.Bin)
					if err := (&secrets{words: got, args: sec.args}).hides(r.Err); err != nil {
						return err
					}
				}
				if err := sec.hides(r.Err); err != nil {
					return fmt.Errorf("verbose=%v: %w", verbose, err)
				}
				if verbose {
					if err := phraseReport(r.Err, f); err != nil {
						return err
					}
				}
			}
			e.Outcome("convert reported")
			return nil
		})
	}
	for _, in := range []string{"", demoPW} {
		for _, out := range []string{"", "another pässword"} {
			for _, file := range []bool{false, true} {
				for wrong := 0; wrong < 3; wrong++ {
					if in == "" && wrong > 0 {
						continue
					}
					for _, off := range []uint32{0, demoOffset, 1<<31 - 1} {
						run(in, out, file, wrong, off)
					}
				}
			}
		}
	}
	e.Space("convert with and without -verbose: %d combinations of formats, destination, wrong passwords and times", n)
}

// reportRefusals looks at what commands say when they refuse: nothing of the phrase, seed or password, and -verbose
// changes neither the status nor what is on standard output.
func (e *env) reportRefusals() {
	words := plainPhrase()
	enc := encPhrase(demoPW)
	type rc struct {
		what string
		w    []string
	}
	var cases []rc
	for k, p := range [][]string{words, enc} {
		cp := func() []string { return append([]string{}, p...) }
		for i := range p {
			for _, bad := range []string{"zzzzz", "notaword", "42"} {
				q := cp()
				q[i] = bad
				cases = append(cases, rc{fmt.Sprintf("phrase %d with %s at %d", k, bad, i), q})
			}
			q := cp()
			q = append(q[:i], q[i+1:]...)
			cases = append(cases, rc{fmt.Sprintf("phrase %d without word %d", k, i), q})
			q = append(cp(), p[i])
			cases = append(cases, rc{fmt.Sprintf("phrase %d and word %d again", k, i), q})
			if i > 0 {
				q = cp()
				q[i], q[i-1] = q[i-1], q[i]
				if _, why := ref.Parse(q); len(why) != 0 {
					cases = append(cases, rc{fmt.Sprintf("phrase %d with words %d and %d exchanged", k, i, i+1), q})
				}
			}
		}
	}
	e.Space("%d unacceptable phrases, recover and convert, with and without -verbose: refused the same way, showing no word of the phrase", len(cases))
	e.Parallel(len(cases), func(i int) {
		c := cases[i]
		e.States(1)
		e.Steps(4)
		e.Trace()
		e.try(func() string { return "refuse " + c.what }, func() error {
			f := e.box.File("words", joined(c.w))
			defer os.Remove(f)
			for _, cmd := range []string{"recover", "convert"} {
				for _, v := range []bool{false, true} {
					args := []string{cmd, "-in-word-file", f}
					if v {
						args = append(args, "-verbose")
					}
					r := e.box.Cmd(args...)
					if err := refused(r); err != nil {
						return fmt.Errorf("%s verbose=%v: %w", cmd, v, err)
					}
					if err := (&secrets{seed: &demoSeed, words: c.w, args: append(args, e.box.Bin)}).hides(r.Err); err != nil {
						return fmt.Errorf("%s verbose=%v: %w", cmd, v, err)
					}
					if err := quietReport(r.Err); err != nil {
						return err
					}
				}
			}
			e.Outcome("refused quietly")
			return nil
		})
	})
}
