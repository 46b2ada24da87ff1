package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C33"] = c33 }

// ---- C33: GnuPG takes the keys ----

// ring is a GnuPG home of its own.
type ring struct {
	dir string
	e   *env
}

func (e *env) ring() (*ring, error) {
	d := e.box.Path("g")
	if err := os.Mkdir(d, 0o700); err != nil {
		return nil, err
	}
	return &ring{d, e}, nil
}

func (g *ring) close() {
	exec.Command("gpgconf", "--homedir", g.dir, "--kill", "all").Run()
	os.RemoveAll(g.dir)
}

// gpg runs GnuPG at a given time.
func (g *ring) gpg(now int64, in []byte, args ...string) (out, errs []byte, code int) {
	a := append([]string{"--homedir", g.dir, "--batch", "--yes", "--no-tty", "--no-options", "--with-colons", "--pinentry-mode", "loopback", "--faked-system-time", strconv.FormatInt(now, 10)}, args...)
	cmd := exec.Command("gpg", a...)
	cmd.Dir = g.dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "LC_ALL=C", "TZ=UTC", "HOME=" + g.dir}
	cmd.Stdin = bytes.NewReader(in)
	var o, x bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &x
	cmd.WaitDelay = 10 * time.Second
	err := cmd.Run()
	code = 0
	if err != nil {
		code = 1
	}
	return o.Bytes(), x.Bytes(), code
}

type gkey struct {
	fpr, caps         string
	created, expires  int64
	algo              int
	secret, isExpired bool
}

// listing parses GnuPG's listing of one key.
func listing(out []byte) (keys []gkey, uids []string, err error) {
	for _, line := range strings.Split(string(out), "\n") {
		f := strings.Split(line, ":")
		switch f[0] {
		case "sec", "ssb":
			if len(f) < 15 {
				return nil, nil, fmt.Errorf("listing %q", line)
			}
			k := gkey{secret: f[14] == "+", isExpired: f[1] == "e"}
			k.algo, _ = strconv.Atoi(f[3])
			k.created, _ = strconv.ParseInt(f[5], 10, 64)
			k.expires, _ = strconv.ParseInt(f[6], 10, 64)
			for _, c := range f[11] { // capitals sum up the whole key
				if c >= 'a' && c <= 'z' {
					k.caps += string(c)
				}
			}
			if (f[0] == "sec") != (len(keys) == 0) {
				return nil, nil, fmt.Errorf("more or less than one key: %q", out)
			}
			keys = append(keys, k)
		case "fpr":
			if len(keys) > 0 && len(f) > 9 {
				keys[len(keys)-1].fpr = f[9]
			}
		case "uid":
			u := f[9]
			var b []byte
			for i := 0; i < len(u); i++ {
				if u[i] == '\\' && i+3 < len(u) && u[i+1] == 'x' {
					if v, err := strconv.ParseUint(u[i+2:i+4], 16, 8); err == nil {
						b = append(b, byte(v))
						i += 3
						continue
					}
				}
				b = append(b, u[i])
			}
			uids = append(uids, string(b))
		}
	}
	if len(keys) == 0 {
		return nil, nil, fmt.Errorf("no key in %q", out)
	}
	return
}

var capOf = map[string]string{"encryption": "e", "authentication": "a", "signing": "s"}

// want gives the listing that the model key set has.
func wantKeys(m *ref.Model) (keys []gkey) {
	exp := int64(0)
	if m.Opts.TTL != 0 {
		exp = int64(m.Creation) + int64(m.Opts.TTL)
	}
	f := func(k *ref.Key, caps string) {
		keys = append(keys, gkey{fpr: strings.ToUpper(hex.EncodeToString(k.Fpr())), caps: caps, created: int64(m.Creation), expires: exp, algo: int(k.Algo)})
	}
	f(m.Master, "c")
	for _, t := range ref.Types {
		if k := m.Subs[t]; k != nil {
			f(k, capOf[t])
		}
	}
	return
}

func sameKeys(got, want []gkey, secrets bool) error {
	g := append([]gkey{}, got...)
	w := append([]gkey{}, want...)
	for _, l := range [][]gkey{g, w} {
		sub := l[1:]
		sort.Slice(sub, func(i, j int) bool { return sub[i].fpr < sub[j].fpr })
		if !secrets {
			for i := range l {
				l[i].secret = false
			}
		}
	}
	if fmt.Sprint(g) != fmt.Sprint(w) {
		return fmt.Errorf("GnuPG lists %+v, the key has %+v", g, w)
	}
	return nil
}

// made runs recover for the demonstration phrase or another one.
func (e *env) made(seed ref.Seed16, off uint32, pw string, args ...string) ([]byte, error) {
	f := e.box.File("words", joined(ref.Phrase(ref.Fields{Seed: seed, Offset: off})))
	defer os.Remove(f)
	a := append([]string{"recover", "-in-word-file", f}, args...)
	var r *cli.Result
	if pw != "" {
		var err error
		if r, err = e.onTTY(append(a, "-encrypt-keys"), pw+"\n"+pw+"\n"); err != nil {
			return nil, err
		}
	} else {
		r = e.box.Cmd(a...)
	}
	if err := succeeded(r); err != nil {
		return nil, err
	}
	return r.Out, nil
}

func c33(e *env) {
	if _, err := exec.LookPath("gpg"); err != nil {
		fmt.Fprintln(os.Stderr, "gpg is not installed")
		os.Exit(3)
	}
	e.gpgListings()
	e.gpgHistories()
	e.gpgUse()
}

// gpgListings: GnuPG reads every export as the key it is.
func (e *env) gpgListings() {
	g, err := e.ring()
	if err != nil {
		panic(err)
	}
	defer g.close()
	g.gpg(1700000000, nil, "--check-trustdb") // makes the files of the home
	type gc struct {
		seed        ref.Seed16
		off         uint32
		sel         selection
		idx         [3]int
		ttl         string
		secs        uint32
		name, email string
		after       int64
	}
	var cases []gc
	type ttl struct {
		text string
		secs uint32
	}
	ttls := []ttl{{"", 0}, {"1d", 86400}, {"5w", 5 * 7 * 86400}, {"1y", 365 * 86400}, {"20y", 20 * 365 * 86400}}
	ids := [][2]string{{"anonymous", ""}, {"Alice B", "a@example.org"}, {"", "only@mail"}, {"Ünïcödé ☃", "ü@x"}, {"co:lon \\ back", "-x"}, {strings.Repeat("n", 200), ""}, {strings.Repeat("m ", 900) + "x", "y@z"}}
	top := ref.Seed16{}
	for i := range top {
		top[i] = 0xff
	}
	seeds := []ref.Seed16{demoSeed, {}, {15: 1}, top}
	n := 40
	if e.Thorough {
		n = 2000
	}
	for i := 0; i < n; i++ {
		seeds = append(seeds, ref.Seed16{0: byte(i), 1: byte(i >> 8), 7: byte(i * 7), 15: byte(i*31 + 1)})
	}
	sels := selections()
	for k, s := range seeds {
		for i, sel := range sels {
			if k >= 4 && !e.Thorough && i != k%len(sels) && i != 0 {
				continue
			}
			for _, off := range []uint32{0, demoOffset, 1<<31 - 1} {
				cases = append(cases, gc{seed: s, off: off, sel: sel, name: "anonymous", after: 10})
			}
		}
	}
	for _, sel := range sels {
		for _, l := range ttls {
			for _, idx := range [][3]int{{0, 0, 0}, {1, 2, 3}, {65535, 65535, 65535}} {
				cases = append(cases, gc{seed: demoSeed, off: demoOffset, sel: sel, idx: idx, ttl: l.text, secs: l.secs, name: "anonymous", after: 10})
			}
			if l.secs != 0 { // the last second of its life and the first after it
				cases = append(cases, gc{seed: demoSeed, off: demoOffset, sel: sel, ttl: l.text, secs: l.secs, name: "anonymous", after: int64(l.secs) - 1},
					gc{seed: demoSeed, off: demoOffset, sel: sel, ttl: l.text, secs: l.secs, name: "anonymous", after: int64(l.secs) + 1})
			}
		}
		for _, u := range ids {
			cases = append(cases, gc{seed: demoSeed, off: demoOffset, sel: sel, name: u[0], email: u[1], after: 10})
		}
	}
	e.Space("%d exports listed by GnuPG: fingerprints, capabilities, algorithms, creation, expiry (to the second), user ID", len(cases))
	e.Parallel(len(cases), func(i int) {
		c := cases[i]
		e.Case()
		id := func() string {
			return fmt.Sprintf("list seed=%x off=%d only=%q idx=%v ttl=%s name=%q email=%q at +%d", c.seed, c.off, c.sel.text, c.idx, c.ttl, c.name, c.email, c.after)
		}
		e.try(id, func() error {
			args := []string{"-name", c.name, "-email", c.email, "-enc-index", strconv.Itoa(c.idx[0]), "-auth-index", strconv.Itoa(c.idx[1]), "-sig-index", strconv.Itoa(c.idx[2])}
			if c.sel.text != "" {
				args = append(args, "-only", c.sel.text)
			}
			if c.ttl != "" {
				args = append(args, "-ttl", c.ttl)
			}
			out, err := e.made(c.seed, c.off, "", args...)
			if err != nil {
				return err
			}
			o := c.sel.opts
			o.Name, o.Email, o.TTL = c.name, c.email, c.secs
			o.Enc, o.Auth, o.Sig = uint16(c.idx[0]), uint16(c.idx[1]), uint16(c.idx[2])
			m := ref.Build(c.seed, stamp(c.off), o)
			text, errs, code := g.gpg(int64(m.Creation)+c.after, out, "--no-autostart", "--import-options", "show-only", "--import")
			keys, uids, err := listing(text)
			if err != nil {
				return fmt.Errorf("%w (%s)", err, errs)
			}
			_ = code
			want := wantKeys(m)
			if c.secs != 0 && c.after > int64(c.secs) {
				for k := range want {
					want[k].isExpired = true
				}
			}
			if err := sameKeys(keys, want, false); err != nil {
				return err
			}
			if u := ref.UID(c.name, c.email); len(uids) != 1 || uids[0] != u {
				return fmt.Errorf("GnuPG lists user IDs %q, the key has %q", uids, u)
			}
			e.Outcome(fmt.Sprintf("listed %d keys, expired=%v", len(keys), want[0].isExpired))
			return nil
		})
	})
}

type export struct {
	name   string
	args   []string
	pw     string
	master bool
	cert   bool
	opts   ref.Opts
	data   []byte
}

// gpgHistories: imports of several exports of the same key, in all orders.
func (e *env) gpgHistories() {
	one := func(t string) ref.Opts { return ref.Opts{Name: "anonymous", Select: []string{t}} }
	enc5 := one("encryption")
	enc5.Enc = 5
	two := ref.Opts{Name: "anonymous", Select: []string{"signing", "authentication"}, Sig: 9}
	xs := []*export{
		{name: "full", master: true, cert: true, opts: ref.Opts{Name: "anonymous", All: true}},
		{name: "full with password", pw: "export password", master: true, cert: true, opts: ref.Opts{Name: "anonymous", All: true}},
		{name: "master", args: []string{"-only", "master"}, master: true, cert: true, opts: ref.Opts{Name: "anonymous", Select: []string{}}},
		{name: "signing", args: []string{"-only", "signing"}, cert: true, opts: one("signing")},
		{name: "encryption", args: []string{"-only", "encryption"}, cert: true, opts: one("encryption")},
		{name: "encryption with password", args: []string{"-only", "encryption"}, pw: "other password", cert: true, opts: one("encryption")},
		{name: "authentication without certification", args: []string{"-only", "authentication", "-self-cert=false"}, opts: one("authentication")},
		{name: "encryption 5 without certification", args: []string{"-only", "encryption", "-enc-index", "5", "-self-cert=false"}, opts: enc5},
		{name: "signing 9 and authentication", args: []string{"-only", "signing,authentication", "-sig-index", "9"}, cert: true, opts: two},
	}
	for _, x := range xs {
		x := x
		e.try(func() string { return "export " + x.name }, func() (err error) {
			x.data, err = e.made(demoSeed, demoOffset, x.pw, x.args...)
			return
		})
		if x.data == nil && e.Wanted(func() string { return "" }) {
			return
		}
		if x.data == nil {
			x.data, _ = e.made(demoSeed, demoOffset, x.pw, x.args...)
		}
	}
	depth := 3
	if e.Thorough {
		depth = 4
	}
	var hs [][]int
	var grow func(h []int)
	grow = func(h []int) {
		if len(h) == depth {
			hs = append(hs, append([]int{}, h...))
			return
		}
		for i := range xs {
			grow(append(h, i))
		}
	}
	grow(nil)
	e.Space("all %d sequences of %d imports of %d exports of one key into GnuPG, the keyring compared with the model after each", len(hs), depth, len(xs))
	e.Parallel(len(hs), func(i int) {
		var names []string
		for _, k := range hs[i] {
			names = append(names, xs[k].name)
		}
		e.States(1)
		e.Trace()
		e.try(func() string { return "import " + strings.Join(names, ", then ") }, func() error {
			g, err := e.ring()
			if err != nil {
				return err
			}
			defer g.close()
			var keys map[string]*gkey
			now := int64(stamp(demoOffset)) + 100
			for step, k := range hs[i] {
				x := xs[k]
				e.Steps(1)
				_, errs, code := g.gpg(now, x.data, "--import")
				if keys == nil && !x.cert {
					// Without user ID there is nothing to attach it to.
					if code == 0 {
						return fmt.Errorf("step %d: GnuPG took a key without user ID: %s", step, errs)
					}
					e.Outcome("import refused by GnuPG for want of a user ID")
					continue
				}
				if code != 0 {
					return fmt.Errorf("step %d: GnuPG refuses: %s", step, errs)
				}
				m := ref.Build(demoSeed, stamp(demoOffset), x.opts)
				w := wantKeys(m)
				if keys == nil {
					keys = map[string]*gkey{"": &w[0]}
				}
				keys[""].secret = keys[""].secret || x.master
				for j := range w[1:] {
					s := w[1+j]
					s.secret = true
					keys[s.fpr] = &s
				}
				out, errs, code := g.gpg(now, nil, "--list-secret-keys")
				if code != 0 {
					return fmt.Errorf("step %d: %s", step, errs)
				}
				got, uids, err := listing(out)
				if err != nil {
					return err
				}
				want := []gkey{*keys[""]}
				for f, s := range keys {
					if f != "" {
						want = append(want, *s)
					}
				}
				if err := sameKeys(got, want, true); err != nil {
					return fmt.Errorf("step %d: %w", step, err)
				}
				if len(uids) != 1 || uids[0] != "anonymous" {
					return fmt.Errorf("step %d: user IDs %q", step, uids)
				}
			}
			e.Outcome("keyring as expected")
			return nil
		})
	})
}

// gpgUse: the imported secrets sign and decrypt, with their password and not without.
func (e *env) gpgUse() {
	type uc struct {
		sel  selection
		pw   string
		idx  int
		seed ref.Seed16
		ttl  string
		secs uint32
	}
	var cases []uc
	seeds := []ref.Seed16{demoSeed}
	n := 24
	if e.Thorough {
		n = 1000
	}
	for i := 0; i < n; i++ {
		seeds = append(seeds, ref.Seed16{3: byte(i >> 8), 5: byte(i), 15: 9})
	}
	for _, sel := range selections() {
		for _, pw := range []string{"", "x", "pass phrase ü", strings.Repeat("long ", 30)} {
			for _, idx := range []int{0, 77} {
				cases = append(cases, uc{sel, pw, idx, demoSeed, "", 0})
			}
		}
		for _, idx := range []int{0, 77} {
			cases = append(cases, uc{sel, "", idx, demoSeed, "1d", 86400}, uc{sel, "x", idx, demoSeed, "30y", 30 * 365 * 86400})
		}
	}
	for _, s := range seeds[1:] {
		cases = append(cases, uc{selections()[0], "", 0, s, "", 0})
	}
	e.Space("%d exports imported by GnuPG and used: the signing subkey signs, the encryption subkey decrypts, a wrong password does not", len(cases))
	e.Parallel(len(cases), func(i int) {
		c := cases[i]
		e.Case()
		e.try(func() string {
			return fmt.Sprintf("use only=%q password=%q index=%d ttl=%s seed=%x", c.sel.text, c.pw, c.idx, c.ttl, c.seed)
		}, func() error {
			g, err := e.ring()
			if err != nil {
				return err
			}
			defer g.close()
			args := []string{"-enc-index", strconv.Itoa(c.idx), "-sig-index", strconv.Itoa(c.idx), "-auth-index", strconv.Itoa(c.idx)}
			if c.sel.text != "" {
				args = append(args, "-only", c.sel.text)
			}
			if c.ttl != "" {
				args = append(args, "-ttl", c.ttl)
			}
			data, err := e.made(c.seed, demoOffset, c.pw, args...)
			if err != nil {
				return err
			}
			now := int64(stamp(demoOffset)) + 100
			if _, errs, code := g.gpg(now, data, "--import"); code != 0 {
				return fmt.Errorf("GnuPG refuses: %s", errs)
			}
			o := c.sel.opts
			o.TTL = c.secs
			o.Enc, o.Sig, o.Auth = uint16(c.idx), uint16(c.idx), uint16(c.idx)
			m := ref.Build(c.seed, stamp(demoOffset), o)
			msg := []byte("message of the day")
			if k := m.Subs["signing"]; k != nil {
				f := strings.ToUpper(hex.EncodeToString(k.Fpr()))
				if c.pw != "" {
					if _, _, code := g.gpg(now, msg, "--passphrase", c.pw+"!", "-u", f+"!", "--sign"); code == 0 {
						return fmt.Errorf("signs with a wrong password")
					}
				}
				sig, errs, code := g.gpg(now, msg, "--passphrase", c.pw, "-u", f+"!", "--sign")
				if code != 0 {
					return fmt.Errorf("does not sign: %s", errs)
				}
				out, errs, code := g.gpg(now, sig, "--status-fd", "2", "--decrypt")
				if code != 0 || !bytes.Equal(out, msg) || !bytes.Contains(errs, []byte("VALIDSIG "+f)) {
					return fmt.Errorf("signature does not verify: %s", errs)
				}
				e.Outcome("signs")
			}
			if k := m.Subs["encryption"]; k != nil {
				f := strings.ToUpper(hex.EncodeToString(k.Fpr()))
				ct, errs, code := g.gpg(now, msg, "--trust-model", "always", "-r", f+"!", "--encrypt")
				if code != 0 {
					return fmt.Errorf("does not encrypt: %s", errs)
				}
				if c.pw != "" {
					exec.Command("gpgconf", "--homedir", g.dir, "--reload", "gpg-agent").Run()
					if out, _, code := g.gpg(now, ct, "--passphrase", c.pw+"!", "--decrypt"); code == 0 || len(out) != 0 {
						return fmt.Errorf("decrypts with a wrong password")
					}
				}
				out, errs, code := g.gpg(now, ct, "--passphrase", c.pw, "--decrypt")
				if code != 0 || !bytes.Equal(out, msg) {
					return fmt.Errorf("does not decrypt: %s", errs)
				}
				e.Outcome("decrypts")
			}
			if c.sel.master {
				// The master key certifies: it can add a user ID of its own.
				f := strings.ToUpper(hex.EncodeToString(m.Master.Fpr()))
				if _, errs, code := g.gpg(now, nil, "--passphrase", c.pw, "--quick-add-uid", f, "second <id@x>"); code != 0 {
					return fmt.Errorf("does not certify: %s", errs)
				}
				e.Outcome("certifies")
			} else {
				f := strings.ToUpper(hex.EncodeToString(m.Master.Fpr()))
				if _, _, code := g.gpg(now, nil, "--passphrase", c.pw, "--quick-add-uid", f, "second <id@x>"); code == 0 {
					return fmt.Errorf("certifies although the master key was not to be exported")
				}
				e.Outcome("does not certify")
			}
			return nil
		})
	})
}
