package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/kklash/mnemonikey"
	"verif/cli"
	"verif/ref"
)

func init() { checks["C31"] = c31 }

// ---- C31: the environment decides nothing ----

// setting is one way in which the environment of a run differs.
type setting struct {
	dim, name string
	pre       string // shell text before the command, run by bash
	run       string // instead of exec "$@"
}

func (e *env) settings() []setting {
	east := e.box.File("east", tzfile(86399))
	west := e.box.File("west", tzfile(-86399))
	cut := e.box.File("cut", tzfile(3600)[:60])
	junk := e.box.Path("junk")
	os.Mkdir(junk, 0o755)
	for _, n := range []string{"recover", "generate", "convert", "help", ".env", ".mnemonikeyrc", "mnemonikey.json", "config.toml", "words", "-", "anonymous"} {
		os.WriteFile(junk+"/"+n, []byte("name=evil\nttl=1d\nonly=signing\n"), 0o755)
	}
	var out []setting
	exp := func(dim string, vs ...string) {
		for _, v := range vs {
			pre := ""
			for _, kv := range strings.Split(v, "|") {
				if strings.HasPrefix(kv, "!") {
					pre += "unset " + kv[1:] + "; "
				} else {
					k, x, _ := strings.Cut(kv, "=")
					pre += "export " + k + "='" + x + "'; "
				}
			}
			out = append(out, setting{dim: dim, name: v, pre: pre})
		}
	}
	exp("tz", "!TZ", "TZ=", "TZ=UTC", "TZ=America/New_York", "TZ=Pacific/Kiritimati", "TZ=Pacific/Pago_Pago", "TZ=Asia/Kathmandu", "TZ=bogus/zone", "TZ=EST5EDT", "TZ=:"+east, "TZ="+west, "TZ="+cut, "ZONEINFO=/nonexistent|TZ=Asia/Tokyo")
	exp("locale", "LC_ALL=C", "LANG=en_US.UTF-8", "LC_ALL=tr_TR.UTF-8|LANG=tr_TR.UTF-8", "LC_ALL=ja_JP.SJIS", "LC_ALL=bogus", "!LANG|!LC_ALL")
	exp("term", "!TERM", "TERM=dumb", "TERM=xterm-256color", "TERM=", "NO_COLOR=1", "CLICOLOR_FORCE=1", "COLUMNS=1|LINES=1", "COLUMNS=0", "COLUMNS=bogus")
	exp("user", "!HOME", "HOME=/nonexistent", "HOME="+junk, "USER=evil|LOGNAME=evil|NAME=evil|EMAIL=evil@x|GIT_AUTHOR_NAME=evil|GIT_AUTHOR_EMAIL=evil@x|DEBFULLNAME=evil|DEBEMAIL=evil@x", "XDG_CONFIG_HOME="+junk, "TMPDIR=/nonexistent", "GNUPGHOME="+junk, "!PATH", "PWD=/nonexistent")
	exp("runtime", "GOMAXPROCS=1", "GOMAXPROCS=64", "GOGC=1", "GOGC=off", "GOTRACEBACK=all", "DEBUG=1|VERBOSE=1|TEST=1", "SOURCE_DATE_EPOCH=0", "FAKETIME=2000-01-01", "POSIXLY_CORRECT=1", "MNEMONIKEY_NAME=evil|MNEMONIKEY_EMAIL=evil@x|MNEMONIKEY_TTL=1d|MNEMONIKEY_ONLY=signing|MNEMONIKEY_VERBOSE=1|MNEMONIKEY_PASSWORD=x")
	out = append(out, setting{dim: "all", name: "no environment at all", run: `exec /usr/bin/env -i "$@"`},
		setting{dim: "argv0", name: "called recover", run: `exec -a recover "$@"`},
		setting{dim: "argv0", name: "called by an empty name", run: `exec -a "" "$@"`},
		setting{dim: "argv0", name: "called by another path", run: `exec -a /some/where/else "$@"`},
		setting{dim: "dir", name: "in /", pre: "cd /; "},
		setting{dim: "dir", name: "in a directory that is gone", pre: "/bin/mkdir " + junk + "/gone$$; cd " + junk + "/gone$$; /bin/rmdir " + junk + "/gone$$; "},
		setting{dim: "dir", name: "in a directory full of odd names", pre: "cd " + junk + "; "},
		setting{dim: "mask", name: "umask 000", pre: "umask 000; "},
		setting{dim: "mask", name: "umask 077", pre: "umask 077; "},
		setting{dim: "mask", name: "umask 777", pre: "umask 777; "},
		setting{dim: "stdin", name: "no standard input", pre: "exec < /dev/null; "},
		setting{dim: "stdin", name: "closed standard input", pre: "exec <&-; "},
		setting{dim: "stdin", name: "words on standard input", pre: "exec < " + e.box.File("stdin", joined(encPhrase("other"))) + "; "},
		setting{dim: "stdin", name: "directory as standard input", pre: "exec < /; "},
		setting{dim: "fds", name: "more open files", pre: "exec 3</dev/null 4</dev/null 9</dev/null; "},
		setting{dim: "fds", name: "few open files", pre: "ulimit -n 16; "},
		setting{dim: "signals", name: "signals ignored", pre: "trap '' INT HUP QUIT TERM USR1; "},
	)
	return out
}

// tzfile makes a time zone file with one fixed offset.
func tzfile(off int32) []byte {
	u := uint32(off)
	abbr := []byte("XXX\x00")
	h := func(v byte) []byte {
		b := append([]byte("TZif"), v)
		b = append(b, make([]byte, 15)...)
		for _, n := range []int{0, 0, 0, 0, 1, len(abbr)} {
			b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		b = append(b, byte(u>>24), byte(u>>16), byte(u>>8), byte(u), 0, 0)
		return append(b, abbr...)
	}
	return append(append(h('2'), h('2')...), "\n\n"...)
}

// action is one command whose result the environment must not change.
type action struct {
	name string
	do   func(run func(args ...string) *cli.Result) error
}

func (e *env) actions() []action {
	wf := e.box.File("words", joined(plainPhrase()))
	badWords := plainPhrase()
	badWords[5] = "zzzzz"
	bad := e.box.File("bad", joined(badWords))
	entropy := []byte("0123456789abcdef0123456789abcdef")
	ent := e.box.File("entropy", entropy)
	entSeed := func() (s ref.Seed16) {
		x, err := mnemonikey.GenerateSeed(bytes.NewReader(entropy))
		if err != nil {
			panic(err)
		}
		copy(s[16-len(x.Bytes()):], x.Bytes())
		return
	}
	rec := func(o ref.Opts, master, cert bool, args ...string) func(run func(args ...string) *cli.Result) error {
		return func(run func(args ...string) *cli.Result) error {
			r := run(append([]string{"recover", "-in-word-file", wf}, args...)...)
			if err := succeeded(r); err != nil {
				return err
			}
			return keyIs(r.Out, expect(demoSeed, demoOffset, o, master, cert))
		}
	}
	gen := func(o ref.Opts, master bool, args ...string) func(run func(args ...string) *cli.Result) error {
		return func(run func(args ...string) *cli.Result) error {
			a := append([]string{"generate", "-unsafe-entropy", ent}, args...)
			from := time.Now().Unix()
			r := run(a...)
			to := time.Now().Unix()
			if err := succeeded(r); err != nil {
				return err
			}
			s, off, _, err := seedOf(cli.Phrase(r.Err), "")
			if err != nil {
				return err
			}
			if s != entSeed() {
				return fmt.Errorf("seed %x", s)
			}
			if c := int64(stamp(off)); c < from || c > to {
				return fmt.Errorf("created at %d, the time is %d to %d", c, from, to)
			}
			return keyIs(r.Out, expect(s, off, o, master, true))
		}
	}
	acts := []action{
		{"recover", rec(ref.Opts{Name: "anonymous", All: true}, true, true)},
		{"recover with a lifetime, a name and one subkey", rec(ref.Opts{Name: "N", Email: "m@x", TTL: 365 * 86400, Sig: 3, Select: []string{"signing"}}, false, false,
			"-name", "N", "-email", "m@x", "-ttl", "1y", "-sig-index", "3", "-only", "signing", "-self-cert=false")},
		{"generate", gen(ref.Opts{Name: "anonymous", All: true}, true)},
		{"generate with a lifetime", gen(ref.Opts{Name: "anonymous", All: true, TTL: 86400}, true, "-ttl", "1d")},
		{"recover -verbose", func(run func(args ...string) *cli.Result) error {
			r := run("recover", "-in-word-file", wf, "-verbose", "-ttl", "1d")
			if err := succeeded(r); err != nil {
				return err
			}
			o := ref.Opts{Name: "anonymous", All: true, TTL: 86400}
			if err := keyIs(r.Out, expect(demoSeed, demoOffset, o, true, true)); err != nil {
				return err
			}
			return tells(r.Err, ref.Build(demoSeed, stamp(demoOffset), o))
		}},
		{"convert to a file", func(run func(args ...string) *cli.Result) error {
			out := e.box.Path("out")
			defer os.Remove(out)
			r := run("convert", "-in-word-file", wf, "-out-word-file", out)
			if err := succeeded(r); err != nil {
				return err
			}
			b, err := os.ReadFile(out)
			if err != nil {
				return err
			}
			if len(r.Out) != 0 {
				return fmt.Errorf("standard output: %s", r)
			}
			return ref.SameWords(strings.Fields(string(b)), plainPhrase())
		}},
		{"convert", func(run func(args ...string) *cli.Result) error {
			r := run("convert", "-in-word-file", wf)
			if err := succeeded(r); err != nil {
				return err
			}
			return ref.SameWords(cli.Phrase(r.Err), plainPhrase())
		}},
		{"recover from a bad phrase", func(run func(args ...string) *cli.Result) error { return refused(run("recover", "-in-word-file", bad)) }},
		{"bad option", func(run func(args ...string) *cli.Result) error { return refused(run("generate", "-bogus")) }},
		{"bad lifetime", func(run func(args ...string) *cli.Result) error { return refused(run("generate", "-ttl", "1z")) }},
	}
	return acts
}

// envRun runs the binary in a changed environment.
func (e *env) envRun(ss ...setting) func(args ...string) *cli.Result {
	pre, run := "", `exec "$@"`
	for _, s := range ss {
		pre += s.pre
		if s.run != "" {
			run = s.run
		}
	}
	return func(args ...string) *cli.Result {
		return e.box.Run(cli.Spec{Args: append([]string{"-c", pre + run, "bash", e.box.Bin}, args...), Shell: `shift; exec /bin/bash "$@"`})
	}
}

var varName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

var upper = regexp.MustCompile(`"([A-Z][A-Z0-9_]{2,})"`)

// named gives all upper-case names in the sources, which might be names of environment variables.
func named() (out []string) {
	seen := map[string]bool{}
	dir := os.Getenv("VERIF_REPO")
	for _, sub := range []string{".", "cmd/mnemonikey", "mnemonic", "pgp"} {
		es, _ := os.ReadDir(dir + "/" + sub)
		for _, x := range es {
			if !strings.HasSuffix(x.Name(), ".go") || strings.HasSuffix(x.Name(), "_test.go") {
				continue
			}
			b, _ := os.ReadFile(dir + "/" + sub + "/" + x.Name())
			for _, m := range upper.FindAllSubmatch(b, -1) {
				if n := string(m[1]); !seen[n] && !strings.HasPrefix(n, "VERIF_") {
					seen[n] = true
					out = append(out, n)
				}
			}
		}
	}
	sort.Strings(out)
	return
}

func c31(e *env) {
	ss := e.settings()
	for _, n := range named() {
		for _, v := range []string{"1", "evil", "0", "1d"} {
			ss = append(ss, setting{dim: "named", name: n + "=" + v, pre: "export " + n + "='" + v + "'; "})
		}
	}
	// Where the sources look at variables, everything else in the same function may be a value with a meaning.
	for _, f := range declTexts() {
		if !f.env {
			continue
		}
		for _, n := range f.lits {
			for _, v := range f.lits {
				if n != v && varName.MatchString(n) && len(v) > 0 && len(v) < 24 && !strings.ContainsAny(v, "'\x00\n") {
					for _, x := range []string{v, v + "x", v + "_XX.UTF-8"} {
						ss = append(ss, setting{dim: "named", name: n + "=" + x, pre: "export " + n + "='" + x + "'; "})
					}
				}
			}
		}
	}
	acts := e.actions()
	type job struct {
		s []setting
		a action
	}
	var jobs []job
	for _, a := range acts {
		jobs = append(jobs, job{nil, a})
		for _, s := range ss {
			jobs = append(jobs, job{[]setting{s}, a})
		}
	}
	single := len(jobs)
	apart := func(x ...int) bool {
		dims := map[string]bool{}
		for _, i := range x {
			if dims[ss[i].dim] {
				return false
			}
			dims[ss[i].dim] = true
		}
		return true
	}
	for i := range ss {
		for j := i + 1; j < len(ss); j++ {
			if !apart(i, j) {
				continue
			}
			for _, a := range acts {
				jobs = append(jobs, job{[]setting{ss[i], ss[j]}, a})
			}
			if !e.Thorough {
				continue
			}
			for k := j + 1; k < len(ss); k++ {
				if apart(i, j, k) {
					for _, a := range acts[:6] {
						jobs = append(jobs, job{[]setting{ss[i], ss[j], ss[k]}, a})
					}
				}
			}
		}
	}
	e.Space("%d environments (time zone, locale, terminal, user, runtime, directory, umask, descriptors, names) x %d commands; %d runs in all pairs of environments (thorough: and triples)", len(ss)+1, len(acts), len(jobs)-single)
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		names := []string{}
		for _, s := range j.s {
			names = append(names, s.name)
		}
		e.try(func() string { return fmt.Sprintf("%s with %s", j.a.name, strings.Join(names, " and ")) }, func() error {
			err := j.a.do(e.envRun(j.s...))
			if err == nil {
				e.Outcome(j.a.name + " as ever")
			}
			return err
		})
	})
	e.zones(ss)
	e.envTTY(ss)
	e.probes(acts)
}

// probes finds out which files the command looks for beyond those it is told to use, and puts something there.
func (e *env) probes(acts []action) {
	contents := []string{"", "evil\n", "name=evil\nttl=1d\nonly=signing\nverbose=true\n", "name: evil\nttl: 1d\nonly: signing\n", `{"name": "evil", "email": "evil@x", "ttl": "1d", "only": "signing", "verbose": true}`,
		"[mnemonikey]\nname = \"evil\"\nttl = \"1d\"\nonly = \"signing\"\n", "-name evil -ttl 1d -only signing\n", "1d\n", "signing\n", strings.Join(plainPhrase()[:13], " ") + " zone\n", string(joined(encPhrase("other"))), "1\n", "true\n",
		"name evil\nttl 1d\n", "NAME=evil\nTTL=1d\n", "\x00\x01\x02\xff", "Evil Person <evil@example.org>\n"}
	usual := func(p string) bool {
		for _, d := range []string{"/proc/", "/sys/", "/dev/", "/usr/share/zoneinfo", "/usr/share/lib/zoneinfo", "/usr/lib/locale", "/etc/localtime", "/etc/zoneinfo", "/lib/", "/usr/lib/", "/etc/ld.so"} {
			if strings.HasPrefix(p, d) {
				return true
			}
		}
		return strings.HasSuffix(p, "/lib/time/zoneinfo.zip") || strings.Contains(p, "/zoneinfo/")
	}
	// near: the directory of a file named on the command line, what lies there, and what leads there.
	near := func(args []string, p string) bool {
		for _, a := range args {
			if strings.HasPrefix(a, "/") && (filepath.Dir(a) == filepath.Dir(p) || strings.HasPrefix(a, strings.TrimSuffix(p, "/")+"/")) {
				return true
			}
		}
		return false
	}
	// look runs an action with something (or nothing) at a path, and gives the paths it looked at.
	look := func(a action, put string, content string, isDir bool) (seen []string, err error) {
		dir := e.box.Path("probe")
		defer os.RemoveAll(dir)
		for _, d := range []string{"/home", "/tmp", "/xdg", "/work", "/run"} {
			if err := os.MkdirAll(dir+d, 0o700); err != nil {
				return nil, err
			}
		}
		norm := func(p string) string { // with the tree as @
			if !strings.HasPrefix(p, "/") {
				p = dir + "/work/" + p
			}
			p = filepath.Clean(p)
			if p == dir || strings.HasPrefix(p, dir+"/") {
				return "@" + p[len(dir):]
			}
			return p
		}
		decoy := ""
		if put != "" {
			target := dir + "/d" // outside the tree, the call is sent here instead
			if strings.HasPrefix(put, "@") {
				target = dir + put[1:]
			} else {
				decoy = "../d"
			}
			os.MkdirAll(filepath.Dir(target), 0o700)
			if isDir {
				err = os.MkdirAll(target, 0o700)
			} else {
				err = os.WriteFile(target, []byte(content), 0o700)
			}
			if err != nil {
				return nil, nil // it cannot be there: its parent is something else
			}
		}
		found := map[string]bool{}
		run := func(args ...string) *cli.Result {
			told := map[string]bool{filepath.Clean(e.box.Bin): true}
			for _, x := range args {
				told[x] = true
			}
			hook := func(k *cli.Call) cli.Act {
				if !k.Enter {
					return cli.Act{}
				}
				for i, p := range k.Paths() {
					if p == "" || told[p] || usual(p) || near(args, p) {
						continue
					}
					n := norm(p)
					if n == "@" || n == "@/work" {
						continue // the current directory itself
					}
					found[n] = true
					if i == 0 && decoy != "" && n == put && len(decoy) <= len(p) && strings.HasPrefix(p, "/") {
						return cli.Act{Path: decoy}
					}
				}
				return cli.Act{}
			}
			r, _, err := e.box.Trace(cli.TraceSpec{Args: args, Hook: hook, Setup: fmt.Sprintf("cd %s/work; export HOME=%s/home TMPDIR=%s/tmp XDG_CACHE_HOME=%s/xdg XDG_CONFIG_HOME=%s/xdg XDG_DATA_HOME=%s/xdg XDG_STATE_HOME=%s/xdg XDG_RUNTIME_DIR=%s/run GNUPGHOME=%s/home/.gnupg",
				dir, dir, dir, dir, dir, dir, dir, dir, dir)})
			if err != nil {
				panic(err)
			}
			return r
		}
		err = a.do(run)
		for p := range found {
			seen = append(seen, p)
		}
		sort.Strings(seen)
		return seen, err
	}
	var mu sync.Mutex
	paths := map[string]bool{}
	note := func(seen []string) {
		mu.Lock()
		defer mu.Unlock()
		for _, p := range seen {
			paths[p] = true
		}
	}
	e.Parallel(len(acts), func(i int) {
		e.Case()
		e.try(func() string { return "files looked for by " + acts[i].name }, func() error {
			seen, err := look(acts[i], "", "", false)
			note(seen)
			return err
		})
	})
	done := map[string]bool{}
	for round := 0; round < 3 && !e.Stop(); round++ {
		type job struct {
			a       action
			path    string
			content string
			dir     bool
		}
		var jobs []job
		var ps []string
		for p := range paths {
			if !done[p] {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		for _, p := range ps {
			done[p] = true
			for _, a := range acts {
				for _, c := range contents {
					jobs = append(jobs, job{a, p, c, false})
				}
				jobs = append(jobs, job{a, p, "", true})
			}
		}
		if round == 0 {
			e.Space("the files looked for by %d commands beyond those named on the command line (%d), each with %d contents", len(acts), len(ps), len(contents)+1)
		}
		e.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			e.Case()
			e.try(func() string {
				return fmt.Sprintf("%s with %q in %s (directory: %v)", j.a.name, j.content, j.path, j.dir)
			}, func() error {
				seen, err := look(j.a, j.path, j.content, j.dir)
				note(seen)
				return err
			})
		})
	}
}

// zones crosses the time zones with lifetimes and creation times, where calendars and clock changes would show.
func (e *env) zones(ss []setting) {
	var tz []setting
	for _, s := range ss {
		if s.dim == "tz" {
			tz = append(tz, s)
		}
	}
	for _, z := range []string{"Europe/Berlin", "Australia/Lord_Howe", "America/St_Johns", "Africa/Casablanca", "America/Sao_Paulo"} {
		tz = append(tz, setting{dim: "tz", name: "TZ=" + z, pre: "export TZ=" + z + "; "})
	}
	type life struct {
		text string
		secs uint64
	}
	lives := []life{{"", 0}}
	units := []struct {
		u string
		s uint64
	}{{"d", 86400}, {"w", 7 * 86400}, {"m", 365 * 86400 / 12}, {"y", 365 * 86400}}
	counts := []uint64{1, 2, 3, 5, 10, 20, 26, 40}
	offs := []uint32{demoOffset}
	if e.Thorough {
		for n := uint64(1); n <= 60; n++ {
			counts = append(counts, n)
		}
		for i := uint32(1); i < 24; i++ {
			offs = append(offs, i*15*86400+i*3600*7)
		}
	} else {
		for i := uint32(1); i < 6; i++ {
			offs = append(offs, i*67*86400+i*3600*7)
		}
	}
	for _, u := range units {
		for _, n := range counts {
			if n*u.s < 60*365*86400 {
				lives = append(lives, life{fmt.Sprint(n, u.u), n * u.s})
			}
		}
	}
	type job struct {
		tz   setting
		life life
		off  uint32
		gen  bool
	}
	var jobs []job
	for _, z := range tz {
		for _, l := range lives {
			for _, o := range offs {
				jobs = append(jobs, job{z, l, o, false})
			}
			jobs = append(jobs, job{z, l, 0, true})
		}
	}
	words := map[uint32]string{}
	for i, o := range offs {
		words[o] = e.box.File(fmt.Sprintf("zone%d", i), joined(ref.Phrase(ref.Fields{Version: 0, Seed: demoSeed, Offset: o})))
	}
	entropy := e.box.File("zone-entropy", []byte("0123456789abcdef0123456789abcdef"))
	e.Space("%d time zones x %d lifetimes x (%d creation times recovered, one generated)", len(tz), len(lives), len(offs))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.Case()
		e.try(func() string {
			return fmt.Sprintf("lifetime %q of a key from %d (generated: %v) with %s", j.life.text, j.off, j.gen, j.tz.name)
		}, func() error {
			args := []string{"recover", "-in-word-file", words[j.off]}
			if j.gen {
				args = []string{"generate", "-unsafe-entropy", entropy}
			}
			args = append(args, "-verbose")
			if j.life.text != "" {
				args = append(args, "-ttl", j.life.text)
			}
			r := e.envRun(j.tz)(args...)
			if err := succeeded(r); err != nil {
				return err
			}
			seed, off := demoSeed, j.off
			if j.gen {
				var err error
				if seed, off, _, err = seedOf(cli.Phrase(r.Err), ""); err != nil {
					return err
				}
			}
			o := ref.Opts{Name: "anonymous", All: true, TTL: uint32(j.life.secs)}
			if err := keyIs(r.Out, expect(seed, off, o, true, true)); err != nil {
				return err
			}
			e.Outcome("the same expiry in every time zone")
			return tells(r.Err, ref.Build(seed, stamp(off), o))
		})
	})
}

// envTTY does the same for commands with passwords at the terminal.
func (e *env) envTTY(ss []setting) {
	ef := e.box.File("enc", joined(encPhrase(demoPW)))
	var vars []setting
	for _, s := range ss {
		if s.dim == "tz" || s.dim == "locale" || s.dim == "term" || s.dim == "user" || s.dim == "runtime" || s.dim == "named" {
			vars = append(vars, s)
		}
	}
	e.Space("%d of these environments for recover with an encrypted phrase at a terminal", len(vars))
	e.Parallel(len(vars), func(i int) {
		s := vars[i]
		e.Case()
		e.try(func() string { return "encrypted phrase with " + s.name }, func() error {
			t, err := e.box.Start(cli.TTYSpec{Bin: "/bin/bash", Args: []string{"-c", s.pre + `exec "$@"`, "bash", e.box.Bin, "recover", "-in-word-file", ef}, Rows: 24, Cols: 80})
			if err != nil {
				return err
			}
			if t.WaitMode(cli.NoEcho) {
				t.Send([]byte(demoPW + "\n"))
			}
			r, _ := t.Wait()
			if err := succeeded(r); err != nil {
				return err
			}
			e.Outcome("encrypted phrase as ever")
			return keyIs(r.Out, expect(demoSeed, demoOffset, ref.Opts{Name: "anonymous", All: true}, true, true))
		})
	})
}
