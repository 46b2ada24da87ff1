package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"verif/cli"
)

func init() { checks["C30"] = c30 }

// ---- C30: nothing is left behind but the word file, and nothing leaves the process ----

type traceCase struct {
	name  string
	args  []string // WORDS, BAD, ENC, ENTROPY, OUT and TAKEN stand for files in the tree
	lines []string // typed at prompts, one after the other
	raw   string   // typed at the interactive word prompt, first
	tty   bool
	int   bool   // interrupt at the last prompt instead of an answer
	out   bool   // OUT is expected to appear
	pw    string // of the phrase in OUT
	ok    bool   // expected to succeed
}

// tree lists everything below a directory with all that can change.
func tree(dir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		st := i.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d links=%d uid=%d size=%d", i.Mode(), st.Ino, st.Nlink, st.Uid, i.Size())
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" mtime=%v %q", i.ModTime(), b)
		} else if i.IsDir() {
			s = fmt.Sprintf("%v ino=%d uid=%d", i.Mode(), st.Ino, st.Uid)
		}
		m[strings.TrimPrefix(p, dir)] = s
		return nil
	})
	return m, err
}

var changing = map[string]bool{"truncate": true, "rename": true, "mkdir": true, "rmdir": true, "creat": true, "link": true, "unlink": true, "symlink": true,
	"chmod": true, "chown": true, "mknod": true, "mkdirat": true, "mknodat": true, "fchownat": true, "unlinkat": true, "renameat": true,
	"linkat": true, "symlinkat": true, "fchmodat": true, "utimensat": true, "renameat2": true}

var outward = map[uint64]string{41: "socket", 42: "connect", 53: "socketpair", 57: "fork", 58: "vfork", 59: "execve", 322: "execveat", 29: "shmget", 64: "semget",
	68: "msgget", 240: "mq_open", 319: "memfd_create", 310: "process_vm_readv", 311: "process_vm_writev", 101: "ptrace", 248: "add_key", 425: "io_uring_setup"}

// onOwn runs a case in its own tree; fault is the number of the system call on the tree's files that fails, or -1.
func (e *env) onOwn(c *traceCase, fault int, errno syscall.Errno) (points int, r *cli.Result, err error) {
	dir := e.box.Path("tree")
	defer os.RemoveAll(dir)
	for _, d := range []string{"", "/home", "/tmp", "/xdg", "/work", "/run", "/dest"} {
		if err := os.MkdirAll(dir+d, 0o700); err != nil {
			return 0, nil, err
		}
	}
	put := func(name string, b []byte) string {
		p := dir + "/work/" + name
		if err := os.WriteFile(p, b, 0o600); err != nil {
			panic(err)
		}
		return p
	}
	bad := plainPhrase()
	bad[3] = "zzzz"
	files := map[string]string{
		"WORDS": put("words", joined(plainPhrase())), "BAD": put("bad", joined(bad)), "ENC": put("enc", joined(encPhrase(demoPW))),
		"ENTROPY": put("entropy", []byte("0123456789abcdef0123456789abcdef")), "SHORT": put("short", []byte("0123")),
		"TAKEN": put("../dest/taken", []byte("precious")), "OUT": dir + "/dest/out",
	}
	args := append([]string{}, c.args...)
	for i, a := range args {
		if f, ok := files[a]; ok {
			args[i] = f
		}
	}
	// Files that a program might add to if they are there.
	for _, d := range []string{"/home", "/xdg", "/work", "/tmp", "/run"} {
		for _, n := range []string{".mnemonikey", ".mnemonikey_history", "mnemonikey.log", ".history", "mnemonikey"} {
			if err := os.WriteFile(dir+d+"/"+n, []byte("before\n"), 0o600); err != nil {
				return 0, nil, err
			}
		}
	}
	before, err := tree(dir)
	if err != nil {
		return 0, nil, err
	}
	var wrong []string
	inside := func(p string) bool {
		if !strings.HasPrefix(p, "/") {
			p = dir + "/work/" + p
		}
		p = filepath.Clean(p)
		return p == dir || strings.HasPrefix(p, dir+"/")
	}
	harmless := func(p string) bool {
		return p == "/dev/tty" || p == "/dev/null" || strings.HasPrefix(p, "/dev/pts/") || strings.HasPrefix(p, "/dev/fd/") || strings.HasPrefix(p, "/proc/self/fd/") ||
			p == "/dev/stdin" || p == "/dev/stdout" || p == "/dev/stderr"
	}
	deny := func(format string, a ...any) cli.Act {
		wrong = append(wrong, fmt.Sprintf(format, a...))
		return cli.Act{Errno: syscall.EACCES}
	}
	hook := func(k *cli.Call) cli.Act {
		if !k.Enter {
			return cli.Act{}
		}
		if n, ok := outward[k.Nr]; ok {
			return deny("calls %s", n)
		}
		if k.Nr == 56 && k.Arg[0]&0x10000 == 0 { // clone without CLONE_THREAD
			return deny("starts a process")
		}
		if k.Nr == 435 { // clone3
			if b := k.Bytes(0, 8); len(b) == 8 && b[2]&1 == 0 {
				return deny("starts a process")
			}
		}
		if paths := k.Paths(); paths != nil {
			name := k.PathName()
			writes := changing[name]
			switch k.Nr {
			case 2:
				writes = k.Arg[1]&(3|0x40|0x200|0x400) != 0
			case 257:
				writes = k.Arg[2]&(3|0x40|0x200|0x400) != 0
			case 437:
				if b := k.Bytes(2, 8); len(b) == 8 {
					writes = b[0]&(3|0x40) != 0 || b[1]&6 != 0
				}
			}
			if writes {
				for _, p := range paths {
					if !inside(p) && !harmless(p) {
						return deny("%s %s", name, p)
					}
					// In the word file's own directory the tree is compared; anywhere else nothing is to be written at all.
					if inside(p) && !strings.HasPrefix(filepath.Clean(p), dir+"/dest/") {
						wrong = append(wrong, name+" for writing: "+p)
					}
				}
			}
		}
		if k.Touches(dir) != "" || k.IsWrite(1) || k.IsWrite(2) {
			points++
			if points-1 == fault {
				return cli.Act{Errno: errno}
			}
		}
		return cli.Act{}
	}
	typed, raws, ints := 0, 0, 0
	spec := cli.TraceSpec{Args: args, Hook: hook,
		Setup: fmt.Sprintf("umask 022; cd %s/work; export HOME=%s/home TMPDIR=%s/tmp XDG_CACHE_HOME=%s/xdg XDG_CONFIG_HOME=%s/xdg XDG_DATA_HOME=%s/xdg XDG_STATE_HOME=%s/xdg XDG_RUNTIME_DIR=%s/run",
			dir, dir, dir, dir, dir, dir, dir, dir)}
	if c.tty {
		spec.TTY = &cli.TTYSpec{Rows: 24, Cols: 80}
		spec.Idle = func(p *cli.Traced) bool {
			if !p.Waiting() {
				return false
			}
			if raws < len(c.raw) {
				p.Type([]byte(c.raw))
				raws = len(c.raw)
				return true
			}
			if typed < len(c.lines) {
				p.Type([]byte(c.lines[typed] + "\n"))
				typed++
				return true
			}
			if c.int && ints == 0 {
				ints++
				p.Signal(syscall.SIGINT)
				return true
			}
			return false
		}
	}
	r, _, err = e.box.Trace(spec)
	if err != nil {
		return points, r, err
	}
	if err := r.Sane(); err != nil {
		return points, r, err
	}
	if len(wrong) > 0 {
		return points, r, fmt.Errorf("the command reaches outside: %s", strings.Join(wrong, "; "))
	}
	after, err := tree(dir)
	if err != nil {
		return points, r, err
	}
	var diff []string
	for p, s := range after {
		if old, ok := before[p]; !ok {
			if p != "/dest/out" || !c.out {
				diff = append(diff, "new: "+p+" "+s)
			}
		} else if old != s {
			diff = append(diff, fmt.Sprintf("changed: %s from %s to %s", p, old, s))
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			diff = append(diff, "gone: "+p)
		}
	}
	sort.Strings(diff)
	if len(diff) > 0 {
		return points, r, fmt.Errorf("files changed: %s", strings.Join(diff, "; "))
	}
	if fault >= 0 {
		return points, r, nil
	}
	if c.ok != (r.Code == 0) {
		return points, r, fmt.Errorf("success expected: %v, but %s", c.ok, r)
	}
	if c.out && c.ok {
		i, err := os.Lstat(dir + "/dest/out")
		if err != nil {
			return points, r, err
		}
		if i.Mode()&0o077 != 0 || !i.Mode().IsRegular() {
			return points, r, fmt.Errorf("word file has mode %v", i.Mode())
		}
		b, err := os.ReadFile(dir + "/dest/out")
		if err != nil {
			return points, r, err
		}
		if _, _, _, err := seedOf(strings.Fields(string(b)), c.pw); err != nil {
			return points, r, err
		}
	}
	return points, r, nil
}

func (e *env) traceCases() (cs []*traceCase) {
	const pw, kp = "phrase password", "key password"
	f := func(on bool, s ...string) []string {
		if on {
			return s
		}
		return nil
	}
	cat := func(ls ...[]string) (out []string) {
		for _, l := range ls {
			out = append(out, l...)
		}
		return
	}
	bits := func(n int, k func(b []bool)) {
		for m := 0; m < 1<<n; m++ {
			b := make([]bool, n)
			for i := range b {
				b[i] = m>>i&1 == 1
			}
			k(b)
		}
	}
	add := func(c traceCase) {
		c.name = strings.Join(c.args, " ")
		if c.raw != "" {
			c.name += " interactive"
		}
		if c.int {
			c.name += " interrupted"
		}
		c.tty = len(c.lines) > 0 || c.raw != "" || c.int
		cs = append(cs, &c)
	}
	bits(6, func(b []bool) {
		out, ep, ek, ver, ent, sub := b[0], b[1], b[2], b[3], b[4], b[5]
		p := ""
		if ep {
			p = pw
		}
		c := traceCase{ok: true, out: out, pw: p,
			args:  cat([]string{"generate"}, f(out, "-out-word-file", "OUT"), f(ep, "-encrypt-phrase"), f(ek, "-encrypt-keys"), f(ver, "-verbose"), f(ent, "-unsafe-entropy", "ENTROPY"), f(sub, "-only", "encryption", "-ttl", "1y", "-name", "N")),
			lines: cat(f(ek, kp, kp), f(ep, pw, pw))}
		add(c)
		if ep || ek {
			for k := range c.lines {
				d := c
				d.lines, d.int, d.ok, d.out = c.lines[:k], true, false, false
				add(d)
			}
		}
	})
	bits(4, func(b []bool) {
		enc, ek, ver, sub := b[0], b[1], b[2], b[3]
		in := "WORDS"
		words := plainPhrase()
		if enc {
			in = "ENC"
			words = encPhrase(demoPW)
		}
		rest := cat(f(ek, "-encrypt-keys"), f(ver, "-verbose"), f(sub, "-only", "signing", "-sig-index", "7"))
		lines := cat(f(enc, demoPW), f(ek, kp, kp))
		if enc {
			lines = append([]string{wrongPassword(words, 0)}, lines...)
		}
		add(traceCase{ok: true, args: cat([]string{"recover", "-in-word-file", in}, rest), lines: lines})
		add(traceCase{ok: true, args: cat([]string{"recover"}, rest), raw: strings.Join(words, " ") + " ", lines: lines})
		add(traceCase{ok: true, args: cat([]string{"recover", "-simple"}, rest), lines: cat(words, lines)})
		add(traceCase{args: cat([]string{"recover", "-in-word-file", "BAD"}, rest)})
		add(traceCase{args: cat([]string{"recover"}, rest), raw: strings.Join(words[:5], " ") + " \x03"})
		if len(lines) > 0 {
			for k := range lines {
				add(traceCase{args: cat([]string{"recover", "-in-word-file", in}, rest), lines: lines[:k], int: true})
			}
		}
	})
	bits(4, func(b []bool) {
		enc, out, ep, ver := b[0], b[1], b[2], b[3]
		in, p := "WORDS", ""
		words := plainPhrase()
		if enc {
			in = "ENC"
			words = encPhrase(demoPW)
		}
		if ep {
			p = pw
		}
		rest := cat(f(out, "-out-word-file", "OUT"), f(ep, "-encrypt-phrase"), f(ver, "-verbose"))
		lines := cat(f(enc, demoPW), f(ep, pw, pw))
		add(traceCase{ok: true, out: out, pw: p, args: cat([]string{"convert", "-in-word-file", in}, rest), lines: lines})
		add(traceCase{ok: true, out: out, pw: p, args: cat([]string{"convert"}, rest), raw: strings.Join(words, " ") + " ", lines: lines})
		add(traceCase{args: cat([]string{"convert", "-in-word-file", "BAD"}, rest)})
		add(traceCase{args: cat([]string{"convert", "-in-word-file", in, "-out-word-file", "TAKEN"}, f(ep, "-encrypt-phrase"), f(ver, "-verbose")), lines: lines})
		for k := range lines {
			add(traceCase{args: cat([]string{"convert", "-in-word-file", in}, rest), lines: lines[:k], int: true})
		}
	})
	for _, a := range [][]string{{"generate", "-out-word-file", "TAKEN"}, {"generate", "-unsafe-entropy", "SHORT"}, {"generate", "-unsafe-entropy", "SHORT", "-out-word-file", "OUT"},
		{"generate", "-ttl", "x"}, {"generate", "-only", "x", "-out-word-file", "OUT"}, {"recover", "-in-word-file", "missing"}, {"bogus"}, {"generate", "-bogus"}, {"generate", "extra"}} {
		add(traceCase{args: a})
	}
	for _, a := range [][]string{{"help"}, {"help", "generate"}, {"help", "recover"}, {"help", "convert"}} {
		add(traceCase{args: a, ok: true})
	}
	return
}

func c30(e *env) {
	cs := e.traceCases()
	seen := map[string]bool{}
	var uniq []*traceCase
	for _, c := range cs {
		k := fmt.Sprint(c.name, c.lines)
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, c)
		}
	}
	e.Space("%d sessions of all commands under a system-call tracer: option combinations, three ways of entry, refusals, interrupts at every prompt", len(uniq))
	points := make([]int, len(uniq))
	e.Parallel(len(uniq), func(i int) {
		c := uniq[i]
		e.States(1)
		e.Trace()
		e.try(func() string { return fmt.Sprintf("%s, typed %q", c.name, c.lines) }, func() error {
			n, r, err := e.onOwn(c, -1, 0)
			if err == nil {
				points[i] = n
				e.Steps(n)
				if r.Code == 0 {
					e.Outcome("done, nothing left")
				} else {
					e.Outcome("refused, nothing left")
				}
			}
			return err
		})
	})
	if e.Stop() {
		return
	}
	type fc struct {
		c   *traceCase
		n   int
		err syscall.Errno
	}
	var faults []fc
	for i, c := range uniq {
		if len(c.lines) > 0 && !e.Thorough && (!c.out || len(c.lines) > 3) {
			continue
		}
		errs := []syscall.Errno{syscall.EIO}
		if e.Thorough {
			errs = append(errs, syscall.ENOSPC, syscall.EACCES, syscall.EINTR)
		}
		for k := 0; k < points[i]; k++ {
			for _, x := range errs {
				faults = append(faults, fc{c, k, x})
			}
		}
	}
	e.Space("%d executions of these sessions with one system call on a file, standard output or standard error failing: nothing but the word file appears", len(faults))
	e.Parallel(len(faults), func(i int) {
		f := faults[i]
		e.Case()
		e.try(func() string {
			return fmt.Sprintf("%s, typed %q, call %d fails with %v", f.c.name, f.c.lines, f.n, f.err)
		}, func() error {
			_, r, err := e.onOwn(f.c, f.n, f.err)
			if err == nil {
				if r.Code == 0 {
					e.Outcome("fault without effect")
				} else {
					e.Outcome("fault, nothing left")
				}
			}
			return err
		})
	})
}
