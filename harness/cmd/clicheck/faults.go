package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C25"] = c25 }

// saveCase is a command that is asked to save a phrase in a word file.
type saveCase struct {
	name  string
	args  []string // the word file path is appended
	pw    string
	typed string
	umask string
	seed  *ref.Seed16
	key   bool // the command prints a key
}

// fault is what happens at one point of a run.
type fault struct {
	at    int    // number of the point, from 1; 0 means none
	kind  string // kill, errno, short, a kind of intruder, or dir
	errno syscall.Errno
	count uint64
}

func (f fault) String() string {
	s := fmt.Sprintf("%s@%d", f.kind, f.at)
	if f.errno != 0 {
		s = fmt.Sprintf("%v@%d", f.errno, f.at)
	}
	if f.count != 0 {
		s += fmt.Sprintf(":%d", f.count)
	}
	return s
}

// point is a place in a run where a fault can strike.
type point struct {
	call  string
	enter bool
	n     uint64 // bytes to write
}

const precious = "precious content of somebody else\n"

// saveRun runs the command with one fault and checks what is left behind; it gives the points it passed.
func (e *env) saveRun(c *saveCase, faults []fault, outcome func(string)) ([]point, error) {
	dir := e.box.Path("save")
	if err := os.Mkdir(dir, 0o700); err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	victim := filepath.Join(dir, "victim")
	if err := os.WriteFile(victim, []byte(precious), 0o644); err != nil {
		return nil, err
	}
	path := filepath.Join(dir, "words")
	var points []point
	var bad error
	intruder := ""
	injected := false
	strike := func(f fault) bool { // an intruder at the path; it never replaces what is there
		if _, err := os.Lstat(path); err == nil {
			return false
		}
		var err error
		switch f.kind {
		case "file":
			err = os.WriteFile(path, []byte(precious), 0o644)
		case "empty":
			err = os.WriteFile(path, nil, 0o644)
		case "symlink":
			err = os.Symlink(victim, path)
		case "dangling":
			err = os.Symlink(filepath.Join(dir, "nowhere"), path)
		case "hardlink":
			err = os.Link(victim, path)
		case "directory":
			err = os.Mkdir(path, 0o755)
		case "fifo":
			err = syscall.Mkfifo(path, 0o644)
		}
		if err == nil {
			intruder = f.kind
		}
		return err == nil
	}
	for _, f := range faults {
		if f.at == 0 {
			strike(f)
		}
	}
	private := func() {
		if intruder != "" || bad != nil {
			return
		}
		if st, err := os.Lstat(path); err == nil && st.Mode()&(os.ModeType|0o077) != 0 {
			bad = fmt.Errorf("the word file has mode %v", st.Mode())
		}
	}
	var mu sync.Mutex
	hook := func(call *cli.Call) cli.Act {
		mu.Lock()
		defer mu.Unlock()
		name := call.Touches(dir)
		if name == "" && call.IsWrite(1) {
			name = "output"
		}
		if name == "" && call.IsExit() {
			name = "exit"
		}
		if name == "" {
			return cli.Act{}
		}
		private()
		pt := point{call: name, enter: call.Enter}
		if name == "write" || name == "output" {
			pt.n = call.Arg[2]
		}
		points = append(points, pt)
		for _, f := range faults {
			if f.at != len(points) {
				continue
			}
			switch {
			case f.kind == "kill":
				return cli.Act{Kill: true}
			case f.errno != 0:
				injected = true
				return cli.Act{Errno: f.errno}
			case f.kind == "short":
				if f.count >= call.Arg[2] {
					continue
				}
				return cli.Act{Count: f.count}
			default:
				strike(f)
			}
		}
		return cli.Act{}
	}
	spec := cli.TraceSpec{Args: append(append([]string{}, c.args...), "-out-word-file", path), Setup: "umask " + c.umask, Hook: hook}
	if c.typed != "" {
		spec.TTY = &cli.TTYSpec{Rows: 24, Cols: 80}
		typed := false
		spec.Idle = func(p *cli.Traced) bool {
			if typed || !p.Waiting() {
				return false
			}
			typed = true
			p.Type([]byte(c.typed))
			return true
		}
	}
	r, _, err := e.box.Trace(spec)
	if err != nil {
		return points, err
	}
	private()
	if bad != nil {
		return points, bad
	}
	if r.Hung {
		return points, fmt.Errorf("the command does not finish: %s", r)
	}
	if bytes.Contains(r.Err, []byte("\ngoroutine ")) {
		return points, fmt.Errorf("the command crashed: %s", r)
	}
	if b, err := os.ReadFile(victim); err != nil || string(b) != precious {
		return points, fmt.Errorf("a file of somebody else was changed to %q", b)
	}
	killed := r.Sig == syscall.SIGKILL
	if intruder != "" {
		if err := intact(path, dir, intruder); err != nil {
			return points, err
		}
		if !killed {
			if r.Code == 0 {
				return points, fmt.Errorf("the path was taken by a %s, but the command succeeded: %s", intruder, r)
			}
		}
		if len(r.Out) != 0 {
			return points, fmt.Errorf("the path was taken by a %s, but a key was printed: %s", intruder, r)
		}
		outcome("path taken by a " + intruder)
		return points, nil
	}
	content, rerr := os.ReadFile(path)
	complete := func() (ref.Seed16, uint32, error) {
		var none ref.Seed16
		if rerr != nil {
			return none, 0, fmt.Errorf("no word file: %w", rerr)
		}
		words := strings.Fields(string(content))
		if string(content) != strings.Join(words, " ")+"\n" {
			return none, 0, fmt.Errorf("word file is %q", content)
		}
		s, off, enc, err := seedOf(words, c.pw)
		if err == nil && enc != (c.pw != "") {
			err = fmt.Errorf("phrase encrypted: %v", enc)
		}
		if err == nil && c.seed != nil && s != *c.seed {
			err = fmt.Errorf("word file holds another seed")
		}
		return s, off, err
	}
	if len(r.Out) > 0 {
		s, off, err := complete()
		if err != nil {
			return points, fmt.Errorf("the key was printed, but: %v (%s)", err, r)
		}
		if r.Code == 0 && !c.outFault(points, faults) || bytes.Contains(r.Out, []byte("-----END")) {
			if err := keyIs(r.Out, expect(s, off, ref.Opts{All: true, Name: "anonymous"}, true, true)); err != nil {
				return points, fmt.Errorf("the word file does not belong to the key: %v", err)
			}
		}
	}
	switch {
	case killed:
		outcome("killed")
	case r.Code == 0:
		if _, _, err := complete(); err != nil {
			return points, fmt.Errorf("success, but: %v (%s)", err, r)
		}
		if c.key && len(r.Out) == 0 && !c.outFault(points, faults) {
			return points, fmt.Errorf("success without a key: %s", r)
		}
		if injected {
			outcome("fault survived")
		} else {
			outcome("saved")
		}
	default:
		if !injected {
			return points, fmt.Errorf("failed without a fault: %s", r)
		}
		outcome("failed save")
		if len(r.Out) != 0 && !c.outFault(points, faults) {
			return points, fmt.Errorf("the save failed, but a key was printed: %s", r)
		}
	}
	return points, nil
}

// outFault reports whether a fault struck standard output.
func (c *saveCase) outFault(points []point, faults []fault) bool {
	for _, f := range faults {
		if f.at > 0 && f.at <= len(points) && points[f.at-1].call == "output" {
			return true
		}
	}
	return false
}

func intact(path, dir, kind string) error {
	st, err := os.Lstat(path)
	if err != nil {
		return fmt.Errorf("the %s at the path has gone: %v", kind, err)
	}
	switch kind {
	case "file", "hardlink":
		if b, err := os.ReadFile(path); err != nil || string(b) != precious || st.Mode().Perm() != 0o644 {
			return fmt.Errorf("the file at the path was changed to %q, mode %v", b, st.Mode())
		}
	case "empty":
		if !st.Mode().IsRegular() || st.Size() != 0 {
			return fmt.Errorf("the empty file at the path was written to")
		}
	case "symlink", "dangling":
		if st.Mode()&os.ModeSymlink == 0 {
			return fmt.Errorf("the symbolic link at the path was replaced")
		}
	case "directory":
		if !st.IsDir() {
			return fmt.Errorf("the directory at the path was replaced")
		}
	case "fifo":
		if st.Mode()&os.ModeNamedPipe == 0 {
			return fmt.Errorf("the pipe at the path was replaced")
		}
	}
	if _, err := os.Lstat(filepath.Join(dir, "nowhere")); err == nil {
		return fmt.Errorf("the phrase was written through a symbolic link")
	}
	return nil
}

func c25(e *env) {
	wf := e.box.File("in", joined(plainPhrase()))
	ef := e.box.File("enc", joined(encPhrase(demoPW)))
	ent := e.box.File("entropy", bytes.Repeat([]byte{7, 1, 9, 3}, 20))
	seed := demoSeed
	cases := []*saveCase{
		{name: "generate", args: []string{"generate"}, umask: "000", key: true},
		{name: "generate umask 022", args: []string{"generate", "-verbose"}, umask: "022", key: true},
		{name: "generate umask 277", args: []string{"generate", "-unsafe-entropy", ent}, umask: "277", key: true},
		{name: "generate encrypted", args: []string{"generate", "-encrypt-phrase"}, pw: "pw", typed: "pw\npw\n", umask: "000", key: true},
		{name: "convert", args: []string{"convert", "-in-word-file", wf}, umask: "000", seed: &seed},
		{name: "convert encrypted", args: []string{"convert", "-in-word-file", ef, "-encrypt-phrase"}, pw: "pw", typed: demoPW + "\npw\npw\n", umask: "000", seed: &seed},
	}
	errnos := map[string][]syscall.Errno{
		"openat":     {syscall.EACCES, syscall.ENOSPC, syscall.EIO, syscall.EROFS, syscall.EMFILE, syscall.EEXIST, syscall.ENOENT, syscall.ENOTDIR, syscall.ELOOP},
		"newfstatat": {syscall.EACCES, syscall.EIO, syscall.ENOTDIR, syscall.ELOOP, syscall.ENAMETOOLONG},
		"write":      {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG},
		"output":     {syscall.ENOSPC, syscall.EIO, syscall.EPIPE},
		"":           {syscall.EIO, syscall.ENOSPC},
	}
	intruders := []string{"file", "empty", "symlink", "dangling", "hardlink", "directory"}
	type job struct {
		c *saveCase
		f []fault
	}
	var jobs []job
	for _, c := range cases {
		var pts []point
		e.Case()
		e.try(func() string { return c.name + " without faults" }, func() (err error) {
			pts, err = e.saveRun(c, nil, e.Outcome)
			return
		})
		add := func(f ...fault) { jobs = append(jobs, job{c, f}) }
		for _, k := range intruders {
			add(fault{kind: k})
		}
		desc := ""
		for i, p := range pts {
			at := i + 1
			desc += " " + map[bool]string{true: ">", false: "<"}[p.enter] + p.call
			add(fault{at: at, kind: "kill"})
			for _, k := range intruders {
				add(fault{at: at, kind: k})
			}
			if !p.enter {
				continue
			}
			if p.call == "exit" {
				continue
			}
			es, ok := errnos[p.call]
			if !ok {
				es = errnos[""]
			}
			for _, x := range es {
				add(fault{at: at, kind: "error", errno: x})
				// An error, then a kill or another error further on.
				for d := at + 1; d <= at+4; d++ {
					add(fault{at: at, kind: "error", errno: x}, fault{at: d, kind: "kill"})
				}
			}
			if p.call == "write" || p.call == "output" {
				counts := []uint64{1, p.n / 2, p.n - 1}
				if e.Thorough {
					counts = nil
					for n := uint64(1); n < p.n; n++ {
						counts = append(counts, n)
					}
				}
				for _, n := range counts {
					add(fault{at: at, kind: "short", count: n})
					add(fault{at: at, kind: "short", count: n}, fault{at: at + 1, kind: "kill"})
					for _, x := range es {
						add(fault{at: at, kind: "short", count: n}, fault{at: at + 2, kind: "error", errno: x})
					}
					if e.Thorough && n > 1 && n < p.n-1 {
						add(fault{at: at, kind: "short", count: n}, fault{at: at + 2, kind: "short", count: (p.n - n) / 2}, fault{at: at + 3, kind: "kill"})
					}
				}
			}
		}
		e.Space("%s: every fault at each of %d points:%s", c.name, len(pts), desc)
	}
	e.Space("faults: kill, error codes, short writes (also followed by a kill or an error), and another process putting a file, link, directory or pipe at the path; %d runs", len(jobs))
	e.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		e.States(1)
		e.Trace()
		e.try(func() string { return fmt.Sprint(j.c.name, " ", j.f) }, func() error {
			pts, err := e.saveRun(j.c, j.f, e.Outcome)
			e.Steps(len(pts))
			return err
		})
	})
}
