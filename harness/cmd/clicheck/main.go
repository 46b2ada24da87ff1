// clicheck explores the real mnemonikey command against the reference model.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/signal"
	"strings"
	"syscall"

	"verif/cli"
	"verif/mc"
	"verif/ref"
)

var checks = map[string]func(*env){}

var assumptions = []string{
	"the binary is built from the working tree with the idealised Argon2 of the library checks; everything else is the real program",
	"the kernel's terminal, pipe and file behaviour is that of this sandbox (Linux)",
	"a process that needs a few milliseconds counts as stuck after 10 s of CPU, 1.5 GB of memory or 40 s without input to wait for, three times in a row",
}

// env is the context of a command-line check.
type env struct {
	*mc.Ctx
	box   *cli.Box
	known bool // the recorded finding of C24 is listed
}

func main() {
	if len(os.Args) != 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: clicheck <property>")
		os.Exit(2)
	}
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		fmt.Fprintln(os.Stderr, "VERIF_CLI is not set")
		os.Exit(2)
	}
	ordinarySignals()
	c := mc.New(os.Args[1])
	c.Assume = assumptions
	e := &env{Ctx: c, box: cli.NewBox(bin, c.Work)}
	checks[os.Args[1]](e)
	c.Finish()
}

// ordinarySignals makes children start with signals at their defaults even if this process was started with some of
// them ignored (as nohup and background jobs are): exec resets a handled signal, not an ignored one.
func ordinarySignals() {
	for _, s := range []os.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGTERM} {
		if signal.Ignored(s) {
			signal.Notify(make(chan os.Signal, 1), s)
		}
	}
}

// try runs a case; a failure counts only if it repeats twice more.
func (e *env) try(id func() string, f func() error) {
	e.Try(id, func() error {
		err := f()
		for i := 0; err != nil && i < 2; i++ {
			if again := mc.Safe(f); again == nil {
				m := err.Error()
				if len(m) > 300 {
					m = m[:300] + "..."
				}
				fmt.Fprintf(os.Stderr, "note: %s failed once but not again: %s\n", id(), m)
				e.Outcome("failed once, not confirmed")
				return nil
			}
		}
		return err
	})
}

// ---- phrases ----

var demoSeed = ref.Seed16{0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}

const (
	demoOffset = 12345678
	demoPW     = "pässword 1"
)

func plainPhrase() []string {
	return ref.Phrase(ref.Fields{Version: 0, Seed: demoSeed, Offset: demoOffset})
}

func encPhrase(pw string) []string {
	return ref.Phrase(ref.Encrypt(demoSeed, demoOffset, 0x31234, []byte(pw)))
}

func joined(w []string) []byte { return []byte(strings.Join(w, " ") + "\n") }

// wrongPassword gives a password that the check bits of the phrase refuse.
func wrongPassword(words []string, n int) string {
	f, _ := ref.Parse(words)
	for i := 0; ; i++ {
		p := fmt.Sprintf("wrong%d", i)
		if _, ok := ref.Decrypt(f, []byte(p)); !ok {
			if n == 0 {
				return p
			}
			n--
		}
	}
}

// ---- judging keys ----

// keyIs checks that standard output is exactly the expected key, in the categories given (all if none).
func keyIs(out []byte, e *ref.Expect, cats ...string) error {
	block, err := cli.KeyBlock(out)
	if err != nil {
		return err
	}
	data, err := ref.Dearmor(block, "PGP PRIVATE KEY BLOCK")
	if err != nil {
		return err
	}
	is := ref.CheckExport(data, e).Issues
	if len(cats) == 0 {
		return is.Not()
	}
	return is.In(cats...)
}

// succeeded checks a normal successful end.
func succeeded(r *cli.Result) error {
	if err := r.Sane(); err != nil {
		return err
	}
	if r.Code != 0 {
		return fmt.Errorf("the command failed: %s", r)
	}
	return nil
}

// refused checks a clean refusal: non-zero, nothing on standard output, a reason on standard error.
func refused(r *cli.Result) error {
	if err := r.Sane(); err != nil {
		return err
	}
	if r.Code == 0 {
		return fmt.Errorf("accepted: %s", r)
	}
	if len(r.Out) != 0 {
		return fmt.Errorf("failed but wrote to standard output: %s", r)
	}
	if len(bytes.TrimSpace(r.Err)) == 0 {
		return fmt.Errorf("failed without a word on standard error: %s", r)
	}
	return nil
}

// seedOf opens a delivered phrase.
func seedOf(words []string, pw string) (s ref.Seed16, off uint32, enc bool, err error) {
	f, why := ref.Parse(words)
	if len(why) != 0 {
		return s, 0, false, fmt.Errorf("delivered phrase %v is invalid", words)
	}
	if f.Version == 0 {
		return f.Seed, f.Offset, false, nil
	}
	s, ok := ref.Decrypt(f, []byte(pw))
	if !ok {
		return s, 0, true, errors.New("delivered phrase does not open with its password")
	}
	return s, f.Offset, true, nil
}

func stamp(off uint32) uint32 { return uint32(ref.Epoch + int64(off)) }

// onlySets gives -only texts for all subsets of key types: "" means the option is not given.
type selection struct {
	text   string
	master bool
	opts   ref.Opts
}

func selections() []selection {
	out := []selection{{"", true, ref.Opts{All: true}}}
	all := append([]string{"master"}, ref.Types...)
	for m := 1; m < 16; m++ {
		var s selection
		var names []string
		s.opts.Select = []string{}
		for i, t := range all {
			if m>>uint(i)&1 == 0 {
				continue
			}
			names = append(names, t)
			if t == "master" {
				s.master = true
			} else {
				s.opts.Select = append(s.opts.Select, t)
			}
		}
		s.text = strings.Join(names, ",")
		out = append(out, s)
	}
	return out
}

// expect gives what recover should print for a seed and options.
func expect(s ref.Seed16, off uint32, o ref.Opts, master, cert bool) *ref.Expect {
	e := ref.Build(s, stamp(off), o).Expect()
	e.Stub, e.Cert = !master, master || cert
	return e
}
