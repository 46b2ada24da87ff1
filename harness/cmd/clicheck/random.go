package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"strings"
	"sync"

	"verif/cli"
	"verif/ref"
)

func init() { checks["C32"] = c32 }

// ---- C32: all randomness is the operating system's ----
//
// The binary of this check is built with crypto/rand's Reader delivering the bytes of a file. Everything the
// program draws at random then is a function of that file, or it was not drawn from the secure generator.

type drawn struct {
	seed  ref.Seed16
	salt  uint32
	words []string
	parts []string // salts and IVs of the protected keys
}

type randCase struct {
	name  string
	need  int // bits of the stream that have to matter
	bytes int // how far they may be into the stream
	run   func(stream []byte) (*cli.Result, string, error)
	read  func(r *cli.Result, file string) (drawn, error)
}

func (e *env) randRun(stream []byte, typed string, args ...string) (*cli.Result, error) {
	p := e.box.File("stream", stream)
	defer os.Remove(p)
	env := []string{"VERIF_RAND=" + p}
	if typed == "" {
		return e.box.Run(cli.Spec{Args: args, Env: env}), nil
	}
	t, err := e.box.Start(cli.TTYSpec{Args: args, Rows: 24, Cols: 80, Env: env})
	if err != nil {
		return nil, err
	}
	if t.WaitMode(cli.NoEcho) {
		t.Send([]byte(typed))
	}
	r, _ := t.Wait()
	return r, nil
}

func (e *env) randCases() []*randCase {
	wf := e.box.File("words", joined(plainPhrase()))
	ent := e.box.File("entropy", []byte("0123456789abcdef0123456789abcdef"))
	const pw = "some password"
	twice := pw + "\n" + pw + "\n"
	phrase := func(pw string) func(*cli.Result, string) (drawn, error) {
		return func(r *cli.Result, file string) (d drawn, err error) {
			d.words = cli.Phrase(r.Err)
			if file != "" {
				b, err := os.ReadFile(file)
				if err != nil {
					return d, err
				}
				d.words = strings.Fields(string(b))
			}
			f, why := ref.Parse(d.words)
			if len(why) != 0 {
				return d, fmt.Errorf("phrase %v", d.words)
			}
			d.salt = f.Salt
			d.seed, _, _, err = seedOf(d.words, pw)
			return
		}
	}
	keys := func(r *cli.Result, _ string) (d drawn, err error) {
		block, err := cli.KeyBlock(r.Out)
		if err != nil {
			return d, err
		}
		data, err := ref.Dearmor(block, "PGP PRIVATE KEY BLOCK")
		if err != nil {
			return d, err
		}
		x := expect(demoSeed, demoOffset, ref.Opts{Name: "anonymous", All: true}, true, true)
		x.Password = []byte(pw)
		ex := ref.CheckExport(data, x)
		for i := range ex.Salts {
			d.parts = append(d.parts, ex.Salts[i], ex.IVs[i])
		}
		return d, nil
	}
	cmd := func(typed string, file bool, args ...string) func([]byte) (*cli.Result, string, error) {
		return func(stream []byte) (*cli.Result, string, error) {
			a, out := args, ""
			if file {
				out = e.box.Path("out")
				a = append(append([]string{}, args...), "-out-word-file", out)
			}
			r, err := e.randRun(stream, typed, a...)
			return r, out, err
		}
	}
	var cs []*randCase
	for _, file := range []bool{false, true} {
		to := map[bool]string{false: "", true: " to a file"}[file]
		cs = append(cs,
			&randCase{"generate" + to, 128, 64, cmd("", file, "generate"), phrase("")},
			&randCase{"generate -verbose -ttl 1y -only signing" + to, 128, 64, cmd("", file, "generate", "-verbose", "-ttl", "1y", "-only", "signing"), phrase("")},
			&randCase{"generate -encrypt-phrase" + to, 128 + 19, 64, cmd(twice, file, "generate", "-encrypt-phrase"), phrase(pw)},
			&randCase{"generate -encrypt-phrase from given entropy" + to, 19, 32, cmd(twice, file, "generate", "-encrypt-phrase", "-unsafe-entropy", ent), phrase(pw)},
			&randCase{"convert -encrypt-phrase" + to, 19, 32, cmd(twice, file, "convert", "-encrypt-phrase", "-in-word-file", wf), phrase(pw)},
		)
	}
	cs = append(cs, &randCase{"recover -encrypt-keys", 4 * 8 * 24, 160, cmd(twice, false, "recover", "-encrypt-keys", "-in-word-file", wf), keys})
	return cs
}

// stream is the k-th numbered stream of random bytes.
func stream(k int, n int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprint("stream ", k, " ", i)))
		b = append(b, h[:]...)
	}
	return b[:n]
}

// sig is what came out that must be decided by the stream.
func (d *drawn) sig() string { return fmt.Sprintf("%x/%x/%x", d.seed, d.salt, d.parts) }

func (e *env) draws(c *randCase, s []byte) (d drawn, err error) {
	r, out, err := c.run(s)
	if out != "" {
		defer os.Remove(out)
	}
	if err != nil {
		return d, err
	}
	if err := succeeded(r); err != nil {
		return d, err
	}
	return c.read(r, out)
}

func c32(e *env) {
	const size = 1024
	cs := e.randCases()
	bases := 2
	if e.Thorough {
		bases = 8
	}
	for _, c := range cs {
		for b := 0; b < bases; b++ {
			base := stream(b, size)
			id := fmt.Sprintf("%s, stream %d", c.name, b)
			var ref0 drawn
			ok := false
			e.Case()
			e.try(func() string { return id }, func() error {
				d, err := e.draws(c, base)
				if err != nil {
					return err
				}
				// The same stream again gives the same: nothing else decides.
				again, err := e.draws(c, base)
				if err != nil {
					return err
				}
				if d.sig() != again.sig() {
					return fmt.Errorf("the same random bytes gave %s and %s: something else than the system's generator was used", d.sig(), again.sig())
				}
				ref0, ok = d, true
				return nil
			})
			if !ok {
				continue
			}
			// Flip every bit: enough of them have to matter, and no two in the same way.
			step := 1
			flips := c.bytes * 8
			if !e.Thorough && c.need > 200 {
				step = 8 // one bit per byte
				flips = c.bytes
			}
			e.Space("%s, stream %d: %d single bit flips of the first %d random bytes", c.name, b, flips, c.bytes)
			var mu sync.Mutex
			seen := map[string]int{ref0.sig(): -1}
			failed := false
			e.Parallel(flips, func(i int) {
				bit := i * step
				if step > 1 {
					bit += i % 8
				}
				e.Case()
				e.try(func() string { return fmt.Sprintf("%s, bit %d", id, bit) }, func() error {
					s := append([]byte{}, base...)
					s[bit/8] ^= 0x80 >> uint(bit%8)
					d, err := e.draws(c, s)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						failed = true
						return err
					}
					seen[d.sig()] = bit
					if d.sig() == ref0.sig() {
						e.Outcome(c.name + ": bit not used")
					} else {
						e.Outcome(c.name + ": bit decides")
					}
					return nil
				})
			})
			if got := len(seen) - 1; !failed && !e.Violated() && !e.Expired() && got < c.need/step && e.Wanted(func() string { return id + ", flips" }) {
				e.Bad(id+", flips", "only %d of the random bits matter, %d are needed", got, c.need/step)
			}
		}
		e.bothValues(c, size)
		e.shortStream(c, size)
	}
}

// bothValues: over a few streams every bit drawn is once 0 and once 1.
func (e *env) bothValues(c *randCase, size int) {
	const n = 40
	var all [n]drawn
	e.Space("%s: %d streams, all results different, every bit takes both values", c.name, n)
	bad := false
	var mu sync.Mutex
	e.Parallel(n, func(i int) {
		e.Case()
		e.try(func() string { return fmt.Sprintf("%s, numbered stream %d", c.name, i) }, func() error {
			d, err := e.draws(c, stream(100+i, size))
			mu.Lock()
			defer mu.Unlock()
			all[i] = d
			bad = bad || err != nil
			return err
		})
	})
	id := c.name + ", both values"
	if bad || e.Violated() || e.Expired() || !e.Wanted(func() string { return id }) {
		return
	}
	fixedSeed := !strings.HasPrefix(c.name, "generate") || strings.Contains(c.name, "given")
	check := func(what string, get func(*drawn) []byte) {
		var or, nand []byte
		for i := range all {
			v := get(&all[i])
			if or == nil {
				or, nand = make([]byte, len(v)), make([]byte, len(v))
			}
			if len(v) != len(or) {
				e.Bad(id, "%s has another length", what)
				return
			}
			for k := range v {
				or[k] |= v[k]
				nand[k] |= ^v[k]
			}
		}
		ones := bytes.Repeat([]byte{0xff}, len(or))
		if !bytes.Equal(or, ones) || !bytes.Equal(nand, ones) {
			e.Bad(id, "%s: some bits never change (ones %x, zeros %x)", what, or, nand)
		}
	}
	if !fixedSeed {
		check("seed", func(d *drawn) []byte { return d.seed[:] })
	}
	if strings.Contains(c.name, "encrypt-phrase") {
		check("salt", func(d *drawn) []byte {
			return []byte{byte(d.salt), byte(d.salt >> 8), byte(d.salt >> 11)} // 19 bits
		})
	}
	if len(all[0].parts) > 0 {
		check("salts and IVs", func(d *drawn) []byte { return []byte(strings.Join(d.parts, "")) })
		for i := range all {
			dup := map[string]bool{}
			for _, p := range all[i].parts {
				if dup[p] {
					e.Bad(id, "two keys of one export share a salt or IV")
				}
				dup[p] = true
			}
		}
	}
}

// shortStream: a generator that fails after k bytes gives no key and no phrase, or one that needed no more.
func (e *env) shortStream(c *randCase, size int) {
	base := stream(0, size)
	full, err := e.draws(c, base)
	if err != nil {
		return // reported above
	}
	max := c.bytes
	e.Space("%s: the generator fails after 0..%d bytes", c.name, max)
	e.Parallel(max+1, func(k int) {
		e.Case()
		e.try(func() string { return fmt.Sprintf("%s, generator fails after %d bytes", c.name, k) }, func() error {
			r, out, err := c.run(base[:k])
			if out != "" {
				defer os.Remove(out)
			}
			if err != nil {
				return err
			}
			if r.Hung || r.Loop {
				return r.Sane()
			}
			if r.Code == 0 {
				d, err := c.read(r, out)
				if err != nil {
					return err
				}
				if d.sig() != full.sig() {
					return fmt.Errorf("%d random bytes are not enough, but the command went on with something else", k)
				}
				e.Outcome(c.name + ": enough")
				return nil
			}
			if len(r.Out) != 0 || len(cli.Phrase(r.Err)) > 0 {
				return fmt.Errorf("a key or phrase although the generator failed: %s", r)
			}
			if _, err := os.Lstat(out); out != "" && err == nil {
				return fmt.Errorf("a word file although the generator failed: %s", r)
			}
			e.Outcome(c.name + ": refused")
			return nil
		})
	})
}
