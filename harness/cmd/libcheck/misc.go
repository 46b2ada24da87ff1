package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"github.com/kklash/wordlist4096"
)

func init() {
	checks["C13"] = c13
	checks["C14"] = c14
	checks["C16"] = c16
	checks["C18"] = c18
}

// ---- C13 ----

func pattern(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*29 + 3)
	}
	return d
}

// stream is a fixed pseudorandom byte stream: the i-th one.
func stream(i, n int) []byte {
	out := make([]byte, n)
	x := uint64(i)*0x9E3779B97F4A7C15 + 0xABCDEF
	for j := range out {
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
		out[j] = byte(x >> 40)
	}
	return out
}

// errBroken marks a result that is wrong whatever the source did.
var errBroken = errors.New("broken result")

func c13(c *mc.Ctx) {
	// operation under a source: a result text, or an error with nothing
	type op struct {
		name string
		run  func(r io.Reader) (string, error)
	}
	seed := mustSeed(fewSeeds()[4])
	k, err := build(fewSeeds()[4], 77, ref.Opts{All: true})
	if err != nil {
		c.Bad("setup", "%v", err)
		return
	}
	words := func(w []string, err error) (string, error) {
		if err != nil {
			if w != nil {
				return "", fmt.Errorf("%w: words %v and error %v", errBroken, w, err)
			}
			return "", err
		}
		f, why := ref.Parse(w)
		if len(why) != 0 || f.Version != 1 {
			return "", fmt.Errorf("%w: invalid phrase %v", errBroken, w)
		}
		return fmt.Sprintf("salt %05x", f.Salt), nil
	}
	ops := []op{
		{"GenerateSeed", func(r io.Reader) (string, error) {
			s, err := mnemonikey.GenerateSeed(r)
			if err != nil {
				if s != nil {
					return "", fmt.Errorf("%w: seed and error %v", errBroken, err)
				}
				return "", err
			}
			if s == nil || len(s.Bytes()) != 16 || s.Era() != 0 {
				return "", fmt.Errorf("%w: bad seed %v", errBroken, s)
			}
			return fmt.Sprintf("%x", s.Bytes()), nil
		}},
		{"EncodeMnemonicEncrypted", func(r io.Reader) (string, error) {
			return words(mnemonikey.EncodeMnemonicEncrypted(seed, 77, []byte("pw"), r))
		}},
		{"Mnemonikey.EncodeMnemonicEncrypted", func(r io.Reader) (string, error) {
			return words(k.EncodeMnemonicEncrypted([]byte("pw"), r))
		}},
	}
	broken := func(err error) bool { return errors.Is(err, errBroken) }
	data := pattern(4096)
	for oi := range ops {
		o := ops[oi]
		src := &fixedSource{data: data, err: errSource}
		var want string
		ok := true
		c.Try(func() string { return o.name + " full source" }, func() (err error) {
			ok = false
			if want, err = o.run(src); err == nil {
				ok = true
			}
			return err
		})
		if !ok {
			continue
		}
		n := src.used
		c.Space("%s (%d bytes drawn): every maximal chunk 1..%d x with and without empty reads x every failure point 0..%d x {error, EOF, unexpected EOF} x error alone or with the last bytes", o.name, n, n+1, n)
		for chunk := 1; chunk <= n+1; chunk++ {
			for _, zeros := range []bool{false, true} {
				c.Case()
				c.Try(func() string { return fmt.Sprintf("%s chunk=%d zeros=%v", o.name, chunk, zeros) }, func() error {
					got, err := o.run(&fixedSource{data: data, chunk: chunk, zeros: zeros, err: errSource})
					if err != nil || got != want {
						return fmt.Errorf("got %s %v, want %s", got, err, want)
					}
					c.Outcome(o.name + ": same result")
					return nil
				})
				for cut := 0; cut <= n; cut++ {
					for _, e := range []error{errSource, io.EOF, io.ErrUnexpectedEOF} {
						for _, with := range []bool{false, true} {
							c.Case()
							c.Try(func() string {
								return fmt.Sprintf("%s chunk=%d zeros=%v cut=%d err=%v with=%v", o.name, chunk, zeros, cut, e, with)
							}, func() error {
								got, err := o.run(&fixedSource{data: data[:cut], chunk: chunk, zeros: zeros, err: e, withData: with})
								if broken(err) {
									return err
								}
								if cut == n {
									// The source gave everything needed. If it did so without an error, or with EOF
									// alongside the last bytes as io.Reader allows, there is a result.
									if !with || e == io.EOF {
										if err != nil || got != want {
											return fmt.Errorf("got %s %v, want %s", got, err, want)
										}
										c.Outcome(o.name + ": same result")
									}
									return nil
								}
								if err == nil {
									return fmt.Errorf("source failed after %d of %d bytes, but the result was %s", cut, n, got)
								}
								c.Outcome(o.name + ": refused")
								return nil
							})
						}
					}
				}
			}
		}
	}
	// All 128 bits of the source matter, and matter separately.
	gen := ops[0].run
	c.Space("GenerateSeed: all 128 single and 8128 double bit flips of 3 backgrounds and all 256 values of each source byte: all seeds distinct, every seed bit takes both values")
	var zero, one [128]bool
	for b, base := range [][]byte{make([]byte, 64), bytes.Repeat([]byte{0xFF}, 64), pattern(64)} {
		seen := map[string]string{}
		try := func(d []byte, what string) {
			c.Case()
			c.Try(func() string { return fmt.Sprintf("background %d %s", b, what) }, func() error {
				got, err := gen(&fixedSource{data: d, err: errSource})
				if err != nil {
					return err
				}
				if p, dup := seen[got]; dup {
					return fmt.Errorf("same seed %s for %s and %s", got, p, what)
				}
				seen[got] = what
				s := seedHex(got)
				for i := 0; i < 128; i++ {
					if s[i/8]>>uint(i%8)&1 == 1 {
						one[i] = true
					} else {
						zero[i] = true
					}
				}
				return nil
			})
		}
		flip := func(bits ...int) []byte {
			d := append([]byte{}, base...)
			for _, i := range bits {
				d[i/8] ^= 1 << uint(i%8)
			}
			return d
		}
		try(base, "plain")
		for i := 0; i < 128; i++ {
			try(flip(i), fmt.Sprint("bit ", i))
			for j := 0; j < i; j++ {
				try(flip(i, j), fmt.Sprint("bits ", i, " ", j))
			}
		}
		for p := 0; p < 16; p++ {
			for v := 0; v < 256; v++ {
				d := append([]byte{}, base...)
				d[p] ^= byte(v)
				if n := onesIn(byte(v)); n > 2 {
					try(d, fmt.Sprintf("byte %d ^ %02x", p, v))
				}
			}
		}
	}
	if c.Wanted(func() string { return "bits" }) {
		for i := 0; i < 128; i++ {
			if !zero[i] || !one[i] {
				c.Bad("bits", "bit %d of the seed's byte string is constant (0 seen: %v, 1 seen: %v)", i, zero[i], one[i])
			}
		}
	}
	// The salt: 19 significant bits.
	n := 1 << 19
	c.Space("%d fixed byte streams as salt source: at least 300000 distinct salts, every salt bit balanced, same stream same salt", n)
	var mu sync.Mutex
	salts := map[uint32]bool{}
	var ones [19]int
	c.Parallel(n/1024, func(i int) {
		var loc []uint32
		for j := 0; j < 1024; j++ {
			c.Case()
			id := i*1024 + j
			c.Try(func() string { return fmt.Sprint("salt stream ", id) }, func() error {
				w, err := mnemonikey.EncodeMnemonicEncrypted(seed, 77, []byte("pw"), bytes.NewReader(stream(id, 512)))
				if err != nil {
					return err
				}
				f, why := ref.Parse(w)
				if len(why) != 0 || f.Version != 1 {
					return fmt.Errorf("invalid phrase %v", w)
				}
				loc = append(loc, f.Salt)
				if j == 0 {
					w2, err := mnemonikey.EncodeMnemonicEncrypted(seed, 77, []byte("pw"), bytes.NewReader(stream(id, 512)))
					if err != nil {
						return err
					}
					return ref.SameWords(w2, w)
				}
				return nil
			})
		}
		mu.Lock()
		for _, s := range loc {
			salts[s] = true
			for b := range ones {
				ones[b] += int(s >> uint(b) & 1)
			}
		}
		mu.Unlock()
	})
	if !c.Violated() && !c.Expired() && c.Wanted(func() string { return "salts" }) {
		// 2^19 uniform draws from 2^19 values give about 331,000 distinct ones, within a few hundred.
		if len(salts) < 300000 {
			c.Bad("salts", "only %d distinct salts from %d streams", len(salts), n)
		}
		for b, k := range ones {
			if k < n*48/100 || k > n*52/100 {
				c.Bad("salts", "salt bit %d is set in %d of %d", b, k, n)
			}
		}
		c.Outcome("salt bits balanced")
	}
}

func onesIn(v byte) (n int) {
	for ; v != 0; v &= v - 1 {
		n++
	}
	return
}

// ---- C14 ----

// world is one set of objects; every operation is applied to it.
type world struct {
	scribble       bool
	seedA, seedB   *mnemonikey.Seed
	plain, enc     *mnemonikey.DecodedMnemonic
	keyA, keyB     *mnemonikey.Mnemonikey
	optsA          *mnemonikey.KeyOptions
	sharedWords    []string
	sharedPassword []byte
	sharedInt      *big.Int
	fault          error
}

var (
	c14Seeds  = [2]ref.Seed16{{0x01, 0x02, 0x03, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0xF0}, {0, 0, 0, 0, 0x80, 0xFF, 1, 0, 0, 3, 0, 7, 0, 0, 0, 0}}
	c14Offset = uint32(0x1234567)
	c14PW     = "sesame öffne dich"
)

func c14Phrase(i int) []string {
	return ref.Phrase(ref.Fields{Version: 0, Seed: c14Seeds[i], Offset: c14Offset + uint32(i)})
}

func c14Enc(i int) []string {
	return ref.Phrase(ref.Encrypt(c14Seeds[i], c14Offset+uint32(i), 0x2ABCD, []byte(c14PW)))
}

func newWorld(scribble bool) (*world, error) {
	w := &world{scribble: scribble}
	var err error
	n := c14Seeds[0].Int()
	if w.seedA, err = mnemonikey.NewSeed(0, n); err != nil {
		return nil, err
	}
	w.spoilInt(n)
	n = c14Seeds[1].Int()
	if w.seedB, err = mnemonikey.NewSeed(0, n); err != nil {
		return nil, err
	}
	w.spoilInt(n)
	ws := c14Phrase(0)
	if w.plain, err = mnemonikey.DecodeMnemonic(ws); err != nil {
		return nil, err
	}
	w.spoilWords(ws)
	ws = c14Enc(1)
	if w.enc, err = mnemonikey.DecodeMnemonic(ws); err != nil {
		return nil, err
	}
	w.spoilWords(ws)
	w.optsA = &mnemonikey.KeyOptions{Name: "Alice", Email: "a@example.org", TTL: 86400e9, EncryptionSubkeyIndex: 3, Subkeys: []mnemonikey.SubkeyType{"encryption", "signing"}}
	if w.keyA, err = mnemonikey.New(w.seedA, creationTime(c14Offset), w.optsA); err != nil {
		return nil, err
	}
	o := &mnemonikey.KeyOptions{Name: "Bob"}
	if w.keyB, err = mnemonikey.New(w.seedB, creationTime(c14Offset+1), o); err != nil {
		return nil, err
	}
	if scribble {
		*o = mnemonikey.KeyOptions{Name: "Mallory", TTL: 1e9, Subkeys: []mnemonikey.SubkeyType{}}
		for i := range w.optsA.Subkeys {
			w.optsA.Subkeys[i] = "authentication"
		}
		w.optsA.Name, w.optsA.TTL, w.optsA.EncryptionSubkeyIndex = "Eve", 7e9, 9
	}
	return w, nil
}

func (w *world) spoilInt(n *big.Int) {
	if w.scribble && n != nil {
		n.SetInt64(0x5A5A5A)
	}
}

func (w *world) spoilWords(ws []string) {
	if w.scribble {
		for i := range ws {
			ws[i] = "zebra"
		}
	}
}

func (w *world) spoil(b []byte) {
	if w.scribble {
		for i := range b {
			b[i] ^= 0xA5
		}
	}
}

// give makes a byte argument, lets f use it, and checks that it is unchanged.
func (w *world) give(s string, f func(b []byte)) {
	b := append(make([]byte, 0, len(s)+16), s...)
	tail := b[len(b):cap(b)]
	f(b)
	if string(b) != s {
		w.fault = fmt.Errorf("argument %q was changed to %q", s, b)
	}
	for _, x := range tail {
		if x != 0 {
			w.fault = fmt.Errorf("memory after the argument %q was changed: %x", s, tail)
		}
	}
	w.spoil(b)
}

func (w *world) giveWords(ws []string, f func(ws []string)) {
	x := append(make([]string, 0, len(ws)+4), ws...)
	f(x)
	if ref.SameWords(x, ws) != nil || strings.Join(x[:len(ws)+4][len(ws):], "") != "" {
		w.fault = fmt.Errorf("word list %v was changed to %v", ws, x[:cap(x)])
	}
	w.spoilWords(x)
}

func (w *world) giveInt(n *big.Int, f func(n *big.Int)) {
	x := new(big.Int).Set(n)
	f(x)
	if x.Cmp(n) != 0 {
		w.fault = fmt.Errorf("integer %x was changed to %x", n, x)
	}
	w.spoilInt(x)
}

func (w *world) outWords(ws []string, err error) string {
	s := fmt.Sprint(ws, err)
	w.spoilWords(ws)
	return s
}

func (w *world) outBytes(b []byte, err error) string {
	s := fmt.Sprintf("%x %v", b, err)
	w.spoil(b)
	return s
}

func (w *world) outSeed(s *mnemonikey.Seed, err error) string {
	if err != nil {
		return fmt.Sprint(s == nil, " ", err)
	}
	b, n := s.Bytes(), s.Int()
	t := fmt.Sprintf("%x %x %d", b, n, s.Era())
	w.spoil(b)
	w.spoilInt(n)
	return t
}

func (w *world) outKey(k *mnemonikey.Mnemonikey, err error) string {
	if err != nil {
		return fmt.Sprint(k == nil, " ", err)
	}
	b, err := k.EncodePGP(nil)
	t := fmt.Sprintf("%x %v %v %v %s", b, err, k.CreatedAt(), k.Expiry(), k.UserID())
	w.spoil(b)
	return t
}

func (w *world) outDecoded(d *mnemonikey.DecodedMnemonic, err error) string {
	if err != nil {
		return fmt.Sprint(d == nil, " ", err)
	}
	return fmt.Sprint(d.Version, d.Encrypted(), d.Creation(), d.CreationOffset())
}

type histOp struct {
	name string
	run  func(w *world) string
}

func c14Ops() []histOp {
	var ops []histOp
	add := func(name string, f func(w *world) string) { ops = append(ops, histOp{name, f}) }
	for _, x := range []struct {
		n string
		f func(w *world) *mnemonikey.Seed
	}{{"seedA", func(w *world) *mnemonikey.Seed { return w.seedA }}, {"seedB", func(w *world) *mnemonikey.Seed { return w.seedB }}} {
		x := x
		add(x.n+".Int", func(w *world) string { n := x.f(w).Int(); s := fmt.Sprintf("%x", n); w.spoilInt(n); return s })
		add(x.n+".Bytes", func(w *world) string { return w.outBytes(x.f(w).Bytes(), nil) })
		add("EncodeMnemonicPlaintext("+x.n+")", func(w *world) string {
			return w.outWords(mnemonikey.EncodeMnemonicPlaintext(x.f(w), 5))
		})
		add("EncodeMnemonicEncrypted("+x.n+")", func(w *world) (s string) {
			w.give("pw1", func(b []byte) {
				s = w.outWords(mnemonikey.EncodeMnemonicEncrypted(x.f(w), 5, b, saltSource(0x1F0F3)))
			})
			return
		})
		add("New("+x.n+")", func(w *world) string {
			return w.outKey(mnemonikey.New(x.f(w), creationTime(9), nil))
		})
	}
	add("plain.Seed", func(w *world) string { return w.outSeed(w.plain.Seed()) })
	add("plain.DecryptSeed", func(w *world) (s string) {
		w.give("any", func(b []byte) { s = w.outSeed(w.plain.DecryptSeed(b)) })
		return
	})
	add("plain fields", func(w *world) string { return w.outDecoded(w.plain, nil) })
	add("enc.Seed", func(w *world) string { return w.outSeed(w.enc.Seed()) })
	add("enc.DecryptSeed(right)", func(w *world) (s string) {
		w.give(c14PW, func(b []byte) { s = w.outSeed(w.enc.DecryptSeed(b)) })
		return
	})
	f := ref.Encrypt(c14Seeds[1], c14Offset+1, 0x2ABCD, []byte(c14PW))
	wrong, collide := "", ""
	for i := 0; wrong == "" || collide == ""; i++ {
		p := fmt.Sprint("guess", i)
		if _, ok := ref.Decrypt(f, []byte(p)); ok && collide == "" {
			collide = p
		} else if !ok && wrong == "" {
			wrong = p
		}
	}
	for _, x := range [][2]string{{"wrong", wrong}, {"colliding", collide}} {
		x := x
		add("enc.DecryptSeed("+x[0]+")", func(w *world) (s string) {
			w.give(x[1], func(b []byte) { s = w.outSeed(w.enc.DecryptSeed(b)) })
			return
		})
	}
	add("enc fields", func(w *world) string { return w.outDecoded(w.enc, nil) })
	for _, x := range []struct {
		n string
		f func(w *world) *mnemonikey.Mnemonikey
	}{{"keyA", func(w *world) *mnemonikey.Mnemonikey { return w.keyA }}, {"keyB", func(w *world) *mnemonikey.Mnemonikey { return w.keyB }}} {
		x := x
		add(x.n+".EncodePGP", func(w *world) string { return w.outBytes(x.f(w).EncodePGP(nil)) })
		add(x.n+".EncodeSubkeysPGP(cert)", func(w *world) string { return w.outBytes(x.f(w).EncodeSubkeysPGP(nil, true)) })
		add(x.n+".fingerprints", func(w *world) string {
			k := x.f(w)
			s := w.outBytes(k.Fingerprint(), nil)
			for _, t := range ref.Types {
				s += w.outBytes(k.SubkeyFingerprint(mnemonikey.SubkeyType(t)), nil)
			}
			return s
		})
		add(x.n+".facts", func(w *world) string {
			k := x.f(w)
			ts := k.SubkeyTypes()
			s := fmt.Sprint(ts, k.UserID(), k.CreatedAt(), k.Expiry())
			if w.scribble {
				for i := range ts {
					ts[i] = "spoiled"
				}
			}
			return s
		})
		add(x.n+".EncodeMnemonicPlaintext", func(w *world) string { return w.outWords(x.f(w).EncodeMnemonicPlaintext()) })
		add(x.n+".EncodeMnemonicEncrypted", func(w *world) (s string) {
			w.give("pw2", func(b []byte) { s = w.outWords(x.f(w).EncodeMnemonicEncrypted(b, saltSource(0x00123))) })
			return
		})
	}
	add("keyA.EncodePGPArmor", func(w *world) string { s, err := w.keyA.EncodePGPArmor(nil); return fmt.Sprint(s, err) })
	add("keyA.EncodeSubkeysPGPArmor(no cert)", func(w *world) string {
		s, err := w.keyA.EncodeSubkeysPGPArmor(nil, false)
		return fmt.Sprint(s, err)
	})
	add("RecoverPlaintext", func(w *world) (s string) {
		w.giveWords(c14Phrase(1), func(ws []string) {
			o := &mnemonikey.KeyOptions{Name: "R", Subkeys: []mnemonikey.SubkeyType{"signing"}}
			s = w.outKey(mnemonikey.RecoverPlaintext(ws, o))
			if o.Name != "R" || len(o.Subkeys) != 1 || o.Subkeys[0] != "signing" || o.Email != "" || o.TTL != 0 {
				w.fault = fmt.Errorf("the caller's options were changed: %+v", o)
			}
		})
		return
	})
	add("RecoverEncrypted", func(w *world) (s string) {
		w.giveWords(c14Enc(0), func(ws []string) {
			w.give(c14PW, func(b []byte) { s = w.outKey(mnemonikey.RecoverEncrypted(ws, b, nil)) })
		})
		return
	})
	add("DecodeMnemonic(upper)", func(w *world) (s string) {
		up := c14Phrase(1)
		var d *mnemonikey.DecodedMnemonic
		var err error
		for i := range up {
			up[i] = strings.ToUpper(up[i])
		}
		w.giveWords(up, func(ws []string) {
			d, err = mnemonikey.DecodeMnemonic(ws)
			s = w.outDecoded(d, err)
		})
		if err == nil {
			s += w.outSeed(d.Seed())
		}
		return
	})
	add("DecodeMnemonic(bad)", func(w *world) (s string) {
		bad := c14Phrase(0)
		bad[13] = ref.Words([]uint16{0})[0]
		if c14Phrase(0)[13] == bad[13] {
			bad[13] = ref.Words([]uint16{1})[0]
		}
		w.giveWords(bad, func(ws []string) { s = w.outDecoded(mnemonikey.DecodeMnemonic(ws)) })
		return
	})
	add("NewSeed", func(w *world) string {
		var x *mnemonikey.Seed
		var err error
		w.giveInt(c14Seeds[0].Int(), func(n *big.Int) { x, err = mnemonikey.NewSeed(0, n) })
		return w.outSeed(x, err)
	})
	add("mnemonic codec", func(w *world) (s string) {
		w.giveInt(c14Seeds[0].Int(), func(n *big.Int) {
			idx, err := mnemonic.EncodeToIndices(n, 128)
			s = fmt.Sprint(idx, err)
			keep := append([]uint16{}, idx...)
			ws, err := mnemonic.EncodeToWords(idx)
			s += fmt.Sprint(ws, err)
			back, err := mnemonic.DecodeWords(ws)
			s += fmt.Sprint(back, err)
			v, err := mnemonic.DecodeIndices(idx)
			s += fmt.Sprint(v, err)
			if fmt.Sprint(idx) != fmt.Sprint(keep) {
				w.fault = fmt.Errorf("indices changed: %v to %v", keep, idx)
			}
			w.spoilWords(ws)
			if w.scribble {
				for i := range idx {
					idx[i], back[i] = 1, 2
				}
			}
			w.spoilInt(v)
		})
		return
	})
	add("versions", func(w *world) string {
		var s string
		for i := 0; i < 4096; i += 256 {
			v, err := mnemonikey.ParseMnemonicVersion(ref.Words([]uint16{uint16(i)})[0])
			s += fmt.Sprint(v, err, v.Era(), v.MnemonicSize(), v.Encrypted(), ";")
		}
		return s
	})
	return ops
}

// c14Fresh prints each operation's answer on a fresh object in a fresh process.
func c14Fresh(i int) {
	w, err := newWorld(false)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(1)
	}
	var s string
	if err := mc.Safe(func() error { s = c14Ops()[i].run(w); return nil }); err != nil {
		s = err.Error()
		fmt.Println("error:", s)
		os.Exit(1)
	}
	b, _ := json.Marshal(s)
	os.Stdout.Write(b)
}

// c14Args gives every function arguments of many shapes and looks at them afterwards, the spare room behind
// slices included.
func c14Args(c *mc.Ctx) {
	elements := []mnemonikey.SubkeyType{"encryption", "authentication", "signing", "unknown", ""}
	lists := [][]mnemonikey.SubkeyType{nil}
	var gen func(p []mnemonikey.SubkeyType, n int)
	gen = func(p []mnemonikey.SubkeyType, n int) {
		lists = append(lists, append([]mnemonikey.SubkeyType{}, p...))
		if n > 0 {
			for _, e := range elements {
				gen(append(p, e), n-1)
			}
		}
	}
	gen(nil, 3)
	lists = append(lists, []mnemonikey.SubkeyType{"signing", "encryption", "authentication", "signing"}, []mnemonikey.SubkeyType{"signing", "signing", "encryption", "authentication"})
	texts := []string{"", "Plain Name", "  padded\t ", "UPPER lower", "a\x00b\x00", "Gr\u00fc\u00dfe \u212a", "\xff\xfe bad", "new\nline\r\n", "<a@b>", strings.Repeat("long ", 200)}
	ttls := []time.Duration{0, 1, -1, time.Second, time.Second + 1, 86400*time.Second - 1, 1<<63 - 1}
	c.Space("%d selection lists, %d texts as name and as email, %d lifetimes, %d index triples in the options of New, RecoverPlaintext and RecoverEncrypted; word lists in all letter cases, valid or not; pgp constructors and encoders: no argument changes", len(lists), len(texts), len(ttls), 8)
	var cases []mnemonikey.KeyOptions
	for _, l := range lists {
		cases = append(cases, mnemonikey.KeyOptions{Name: "N", Subkeys: l})
		cases = append(cases, mnemonikey.KeyOptions{Name: " n ", Email: "E@X", TTL: 90 * time.Second, Subkeys: l, SigningSubkeyIndex: 5})
	}
	for _, a := range texts {
		for _, b := range texts {
			cases = append(cases, mnemonikey.KeyOptions{Name: a, Email: b})
		}
	}
	for _, t := range ttls {
		for k := 0; k < 8; k++ {
			cases = append(cases, mnemonikey.KeyOptions{TTL: t, EncryptionSubkeyIndex: uint16(k&1) * 65535, AuthenticationSubkeyIndex: uint16(k>>1&1) * 300, SigningSubkeyIndex: uint16(k >> 2 & 1)})
		}
	}
	c.Parallel(len(cases), func(i int) {
		o := cases[i]
		for fn := 0; fn < 3; fn++ {
			for _, off := range []time.Duration{0, -time.Second} { // also a refused creation time
				if off != 0 && fn != 0 {
					continue
				}
				c.Case()
				c.Try(func() string { return fmt.Sprintf("options %+v, function %d, time %v", o, fn, off) }, func() error {
					given := o
					if o.Subkeys != nil {
						room := make([]mnemonikey.SubkeyType, len(o.Subkeys)+3)
						copy(room, o.Subkeys)
						for j := len(o.Subkeys); j < len(room); j++ {
							room[j] = "spare"
						}
						given.Subkeys = room[:len(o.Subkeys)]
					}
					seed, err := mnemonikey.NewSeed(0, c14Seeds[i&1].Int())
					if err != nil {
						return err
					}
					w := &world{}
					switch fn {
					case 0:
						mnemonikey.New(seed, creationTime(c14Offset).Add(off*time.Duration(c14Offset+1)), &given)
					case 1:
						w.giveWords(c14Phrase(0), func(ws []string) { mnemonikey.RecoverPlaintext(ws, &given) })
					case 2:
						w.giveWords(c14Enc(0), func(ws []string) {
							w.give(c14PW, func(b []byte) { mnemonikey.RecoverEncrypted(ws, b, &given) })
						})
					}
					if w.fault != nil {
						return w.fault
					}
					if got := seed.Int(); got.Cmp(c14Seeds[i&1].Int()) != 0 {
						return fmt.Errorf("the seed became %x", got)
					}
					if given.Name != o.Name || given.Email != o.Email || given.TTL != o.TTL || given.EncryptionSubkeyIndex != o.EncryptionSubkeyIndex ||
						given.AuthenticationSubkeyIndex != o.AuthenticationSubkeyIndex || given.SigningSubkeyIndex != o.SigningSubkeyIndex || len(given.Subkeys) != len(o.Subkeys) || (given.Subkeys == nil) != (o.Subkeys == nil) {
						return fmt.Errorf("the caller's options were changed from %+v to %+v", o, given)
					}
					for j, t := range given.Subkeys[:cap(given.Subkeys)] {
						if j < len(o.Subkeys) && t != o.Subkeys[j] || j >= len(o.Subkeys) && t != "spare" {
							return fmt.Errorf("the caller's selection was changed from %q to %q", o.Subkeys, given.Subkeys[:cap(given.Subkeys)])
						}
					}
					return nil
				})
			}
		}
	})
	// Word lists of every kind.
	var words [][]string
	for _, base := range [][]string{c14Phrase(0), c14Phrase(1), c14Enc(0), c14Enc(1), {}, {"zebra"}, {"", " ", "nonsense"}} {
		for _, f := range []func(string, int) string{
			func(s string, i int) string { return s },
			func(s string, i int) string { return strings.ToUpper(s) },
			func(s string, i int) string {
				if i%2 == 1 {
					return strings.ToUpper(s)
				}
				return s
			},
			func(s string, i int) string { return " " + s + "\n" },
			func(s string, i int) string { return s + "x" },
		} {
			x := make([]string, len(base))
			for i, v := range base {
				x[i] = f(v, i)
			}
			words = append(words, x, x[:len(x)/2], append(append([]string{}, x...), x...))
		}
	}
	c.Parallel(len(words), func(i int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("word list %q", words[i]) }, func() error {
			w := &world{}
			w.giveWords(words[i], func(ws []string) { mnemonikey.DecodeMnemonic(ws) })
			w.giveWords(words[i], func(ws []string) { mnemonikey.RecoverPlaintext(ws, nil) })
			w.giveWords(words[i], func(ws []string) { mnemonikey.RecoverEncrypted(ws, []byte("x"), nil) })
			w.giveWords(words[i], func(ws []string) { mnemonic.DecodeWords(ws) })
			return w.fault
		})
	})
	c14PGP(c)
}

// c14Pairs makes keys one after the other, with every pair of options, and judges each by itself: what an earlier
// caller asked for must not show in what a later one gets.
func c14Pairs(c *mc.Ctx) {
	opts := []*ref.Opts{
		nil,
		{All: true},
		{All: true, Name: "Bob"},
		{All: true, Email: "b@x"},
		{All: true, TTL: 86400},
		{All: true, Enc: 7},
		{All: true, Auth: 300},
		{All: true, Sig: 65535},
		{Select: []string{}},
		{Select: []string{"signing"}},
		{Select: []string{"encryption", "authentication"}, Name: "Eve", TTL: 60, Enc: 1, Auth: 2, Sig: 3},
		{All: true, Name: "refused"}, // with a lifetime of -1
	}
	type call struct{ fn, o, who int }
	var calls []call
	for fn := 0; fn < 3; fn++ {
		for o := range opts {
			calls = append(calls, call{fn, o, 0}, call{fn, o, 1})
		}
	}
	c.Space("all pairs of %d calls of New, RecoverPlaintext and RecoverEncrypted with %d kinds of options (none, each field alone, several, refused) for two seeds, one after the other", len(calls), len(opts))
	models := map[call]*ref.Expect{}
	for _, x := range calls {
		o := ref.Opts{All: true}
		if opts[x.o] != nil {
			o = *opts[x.o]
		}
		models[x] = ref.Build(c14Seeds[x.who], stamp(c14Offset+uint32(x.who)), o).Expect()
	}
	run := func(x call) error {
		var k *mnemonikey.KeyOptions
		if o := opts[x.o]; o != nil {
			k = libOpts(*o)
			if o.Name == "refused" {
				k.TTL = -1
			}
		}
		var mnk *mnemonikey.Mnemonikey
		var err error
		switch x.fn {
		case 0:
			mnk, err = mnemonikey.New(mustSeed(c14Seeds[x.who]), creationTime(c14Offset+uint32(x.who)), k)
		case 1:
			mnk, err = mnemonikey.RecoverPlaintext(c14Phrase(x.who), k)
		case 2:
			mnk, err = mnemonikey.RecoverEncrypted(c14Enc(x.who), []byte(c14PW), k)
		}
		if k != nil && k.TTL < 0 {
			if err == nil || mnk != nil {
				return errors.New("a negative lifetime was accepted")
			}
			return nil
		}
		if err != nil {
			return err
		}
		out, err := mnk.EncodePGP(nil)
		if err != nil {
			return err
		}
		return ref.CheckExport(out, models[x]).Issues.Not()
	}
	show := func(x call) string {
		return fmt.Sprintf("%s(seed %d, %+v)", []string{"New", "RecoverPlaintext", "RecoverEncrypted"}[x.fn], x.who, opts[x.o])
	}
	for _, a := range calls {
		for _, b := range calls {
			if !c.Thorough && a.who == b.who && a.fn != b.fn {
				continue
			}
			c.States(1)
			c.Steps(2)
			c.Trace()
			c.Try(func() string { return show(a) + " ; " + show(b) }, func() error {
				if err := run(a); err != nil {
					return fmt.Errorf("first call: %w", err)
				}
				if err := run(b); err != nil {
					return fmt.Errorf("second call: %w", err)
				}
				return nil
			})
		}
	}
}

func c14(c *mc.Ctx) {
	ops := c14Ops()
	want := make([]string, len(ops))
	c.Parallel(len(ops), func(i int) {
		out, err := exec.Command(os.Args[0], "C14-fresh", fmt.Sprint(i)).Output()
		if x := new(exec.ExitError); errors.As(err, &x) && x.ExitCode() == 1 {
			c.Bad("fresh "+ops[i].name, "on fresh objects: %s", out)
			return
		}
		if err == nil {
			err = json.Unmarshal(out, &want[i])
		}
		if err != nil {
			panic(fmt.Sprint("C14-fresh ", i, ": ", err))
		}
	})
	if c.Violated() {
		return
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Space("all sequences of 1..%d of %d operations on two seeds, two decoded phrases, two key sets and the package functions, each with and without scribbling over every argument and result; oracle: the operation's answer in a fresh process", depth, len(ops))
	run := func(seq []int, scribble bool) {
		c.States(1)
		c.Steps(len(seq))
		c.Trace()
		c.Try(func() string {
			var n []string
			for _, i := range seq {
				n = append(n, ops[i].name)
			}
			return fmt.Sprintf("scribble=%v %s", scribble, strings.Join(n, " ; "))
		}, func() error {
			w, err := newWorld(scribble)
			if err != nil {
				return err
			}
			for k, i := range seq {
				got := ops[i].run(w)
				if got != want[i] {
					return fmt.Errorf("call %d (%s) answers %s\non a fresh object: %s", k+1, ops[i].name, cut(got), cut(want[i]))
				}
				if w.fault != nil {
					return fmt.Errorf("call %d (%s): %w", k+1, ops[i].name, w.fault)
				}
			}
			return nil
		})
	}
	n := len(ops)
	for d := 1; d <= depth; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= n
		}
		c.Parallel(total, func(k int) {
			seq := make([]int, d)
			for i := range seq {
				seq[i] = k % n
				k /= n
			}
			run(seq, true)
			run(seq, false)
		})
	}
	if !c.Violated() {
		c.Outcome("answers equal to those of fresh objects")
	}
	c14Args(c)
	c14Pairs(c)
	// Password exports are slow: all pairs and the round from protected to unprotected.
	type pwOp struct {
		name string
		pw   string
		stub bool
	}
	pws := []pwOp{{"EncodePGP(a)", "alpha", false}, {"EncodePGP(b)", "beta", false}, {"EncodePGP()", "", false}, {"EncodeSubkeysPGP(a)", "alpha", true}, {"EncodeSubkeysPGP()", "", true}}
	pd := 2
	if c.Thorough {
		pd = 3
	}
	c.Space("all sequences of 1..%d of %d password exports on one key set", pd, len(pws))
	o := ref.Opts{Name: "P", Select: []string{"signing"}}
	model := ref.Build(c14Seeds[0], stamp(c14Offset), o)
	for d := 1; d <= pd; d++ {
		total := 1
		for i := 0; i < d; i++ {
			total *= len(pws)
		}
		c.Parallel(total, func(k int) {
			var seq []pwOp
			for i := 0; i < d; i++ {
				seq = append(seq, pws[k%len(pws)])
				k /= len(pws)
			}
			c.States(1)
			c.Steps(d)
			c.Trace()
			c.Try(func() string { return fmt.Sprint("password exports ", seq) }, func() error {
				mnk, err := build(c14Seeds[0], c14Offset, o)
				if err != nil {
					return err
				}
				for i, x := range seq {
					w := &world{scribble: true}
					var out []byte
					w.give(x.pw, func(b []byte) {
						if x.stub {
							out, err = mnk.EncodeSubkeysPGP(b, true)
						} else {
							out, err = mnk.EncodePGP(b)
						}
					})
					if err != nil {
						return err
					}
					if w.fault != nil {
						return w.fault
					}
					e := model.Expect()
					e.Stub = x.stub
					if x.pw != "" {
						e.Password, e.Open = []byte(x.pw), true
					}
					if err := ref.CheckExport(out, e).Issues.Not(); err != nil {
						return fmt.Errorf("call %d: %w", i+1, err)
					}
					w.spoil(out)
				}
				return nil
			})
		})
	}
}

// ---- C16 ----

func c16(c *mc.Ctx) {
	c.Space("all 4096 first words x 3 letter cases; whole phrases for each")
	c.Parallel(4096, func(i int) {
		word := wordlist4096.WordList[i]
		ver := i >> 8
		for _, w := range []string{word, strings.ToUpper(word), strings.ToUpper(word[:1]) + word[1:]} {
			c.Case()
			c.Try(func() string { return "first word " + w }, func() error {
				v, err := mnemonikey.ParseMnemonicVersion(w)
				if ver > 1 {
					if !errors.Is(err, mnemonikey.ErrInvalidVersionNumber) {
						return fmt.Errorf("version %d: %v, %v", ver, v, err)
					}
					c.Outcome("version refused")
				} else {
					if err != nil || int(v) != ver {
						return fmt.Errorf("version %d: %v, %v", ver, v, err)
					}
					if err := c16Version(v); err != nil {
						return err
					}
					c.Outcome("version accepted")
				}
				// A whole phrase that starts with this word and has a right checksum, at both lengths.
				for _, size := range []int{14, 16} {
					idx := make([]uint16, size)
					idx[0] = uint16(i)
					for k := 1; k < size-1; k++ {
						idx[k] = uint16(k * 273 & 0xFFF)
					}
					ref.FixChecksum(idx)
					words := ref.Words(idx)
					words[0] = w
					d, err := mnemonikey.DecodeMnemonic(words)
					switch {
					case ver > 1:
						if !errors.Is(err, mnemonikey.ErrInvalidVersionNumber) {
							return fmt.Errorf("phrase of version %d with %d words: %v", ver, size, err)
						}
					case size != ref.WordCount(ver):
						if !errors.Is(err, mnemonikey.ErrInvalidWordCount) {
							return fmt.Errorf("phrase of version %d with %d words: %v", ver, size, err)
						}
					default:
						if err != nil || d.Version != v || d.Encrypted() != v.Encrypted() || len(words) != v.MnemonicSize() {
							return fmt.Errorf("phrase of version %d: %v", ver, err)
						}
						pw := []byte("x")
						s, err := d.Seed()
						if ver == 1 {
							if err == nil {
								return errors.New("encrypted phrase gives a seed")
							}
							s, err = d.DecryptSeed(pw)
							if errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
								return nil
							}
						}
						if err != nil || s.Era() != v.Era() {
							return fmt.Errorf("seed of phrase: %v", err)
						}
					}
				}
				return nil
			})
		}
	})
	c.Space("words outside the list: every list word with a letter dropped or doubled, empty, blank-padded")
	c.Parallel(4096, func(i int) {
		word := wordlist4096.WordList[i]
		for _, w := range []string{word[:len(word)-1], word[1:], word + "x", word + word[len(word)-1:], " " + word, word + " ", word + "\n", word + "\x00"} {
			if _, ok := ref.WordIndex(w); ok {
				continue
			}
			c.Case()
			c.Try(func() string { return fmt.Sprintf("not a word %q", w) }, func() error {
				if v, err := mnemonikey.ParseMnemonicVersion(w); !errors.Is(err, mnemonic.ErrInvalidWord) {
					return fmt.Errorf("%v, %v", v, err)
				}
				c.Outcome("word refused")
				return nil
			})
		}
	})
	c.Case()
	c.Try(func() string { return "empty word" }, func() error {
		if _, err := mnemonikey.ParseMnemonicVersion(""); !errors.Is(err, mnemonic.ErrInvalidWord) {
			return fmt.Errorf("%v", err)
		}
		return nil
	})
	c.Space("version numbers 0..65536, powers of two and the largest")
	vs := []uint{1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint}
	for v := uint(0); v <= 65536; v++ {
		vs = append(vs, v)
	}
	for _, v := range vs {
		c.Case()
		c.Try(func() string { return fmt.Sprint("version ", v) }, func() error {
			return c16Version(mnemonikey.MnemonicVersion(v))
		})
	}
	c.Space("eras: -65536..65536, powers of two and the extremes, in seed construction")
	es := []int{math.MinInt, math.MaxInt, 1 << 31, 1 << 32, 1<<32 + 1, -1 << 31, -1 << 32, math.MinInt + 1}
	for e := -65536; e <= 65536; e++ {
		es = append(es, e)
	}
	for _, e := range es {
		for _, s := range []ref.Seed16{fewSeeds()[0], fewSeeds()[4]} {
			c.Case()
			c.Try(func() string { return fmt.Sprint("era ", e) }, func() error {
				x, err := mnemonikey.NewSeed(mnemonikey.Era(e), s.Int())
				if e == 0 {
					if err != nil || x.Era() != 0 {
						return fmt.Errorf("era 0: %v", err)
					}
					c.Outcome("era accepted")
					return nil
				}
				if !errors.Is(err, mnemonikey.ErrInvalidEraNumber) || x != nil {
					return fmt.Errorf("%v %v", x, err)
				}
				c.Outcome("era refused")
				return nil
			})
		}
	}
	c.Space("decoded phrases relabelled with version 2..300: no seed comes out")
	for v := uint(2); v <= 300; v++ {
		for i, words := range [][]string{c14Phrase(0), c14Enc(0)} {
			c.Case()
			c.Try(func() string { return fmt.Sprint("relabelled ", i, " to ", v) }, func() error {
				d, err := mnemonikey.DecodeMnemonic(words)
				if err != nil {
					return err
				}
				d.Version = mnemonikey.MnemonicVersion(v)
				for _, f := range []func() (*mnemonikey.Seed, error){d.Seed, func() (*mnemonikey.Seed, error) { return d.DecryptSeed([]byte(c14PW)) }} {
					if s, err := f(); err == nil {
						return fmt.Errorf("a seed of era %d came out", s.Era())
					}
				}
				return nil
			})
		}
	}
	c.Space("the zero Seed and generated seeds")
	for i := 0; i < 64; i++ {
		c.Case()
		c.Try(func() string { return fmt.Sprint("generated ", i) }, func() error {
			s, err := mnemonikey.GenerateSeed(bytes.NewReader(stream(i, 64)))
			if err != nil {
				return err
			}
			if s.Era() != 0 {
				return fmt.Errorf("era %d", s.Era())
			}
			_, err = mnemonikey.New(s, creationTime(1), nil)
			return err
		})
	}
}

func c16Version(v mnemonikey.MnemonicVersion) error {
	switch v {
	case 0:
		if v.Era() != 0 || v.Encrypted() || v.MnemonicSize() != 14 {
			return fmt.Errorf("version 0: era %d encrypted %v words %d", v.Era(), v.Encrypted(), v.MnemonicSize())
		}
	case 1:
		if v.Era() != 0 || !v.Encrypted() || v.MnemonicSize() != 16 {
			return fmt.Errorf("version 1: era %d encrypted %v words %d", v.Era(), v.Encrypted(), v.MnemonicSize())
		}
	default:
		if v.Era() != -1 {
			return fmt.Errorf("unknown version %d has era %d", v, v.Era())
		}
		if s, err := mnemonikey.NewSeed(v.Era(), big.NewInt(1)); err == nil {
			return fmt.Errorf("a seed of unknown version %d: %v", v, s)
		}
	}
	return nil
}

// ---- C18 ----

func c18(c *mc.Ctx) {
	check := func(v *big.Int, size uint) error {
		keep := new(big.Int).Set(v)
		idx, err := mnemonic.EncodeToIndices(v, size)
		if v.Cmp(keep) != 0 {
			return fmt.Errorf("the caller's integer was changed from %x to %x", keep, v)
		}
		if uint(v.BitLen()) > size {
			if err == nil {
				return fmt.Errorf("%d bits fit in %d: %v", v.BitLen(), size, idx)
			}
			return nil
		}
		if err != nil {
			return err
		}
		if len(idx) != int((size+11)/12) {
			return fmt.Errorf("%d indices for %d bits", len(idx), size)
		}
		back := new(big.Int)
		for _, i := range idx {
			if i > 4095 {
				return fmt.Errorf("index %d", i)
			}
			back.Lsh(back, 12)
			back.Or(back, big.NewInt(int64(i)))
		}
		if back.Cmp(keep) != 0 {
			return fmt.Errorf("indices %v stand for %x, not %x", idx, back, keep)
		}
		ikeep := append([]uint16{}, idx...)
		got, err := mnemonic.DecodeIndices(idx)
		if err != nil || got.Cmp(keep) != 0 {
			return fmt.Errorf("decoding %v gives %x, %v", idx, got, err)
		}
		words, err := mnemonic.EncodeToWords(idx)
		if err != nil {
			return err
		}
		if err := ref.SameWords(words, ref.Words(ikeep)); err != nil {
			return err
		}
		di, err := mnemonic.DecodeWords(words)
		if err != nil || fmt.Sprint(di) != fmt.Sprint(ikeep) || fmt.Sprint(idx) != fmt.Sprint(ikeep) {
			return fmt.Errorf("words of %v decode to %v, %v", ikeep, di, err)
		}
		return nil
	}
	one := func(v *big.Int, size uint) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("integer %x in %d bits", v, size) }, func() error { return check(new(big.Int).Set(v), size) })
	}
	top := 1 << 13
	if c.Thorough {
		top = 1 << 17
	}
	c.Space("all integers below %d x all bit sizes 0..40", top)
	c.Parallel(top/64, func(i int) {
		for j := 0; j < 64; j++ {
			for size := uint(0); size <= 40; size++ {
				one(big.NewInt(int64(i*64+j)), size)
			}
		}
	})
	c.Space("single bits, masks and complements of 0..300 bits x every size around and above them")
	c.Parallel(300, func(k int) {
		b := new(big.Int).Lsh(big.NewInt(1), uint(k))
		m := new(big.Int).Sub(b, big.NewInt(1))
		for _, v := range []*big.Int{b, m, new(big.Int).Xor(b, new(big.Int).Rsh(b, 7)), new(big.Int).Or(b, big.NewInt(0xABCDEF))} {
			for d := -13; d <= 30; d++ {
				if s := v.BitLen() + d; s >= 0 {
					one(v, uint(s))
				}
			}
			one(v, 400)
			one(v, 4096)
		}
	})
	c.Space("all single indices 0..65535; all pairs of 0..4095 step 7 and boundaries; an index above 4095 at each position of lists of 1..20")
	lists := func(idx []uint16) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("indices %v", idx) }, func() error {
			bad := false
			want := new(big.Int)
			for _, i := range idx {
				bad = bad || i > 4095
				want.Lsh(want, 12)
				want.Or(want, big.NewInt(int64(i)))
			}
			keep := append([]uint16{}, idx...)
			got, err := mnemonic.DecodeIndices(idx)
			words, err2 := mnemonic.EncodeToWords(idx)
			for i := range idx {
				if idx[i] != keep[i] {
					return fmt.Errorf("the caller's indices were changed to %v", idx)
				}
			}
			if bad {
				if !errors.Is(err, mnemonic.ErrInvalidIndex) || !errors.Is(err2, mnemonic.ErrInvalidIndex) {
					return fmt.Errorf("accepted: %v %v, %v %v", got, err, words, err2)
				}
				c.Outcome("index refused")
				return nil
			}
			if err != nil || err2 != nil || got.Cmp(want) != 0 {
				return fmt.Errorf("%v %v %v, want %v", got, err, err2, want)
			}
			return ref.SameWords(words, ref.Words(keep))
		})
	}
	c.Parallel(65536, func(i int) { lists([]uint16{uint16(i)}) })
	step := 7
	if c.Thorough {
		step = 1
	}
	c.Parallel(4096/step+1, func(i int) {
		for j := 0; j < 4096; j += step {
			if i*step < 4096 {
				lists([]uint16{uint16(i * step), uint16(j)})
			}
		}
	})
	for n := 1; n <= 20; n++ {
		for p := 0; p < n; p++ {
			for _, v := range []uint16{4096, 4097, 8191, 8192, 0x8000, 0xFFFF, 4095} {
				for _, bg := range []uint16{0, 1, 4095} {
					idx := make([]uint16, n)
					for i := range idx {
						idx[i] = bg
					}
					idx[p] = v
					lists(idx)
				}
			}
		}
	}
	lists(nil)
	lists([]uint16{})
	c.Space("all 4096 words x letter cases, alone and at each position of 1..16; words outside the list at each position")
	c.Parallel(4096, func(i int) {
		w := wordlist4096.WordList[i]
		for _, x := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w[:1] + strings.ToUpper(w[1:])} {
			c.Case()
			c.Try(func() string { return "word " + x }, func() error {
				got, err := mnemonic.DecodeWords([]string{x})
				if err != nil || len(got) != 1 || got[0] != uint16(i) {
					return fmt.Errorf("%v %v, want %d", got, err, i)
				}
				return nil
			})
		}
		n := i%16 + 1
		for p := 0; p < n; p++ {
			words := make([]string, n)
			for k := range words {
				words[k] = wordlist4096.WordList[(k*97+i)%4096]
			}
			words[p] = w
			c.Case()
			c.Try(func() string { return fmt.Sprintf("word %s at %d of %d", w, p, n) }, func() error {
				got, err := mnemonic.DecodeWords(words)
				if err != nil || len(got) != n {
					return fmt.Errorf("%v %v", got, err)
				}
				for k := range words {
					if wordlist4096.WordList[got[k]] != words[k] {
						return fmt.Errorf("position %d: %d", k, got[k])
					}
				}
				for _, junk := range []string{"", w + "q", w[:1], " " + w, "zzzz", "\xff", strings.Repeat(w, 3)} {
					if _, ok := ref.WordIndex(junk); ok {
						continue
					}
					bad := append([]string{}, words...)
					bad[p] = junk
					if got, err := mnemonic.DecodeWords(bad); !errors.Is(err, mnemonic.ErrInvalidWord) {
						return fmt.Errorf("%q accepted: %v %v", junk, got, err)
					}
				}
				return nil
			})
		}
	})
}
