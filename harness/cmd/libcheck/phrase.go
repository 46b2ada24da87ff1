package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/wordlist4096"
	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
	checks["C03"] = c03
	checks["C04"] = c04
}

type so struct {
	s ref.Seed16
	o uint32
}

func (x so) String() string { return fmt.Sprintf("seed=%x offset=%d", x.s[:], x.o) }

// plainSpace calls f for every (seed, offset) of the plaintext phrase space explored.
func plainSpace(c *mc.Ctx, f func(x so)) {
	seeds, offs := manySeeds(), manyOffsets()
	c.Space("%d boundary seeds (every single-bit, mask, complement and repeated-byte seed) x %d boundary offsets", len(seeds), len(offs))
	c.Parallel(len(seeds), func(i int) {
		for _, o := range offs {
			f(so{seeds[i], o})
		}
	})
	c.Space("all 8128 two-bit seeds x 2 offsets")
	c.Parallel(128, func(i int) {
		for j := 0; j < i; j++ {
			v := new(big.Int).Lsh(big.NewInt(1), uint(i))
			v.SetBit(v, j, 1)
			f(so{seedInt(v), 0})
			f(so{seedInt(v), ref.MaxOffset})
		}
	})
	// Every 12-bit value at every word position the fields can reach.
	c.Space("all 4096 values of each of the 13 twelve-bit windows of seed||offset x 3 backgrounds")
	backs := []so{{fewSeeds()[0], 0}, {fewSeeds()[1], ref.MaxOffset}, {fewSeeds()[4], 0x12345678}}
	c.Parallel(13*3, func(i int) {
		w, b := i%13, backs[i/13]
		base := new(big.Int).Lsh(b.s.Int(), 31)
		base.Or(base, big.NewInt(int64(b.o)))
		mask := new(big.Int).Lsh(big.NewInt(0xFFF), uint(12*w))
		lim := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 159), big.NewInt(1))
		for v := int64(0); v < 4096; v++ {
			x := new(big.Int).AndNot(base, mask)
			x.Or(x, new(big.Int).Lsh(big.NewInt(v), uint(12*w)))
			x.And(x, lim)
			off := new(big.Int).And(x, big.NewInt(ref.MaxOffset))
			f(so{seedInt(new(big.Int).Rsh(x, 31)), uint32(off.Uint64())})
		}
	})
	n := 1 << 18
	if c.Thorough {
		n = 1 << 24
	}
	c.Space("offsets 0..%d and the last %d, densely, for one seed", n-1, n)
	c.Parallel(n>>10, func(i int) {
		for j := 0; j < 1<<10; j++ {
			o := uint32(i<<10 | j)
			f(so{fewSeeds()[4], o})
			f(so{fewSeeds()[7], ref.MaxOffset - o})
		}
	})
	days := ref.MaxOffset/86400 + 1
	c.Space("the first and last seconds of all %d days of the offset range (and of the hours of every 16th), alternating seeds", days)
	c.Parallel(days, func(i int) {
		at := func(o int64) {
			for d := int64(-1); d <= 1; d++ {
				if x := o + d; x >= 0 && x <= ref.MaxOffset {
					f(so{fewSeeds()[(i+int(x))&7], uint32(x)})
				}
			}
		}
		at(int64(i) * 86400)
		if i%16 == 0 {
			for h := int64(1); h < 24; h++ {
				at(int64(i)*86400 + h*3600)
			}
		}
	})
	m := 1 << 17
	if c.Thorough {
		m = 1 << 22
	}
	c.Space("%d numbered seeds, each with its own offset", m)
	c.Parallel(m>>8, func(i int) {
		for j := 0; j < 1<<8; j++ {
			k := i<<8 | j
			s := numbered(k)
			f(so{s, (uint32(k)*2654435761 ^ uint32(s[3])<<7) & ref.MaxOffset})
		}
	})
}

func c01(c *mc.Ctx) {
	one := func(x so) {
		c.Case()
		c.Try(x.String, func() error { return c01Case(x) })
	}
	plainSpace(c, one)
	// The same through a Mnemonikey object.
	seeds := manySeeds()
	c.Space("%d seeds x 3 offsets through New and Mnemonikey.EncodeMnemonicPlaintext", len(seeds))
	c.Parallel(len(seeds), func(i int) {
		for _, o := range []uint32{0, uint32(i) * 65537, ref.MaxOffset} {
			x := so{seeds[i], o}
			c.Case()
			c.Try(func() string { return "New " + x.String() }, func() error {
				mnk, err := mnemonikey.New(mustSeed(x.s), creationTime(x.o), nil)
				if err != nil {
					return err
				}
				words, err := mnk.EncodeMnemonicPlaintext()
				if err != nil {
					return err
				}
				return c01Words(x, words)
			})
		}
	})
	// What cannot be represented.
	c.Space("offsets 2^31..2^32-1 at every boundary, entropy integers of 129..300 bits and negative ones")
	var late []uint32
	for k := uint(0); k < 31; k++ {
		late = append(late, 1<<31|1<<k, 1<<31|(1<<k-1), ^uint32(0)<<k|1<<31)
	}
	for _, s := range fewSeeds() {
		for _, o := range late {
			x := so{s, o}
			c.Case()
			c.Try(func() string { return "late " + x.String() }, func() error {
				words, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(x.s), x.o)
				if err == nil {
					return fmt.Errorf("offset %d encoded as %v", x.o, words)
				}
				words, err = mnemonikey.EncodeMnemonicEncrypted(mustSeed(x.s), x.o, []byte("pw"), saltSource(7))
				if err == nil {
					return fmt.Errorf("offset %d encoded (encrypted) as %v", x.o, words)
				}
				c.Outcome("refused")
				return nil
			})
		}
	}
	var bad []*big.Int
	for k := uint(128); k < 300; k++ {
		v := new(big.Int).Lsh(big.NewInt(1), k)
		bad = append(bad, v, new(big.Int).Or(v, big.NewInt(1)))
	}
	for k := uint(0); k < 140; k++ {
		bad = append(bad, new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), k)))
	}
	for _, v := range bad {
		c.Case()
		c.Try(func() string { return "entropy " + v.Text(16) }, func() error {
			s, err := mnemonikey.NewSeed(0, new(big.Int).Set(v))
			if err != nil {
				c.Outcome("refused")
				return nil
			}
			words, err := mnemonikey.EncodeMnemonicPlaintext(s, 5)
			if err != nil {
				c.Outcome("refused")
				return nil
			}
			return fmt.Errorf("entropy %s accepted and encoded as %v", v.Text(16), words)
		})
	}
	if c.Thorough {
		c.Space("all 2^31 offsets for one seed")
		s := mustSeed(fewSeeds()[7])
		want := fewSeeds()[7].Int()
		c.Parallel(1<<15, func(i int) {
			for j := 0; j < 1<<16; j++ {
				o := uint32(i<<16 | j)
				words, err := mnemonikey.EncodeMnemonicPlaintext(s, o)
				if err == nil {
					var d *mnemonikey.DecodedMnemonic
					if d, err = mnemonikey.DecodeMnemonic(words); err == nil {
						got, e2 := d.Seed()
						if e2 != nil || d.CreationOffset() != o || got.Int().Cmp(want) != 0 {
							err = fmt.Errorf("decodes to offset %d, seed %v, %v", d.CreationOffset(), got, e2)
						}
					}
				}
				if err != nil {
					c.Bad(so{fewSeeds()[7], o}.String(), "%v", err)
				}
			}
			c.States(1 << 16)
			c.Steps(1 << 17)
		})
	}
}

func c01Case(x so) error {
	words, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(x.s), x.o)
	if err != nil {
		return fmt.Errorf("encoding refused: %v", err)
	}
	return c01Words(x, words)
}

func c01Words(x so, words []string) error {
	if len(words) != 14 {
		return fmt.Errorf("%d words: %v", len(words), words)
	}
	for _, w := range words {
		if _, ok := ref.WordIndex(w); !ok || w != strings.ToLower(w) {
			return fmt.Errorf("%q is not a lower-case wordlist word", w)
		}
	}
	d, err := mnemonikey.DecodeMnemonic(words)
	if err != nil {
		return fmt.Errorf("own phrase refused: %v (%v)", err, words)
	}
	return checkPlain(d, x)
}

func checkPlain(d *mnemonikey.DecodedMnemonic, x so) error {
	if d.Version != 0 || d.Encrypted() {
		return fmt.Errorf("version %d, encrypted %v", d.Version, d.Encrypted())
	}
	if d.CreationOffset() != x.o {
		return fmt.Errorf("offset %d, want %d", d.CreationOffset(), x.o)
	}
	if !d.Creation().Equal(creationTime(x.o)) {
		return fmt.Errorf("creation %v, want %v", d.Creation(), creationTime(x.o))
	}
	for _, f := range []func() (*mnemonikey.Seed, error){
		d.Seed,
		func() (*mnemonikey.Seed, error) { return d.DecryptSeed(nil) },
	} {
		s, err := f()
		if err != nil {
			return fmt.Errorf("seed: %v", err)
		}
		if err := checkSeed(s, x.s); err != nil {
			return err
		}
	}
	return nil
}

func checkSeed(s *mnemonikey.Seed, want ref.Seed16) error {
	if s == nil {
		return errors.New("nil seed without error")
	}
	if !bytes.Equal(s.Bytes(), want[:]) || s.Int().Cmp(want.Int()) != 0 || s.Era() != 0 {
		return fmt.Errorf("seed %x (int %x, era %d), want %x", s.Bytes(), s.Int(), s.Era(), want[:])
	}
	return nil
}

// ---- C02 ----

func c02(c *mc.Ctx) {
	one := func(x so) {
		c.Case()
		c.Try(x.String, func() error {
			want := ref.Phrase(ref.Fields{Seed: x.s, Offset: x.o})
			got, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(x.s), x.o)
			if err != nil {
				return err
			}
			if err := ref.SameWords(got, want); err != nil {
				return err
			}
			d, err := mnemonikey.DecodeMnemonic(want)
			if err != nil {
				return fmt.Errorf("decoding %v: %v", want, err)
			}
			return checkPlain(d, x)
		})
	}
	plainSpace(c, one)

	// Encrypted phrases.
	enc := func(s ref.Seed16, o, salt uint32, pw []byte) {
		id := func() string { return fmt.Sprintf("enc seed=%x offset=%d salt=%d pw=%q", s[:], o, salt, pw) }
		c.Case()
		c.Try(id, func() error {
			got, err := mnemonikey.EncodeMnemonicEncrypted(mustSeed(s), o, pw, saltSource(salt))
			if err != nil {
				return err
			}
			f, why := ref.Parse(got)
			if len(why) > 0 {
				return fmt.Errorf("not a valid phrase (%v): %v", why, got)
			}
			if err := ref.SameWords(got, ref.Phrase(ref.Encrypt(s, o, f.Salt, pw))); err != nil {
				return fmt.Errorf("with salt %d: %v", f.Salt, err)
			}
			// The other direction, with the salt of the enumeration.
			want := ref.Phrase(ref.Encrypt(s, o, salt, pw))
			d, err := mnemonikey.DecodeMnemonic(want)
			if err != nil {
				return fmt.Errorf("decoding %v: %v", want, err)
			}
			if d.Version != 1 || !d.Encrypted() || d.CreationOffset() != o || !d.Creation().Equal(creationTime(o)) {
				return fmt.Errorf("decodes to version %d, encrypted %v, offset %d, creation %v", d.Version, d.Encrypted(), d.CreationOffset(), d.Creation())
			}
			back, err := d.DecryptSeed(pw)
			if err != nil {
				return fmt.Errorf("decrypting %v: %v", want, err)
			}
			return checkSeed(back, s)
		})
	}
	c.Space("all 2^19 salts for one seed, offset and password")
	c.Parallel(1<<19>>8, func(i int) {
		for j := 0; j < 256; j++ {
			enc(fewSeeds()[4], 0x12345678, uint32(i<<8|j), []byte("hunter2"))
		}
	})
	seeds, offs := manySeeds(), manyOffsets()
	salts := []uint32{0, 1, 1 << 18, 1<<19 - 1, 0x15555, 0x2AAAA, 255, 256, 0x10000}
	c.Space("%d seeds x %d offsets x %d salts, encrypted", len(seeds), len(offs), len(salts))
	c.Parallel(len(seeds), func(i int) {
		for j, o := range offs {
			if c.Thorough {
				for _, salt := range salts {
					enc(seeds[i], o, salt, []byte("pässwörd"))
				}
			} else {
				enc(seeds[i], o, salts[(i+j)%len(salts)], []byte("pässwörd"))
			}
		}
	})
	c.Space("%d passwords x %d salts, encrypted", len(passwords()), len(salts))
	pws := passwords()
	c.Parallel(len(pws), func(i int) {
		for _, salt := range salts {
			enc(fewSeeds()[i%8], fewOffsets()[i%10], salt, pws[i])
		}
	})
}

// ---- C03 ----

func c03(c *mc.Ctx) {
	pws := passwords()
	salts := []uint32{0, 1, 1<<19 - 1, 1 << 18, 0x2AAAA}
	c.Space("%d passwords x %d seeds x 3 offsets x %d salts; each with the right password, every near miss of it and 256 one-byte passwords", len(pws), len(fewSeeds()), len(salts))
	c.Parallel(len(pws), func(i int) {
		for si, s := range fewSeeds() {
			for k := 0; k < 3; k++ {
				o := fewOffsets()[(i+si+4*k)%10]
				for _, salt := range salts {
					c03Case(c, s, o, salt, pws[i], si == 0 && k == 0)
				}
			}
		}
	})
	c.Space("all 2^19 salts")
	c.Parallel(1<<19>>10, func(i int) {
		for j := 0; j < 1<<10; j++ {
			c03Case(c, fewSeeds()[7], 1268800, uint32(i<<10|j), []byte("hunter2"), false)
		}
	})
	c.Space("%d seeds x %d offsets", len(manySeeds()), len(manyOffsets()))
	ms, mo := manySeeds(), manyOffsets()
	c.Parallel(len(ms), func(i int) {
		for j, o := range mo {
			c03Case(c, ms[i], o, uint32(i*7919+j*104729)&(1<<19-1), pws[(i+j)%70], false)
		}
	})
	// Every value of the check bits against every password of a list: the model says which open.
	c.Space("all 32 values of the password-check bits x 300 passwords x 4 phrases")
	c.Parallel(4*32, func(i int) {
		f := ref.Encrypt(fewSeeds()[i/32], fewOffsets()[i/32], uint32(i)*1237&(1<<19-1), []byte("abc"))
		f.Verify = byte(i % 32)
		words := ref.Phrase(f)
		for _, pw := range pws[:300] {
			c.Case()
			c.Try(func() string { return fmt.Sprintf("check bits %v pw=%q", words, pw) }, func() error {
				d, err := mnemonikey.DecodeMnemonic(words)
				if err != nil {
					return err
				}
				return c03Open(c, d, f, pw)
			})
		}
	})
	for _, pw := range [][]byte{nil, {}} {
		for _, s := range fewSeeds() {
			c.Case()
			c.Try(func() string { return fmt.Sprintf("empty password seed=%x nil=%v", s[:], pw == nil) }, func() error {
				w, err := mnemonikey.EncodeMnemonicEncrypted(mustSeed(s), 5, pw, saltSource(5))
				if err == nil || len(w) > 0 {
					return fmt.Errorf("empty password accepted: %v", w)
				}
				mnk, err := mnemonikey.New(mustSeed(s), creationTime(5), nil)
				if err != nil {
					return err
				}
				if w, err = mnk.EncodeMnemonicEncrypted(pw, saltSource(5)); err == nil || len(w) > 0 {
					return fmt.Errorf("empty password accepted by Mnemonikey: %v", w)
				}
				return nil
			})
		}
	}
}

// c03Open compares DecryptSeed with the model.
func c03Open(c *mc.Ctx, d *mnemonikey.DecodedMnemonic, f ref.Fields, pw []byte) error {
	want, ok := ref.Decrypt(f, pw)
	s, err := d.DecryptSeed(pw)
	c.Steps(1)
	c.Outcome(fmt.Sprintf("check bits match: %v", ok))
	if ok {
		if err != nil {
			return fmt.Errorf("password %q: check bits match but refused: %v", pw, err)
		}
		if err := checkSeed(s, want); err != nil {
			return fmt.Errorf("password %q: %v", pw, err)
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("wrong password %q accepted", pw)
	}
	if s != nil {
		return fmt.Errorf("wrong password %q: a seed is returned along with the error", pw)
	}
	if !errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
		return fmt.Errorf("wrong password %q: error is %v", pw, err)
	}
	return nil
}

func c03Case(c *mc.Ctx, s ref.Seed16, o, salt uint32, pw []byte, deep bool) {
	c.Case()
	c.Try(func() string { return fmt.Sprintf("seed=%x offset=%d salt=%d pw=%q", s[:], o, salt, pw) }, func() error {
		arg := append([]byte{}, pw...)
		words, err := mnemonikey.EncodeMnemonicEncrypted(mustSeed(s), o, arg, saltSource(salt))
		if err != nil {
			return err
		}
		if len(words) != 16 {
			return fmt.Errorf("%d words", len(words))
		}
		for _, w := range words {
			if _, ok := ref.WordIndex(w); !ok {
				return fmt.Errorf("%q is not in the wordlist", w)
			}
		}
		d, err := mnemonikey.DecodeMnemonic(words)
		if err != nil {
			return fmt.Errorf("own phrase refused: %v", err)
		}
		if !d.Encrypted() || d.CreationOffset() != o || !d.Creation().Equal(creationTime(o)) {
			return fmt.Errorf("without password: encrypted %v, offset %d, creation %v", d.Encrypted(), d.CreationOffset(), d.Creation())
		}
		locked := func() error {
			x, err := d.Seed()
			if err == nil || x != nil || !errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
				return fmt.Errorf("Seed() of a locked phrase gives %v, %v", x, err)
			}
			return nil
		}
		if err := locked(); err != nil {
			return err
		}
		right := func() error {
			x, err := d.DecryptSeed(pw)
			if err != nil {
				return fmt.Errorf("right password refused: %v", err)
			}
			return checkSeed(x, s)
		}
		if err := right(); err != nil {
			return err
		}
		if !deep {
			return right()
		}
		f, why := ref.Parse(words)
		if len(why) > 0 {
			return fmt.Errorf("invalid phrase %v: %v", words, why)
		}
		wrong := wrongFor(pw)
		for v := 0; v < 256; v++ {
			wrong = append(wrong, []byte{byte(v)})
		}
		for _, w := range wrong {
			if err := c03Open(c, d, f, w); err != nil {
				return err
			}
			if err := right(); err != nil {
				return fmt.Errorf("after trying %q: %v", w, err)
			}
		}
		if err := locked(); err != nil {
			return fmt.Errorf("after decryption: %v", err)
		}
		mnk, err := mnemonikey.RecoverPlaintext(words, nil)
		if err == nil || mnk != nil || !errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
			return fmt.Errorf("RecoverPlaintext of an encrypted phrase: %v, %v", mnk, err)
		}
		for _, w := range append(wrong[:8:8], pw) {
			want, ok := ref.Decrypt(f, w)
			mnk, err := mnemonikey.RecoverEncrypted(words, w, nil)
			if !ok {
				if err == nil || mnk != nil || !errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
					return fmt.Errorf("RecoverEncrypted with wrong password %q: %v", w, err)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("RecoverEncrypted with %q: %v", w, err)
			}
			plain, err := mnk.EncodeMnemonicPlaintext()
			if err != nil {
				return err
			}
			dd, err := mnemonikey.DecodeMnemonic(plain)
			if err != nil {
				return err
			}
			if err := checkPlain(dd, so{want, o}); err != nil {
				return fmt.Errorf("RecoverEncrypted with %q: %v", w, err)
			}
		}
		c.Outcome("deep")
		return nil
	})
}

// ---- C04 ----

func c04(c *mc.Ctx) {
	var bases [][]string
	for i, s := range fewSeeds() {
		o := fewOffsets()[i]
		bases = append(bases, ref.Phrase(ref.Fields{Seed: s, Offset: o}))
		bases = append(bases, ref.Phrase(ref.Encrypt(s, o, uint32(i)*77777&(1<<19-1), []byte("pw"))))
	}
	probe := func(words []string, all bool) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("%q", words) }, func() error { return c04Case(c, words, all) })
	}
	list := wordlist4096.WordList
	c.Space("%d valid phrases (both formats) with every word replaced by each of the 4096 words", len(bases))
	c.Parallel(len(bases)*16, func(i int) {
		b, p := bases[i/16], i%16
		if p >= len(b) {
			return
		}
		w := append([]string{}, b...)
		for _, x := range list {
			w[p] = x
			probe(w, false)
		}
	})
	c.Space("each phrase cut to every length 0..len, extended to every length up to 40 by repeating, rotating, every word dropped or doubled, every pair swapped")
	c.Parallel(len(bases), func(i int) {
		b := bases[i]
		for n := 0; n <= 40; n++ {
			var w, z []string
			for k := 0; k < n; k++ {
				w = append(w, b[k%len(b)])
				z = append(z, b[0])
			}
			probe(w, true)
			probe(z, true)
			if n <= len(b) {
				probe(b[n:], true)
				probe(append(append([]string{}, b[n:]...), b[:n]...), true)
			}
		}
		for p := range b {
			probe(append(append([]string{}, b[:p]...), b[p+1:]...), true)
			probe(append(append([]string{}, b[:p+1]...), b[p:]...), true)
			for q := 0; q < p; q++ {
				w := append([]string{}, b...)
				w[p], w[q] = w[q], w[p]
				probe(w, true)
			}
		}
		for _, o := range bases {
			for p := range b {
				if p < len(o) {
					probe(append(append([]string{}, b[:p]...), o[p:]...), true)
				}
			}
		}
	})
	junk := []string{"", " ", "\x00", "zzzzzz", "abandon1", "a", "ab", "0", "12", "-", "\t", "é", "密", "ZZZZ", "\xff\xfe",
		strings.Repeat("a", 10000), "word word"}
	for _, w := range []string{list[0], list[1], list[2048], list[4095], list[300]} {
		junk = append(junk, w+" ", " "+w, w+"\n", w+"s", w[:len(w)-1], w+w, w+"\x00", "-"+w, w+".")
	}
	c.Space("%d strings outside the wordlist at every position, alone and in pairs, with right and wrong word counts", len(junk))
	c.Parallel(len(bases), func(i int) {
		b := bases[i]
		for p := range b {
			for _, j := range junk {
				w := append([]string{}, b...)
				w[p] = j
				probe(w, true)
				w[(p+5)%len(b)] = "qqqq"
				probe(w, true)
				if p > 0 {
					probe(w[:p+1], true)
				}
				probe(append(w, b[0]), true)
				probe(append(w, b[0], b[1]), true)
			}
		}
		for _, j := range junk {
			probe([]string{j}, true)
			probe([]string{j, j}, true)
		}
	})
	c.Space("letter case: all-upper, title and every single letter in upper case, at every position; all 4096 words in three cases at one position")
	c.Parallel(len(bases), func(i int) {
		b := bases[i]
		up := make([]string, len(b))
		for p := range b {
			up[p] = strings.ToUpper(b[p])
			w := append([]string{}, b...)
			for k := range b[p] {
				w[p] = b[p][:k] + strings.ToUpper(b[p][k:k+1]) + b[p][k+1:]
				probe(w, true)
			}
			w[p] = up[p]
			probe(w, true)
		}
		probe(up, true)
		for _, x := range list {
			for _, y := range []string{x, strings.ToUpper(x), strings.ToUpper(x[:1]) + x[1:], x[:len(x)-1] + strings.ToUpper(x[len(x)-1:])} {
				w := append([]string{}, b...)
				w[3+i%9] = y
				probe(w, false)
			}
		}
	})
	c.Space("all 4096 first words x word counts 1..20")
	c.Parallel(4096, func(i int) {
		for n := 1; n <= 20; n++ {
			w := make([]string, n)
			for k := range w {
				w[k] = list[(i*k+k)%4096]
			}
			w[0] = list[i]
			probe(w, false)
		}
	})
	// Two whole words at once.
	base := bases[8]
	step := 8
	if c.Thorough {
		step = 1
	}
	c.Space("the last two words of a plaintext phrase: %d x 4096 values", 4096/step)
	c.Parallel(4096/step, func(i int) {
		w := append([]string{}, base...)
		w[12] = list[i*step]
		n := 0
		for _, x := range list {
			w[13] = x
			_, why := ref.Parse(w)
			_, err := mnemonikey.DecodeMnemonic(w)
			if e := judge(err, why); e != nil {
				c.Bad(fmt.Sprintf("%q", w), "%v", e)
			}
			if len(why) == 0 {
				n++
			}
		}
		c.States(4096)
		c.Steps(4096)
		if n != 128 {
			panic("model: the number of valid last words is not 128")
		}
	})
}

func c04Case(c *mc.Ctx, words []string, all bool) error {
	f, why := ref.Parse(words)
	arg := append([]string{}, words...)
	d, err := mnemonikey.DecodeMnemonic(arg)
	if e := judge(err, why); e != nil {
		return e
	}
	c.Outcome(classify(err))
	if err != nil {
		if d != nil {
			return fmt.Errorf("a decoded phrase is returned along with error %v", err)
		}
		if all {
			mnk, err := mnemonikey.RecoverPlaintext(arg, nil)
			if e := judge(err, why); e != nil || mnk != nil {
				return fmt.Errorf("RecoverPlaintext: %v, key %v", e, mnk != nil)
			}
			mnk, err = mnemonikey.RecoverEncrypted(arg, []byte("pw"), nil)
			if e := judge(err, why); e != nil || mnk != nil {
				return fmt.Errorf("RecoverEncrypted: %v, key %v", e, mnk != nil)
			}
		}
		return nil
	}
	if int(d.Version) != f.Version || d.CreationOffset() != f.Offset {
		return fmt.Errorf("decoded version %d offset %d, want %d %d", d.Version, d.CreationOffset(), f.Version, f.Offset)
	}
	if f.Version == 0 {
		s, err := d.Seed()
		if err != nil {
			return err
		}
		again, err := mnemonikey.EncodeMnemonicPlaintext(s, d.CreationOffset())
		if err != nil {
			return err
		}
		low := make([]string, len(words))
		for i := range words {
			low[i] = strings.ToLower(words[i])
		}
		if err := ref.SameWords(again, low); err != nil {
			return fmt.Errorf("accepted phrase re-encodes differently: %v", err)
		}
	}
	return nil
}
