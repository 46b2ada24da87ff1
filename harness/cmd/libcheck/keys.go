package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/kklash/mnemonikey"
)

func init() {
	checks["C05"] = c05
	checks["C06"] = c06
	checks["C07"] = c07
	checks["C08"] = c08
	checks["C09"] = c09
	checks["C10"] = c10
	checks["C11"] = c11
	checks["C12"] = c12
	checks["C17"] = c17
}

func build(seed ref.Seed16, off uint32, o ref.Opts) (*mnemonikey.Mnemonikey, error) {
	s, err := toSeed(seed)
	if err != nil {
		return nil, err
	}
	return mnemonikey.New(s, creationTime(off), libOpts(o))
}

// sameKeys compares reported fingerprints and subkey types with the model.
func sameKeys(mnk *mnemonikey.Mnemonikey, m *ref.Model) error {
	if got := mnk.Fingerprint(); !bytes.Equal(got, m.Master.Fpr()) {
		return fmt.Errorf("master fingerprint %X, want %X", got, m.Master.Fpr())
	}
	for _, t := range ref.Types {
		got := mnk.SubkeyFingerprint(mnemonikey.SubkeyType(t))
		var want []byte
		if k := m.Subs[t]; k != nil {
			want = k.Fpr()
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("%s subkey fingerprint %X, want %X", t, got, want)
		}
	}
	return nil
}

func sameTypes(mnk *mnemonikey.Mnemonikey, m *ref.Model) error {
	got := map[string]int{}
	for _, t := range mnk.SubkeyTypes() {
		got[string(t)]++
	}
	for t, n := range got {
		if n != 1 || m.Subs[t] == nil {
			return fmt.Errorf("subkey types %v, want %v", mnk.SubkeyTypes(), m.Opts)
		}
	}
	if len(got) != len(m.Subs) {
		return fmt.Errorf("subkey types %v, want %d of them", mnk.SubkeyTypes(), len(m.Subs))
	}
	return nil
}

// keyCats are the issue categories about key material.
var keyCats = []string{ref.CatParse, ref.CatMaster, ref.CatSubs, ref.CatSecret}

func c05(c *mc.Ctx) {
	keys := func(s ref.Seed16, off uint32, o ref.Opts) {
		c.Case()
		c.Try(func() string { return so{s, off}.String() + " " + show(o) }, func() error {
			mnk, err := build(s, off, o)
			if err != nil {
				return err
			}
			m := ref.Build(s, stamp(off), o)
			if err := sameKeys(mnk, m); err != nil {
				return err
			}
			out, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			return ref.CheckExport(out, m.Expect()).Issues.In(keyCats...)
		})
	}
	c.Space("all 65536 indices of all three subkey types")
	c.Parallel(65536, func(i int) {
		keys(fewSeeds()[4], 1268800, ref.Opts{All: true, Enc: uint16(i), Auth: uint16(i), Sig: uint16(i)})
	})
	seeds, offs := manySeeds(), manyOffsets()
	c.Space("%d boundary seeds x %d boundary creation offsets", len(seeds), len(offs))
	c.Parallel(len(seeds), func(i int) {
		for j, o := range offs {
			if !c.Thorough && (i+j)%4 != 0 && i > 8 {
				continue
			}
			keys(seeds[i], o, ref.Opts{All: true})
		}
	})
	n := 1 << 15
	if c.Thorough {
		n = 1 << 20
	}
	c.Space("%d numbered seeds with their own creation and indices", n)
	c.Parallel(n, func(i int) {
		s := numbered(i)
		k := uint32(i) * 2654435761
		keys(s, k&ref.MaxOffset, ref.Opts{All: true, Enc: uint16(k >> 3), Auth: uint16(k >> 5), Sig: uint16(k >> 7)})
	})
	// Nothing else matters.
	var others []ref.Opts
	for _, name := range []string{"", "anonymous", "Zoë <x>"} {
		for _, ttl := range []uint32{0, 1, 86400, 1<<32 - 1} {
			for _, sel := range selections() {
				o := sel
				o.Name, o.Email, o.TTL = name, strings.Repeat("e", len(name)), ttl
				others = append(others, o)
			}
		}
	}
	c.Space("%d combinations of the other options x %d seeds x 4 creation times: keys unchanged", len(others), len(fewSeeds()))
	c.Parallel(len(others), func(i int) {
		for k, s := range fewSeeds() {
			for j := 0; j < 4; j++ {
				keys(s, fewOffsets()[(k+j*3)%10], others[i])
			}
		}
	})
	// The time zone and the way the instant was obtained.
	zones := someZones()
	c.Space("%d time zones x %d creation times", len(zones), len(fewOffsets()))
	c.Parallel(len(zones), func(i int) {
		for _, off := range fewOffsets() {
			c.Case()
			c.Try(func() string { return fmt.Sprintf("zone %v offset %d", zones[i], off) }, func() error {
				mnk, err := mnemonikey.New(mustSeed(fewSeeds()[4]), creationTime(off).In(zones[i]), nil)
				if err != nil {
					return err
				}
				return sameKeys(mnk, ref.Build(fewSeeds()[4], stamp(off), ref.Opts{All: true}))
			})
		}
	})
	c05PGP(c)
	// The real Argon2, on fixed vectors, in a separate build.
	if p := os.Getenv("VERIF_REALCHECK"); p != "" && c.Wanted(func() string { return "real" }) {
		c.Space("fixed vectors with the real Argon2id")
		out, err := exec.Command(p).CombinedOutput()
		if x := new(exec.ExitError); errors.As(err, &x) && x.ExitCode() == 1 {
			c.Bad("real", "%s", out)
		} else if err != nil {
			c.Cap("vectors with the real Argon2id could not run: " + err.Error() + " " + string(out))
		} else {
			n := strings.Count(string(out), "vector ok")
			c.States(n)
			c.Steps(n)
			c.Outcome("real Argon2id vectors")
		}
	}
}

func someZones() []*time.Location {
	out := []*time.Location{time.UTC, time.Local}
	for _, s := range []int{14 * 3600, -12 * 3600, 5*3600 + 1800, 37, -1, 3600, -3600, 86399, -86399, 45 * 60, 20000} {
		out = append(out, time.FixedZone(fmt.Sprintf("z%d", s), s))
	}
	return out
}

// ---- C06 ----

func c06(c *mc.Ctx) {
	pws := [][]byte{[]byte("one"), []byte("twö ☃"), []byte("one ")}
	type step struct {
		pw   int // -1: plaintext
		salt uint32
	}
	steps := []step{{-1, 0}, {0, 0}, {0, 1<<19 - 1}, {1, 0x15555}, {2, 1}}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	options := []ref.Opts{
		{All: true}, {All: true, Name: "anonymous"}, {All: true, Name: "A", Email: "b@c", TTL: 86400, Enc: 1, Auth: 256, Sig: 65535},
		{Select: []string{}}, {Select: []string{"encryption"}, Enc: 7}, {Select: []string{"signing", "authentication"}, TTL: 1<<32 - 1},
	}
	starts := []so{}
	for i, s := range fewSeeds() {
		starts = append(starts, so{s, fewOffsets()[i]}, so{s, fewOffsets()[9-i]})
	}
	nstart := 8
	if c.Thorough {
		nstart = len(starts)
	}
	c.Space("all chains of up to %d conversions over %d kinds (plaintext; 3 passwords, 4 salts) from %d keys; after every step all phrases of the chain are decoded again; every distinct phrase is recovered with %d option sets", depth, len(steps), nstart, len(options))
	c.Parallel(nstart, func(i int) {
		x := starts[i]
		seedName := x.String()
		var originals [][]byte
		var subs [][]byte
		fail := mc.Safe(func() error {
			for _, o := range options {
				mnk, err := build(x.s, x.o, o)
				if err != nil {
					return err
				}
				d, err := mnk.EncodePGP(nil)
				if err != nil {
					return err
				}
				e, err := mnk.EncodeSubkeysPGP(nil, true)
				if err != nil {
					return err
				}
				originals, subs = append(originals, d), append(subs, e)
			}
			return nil
		})
		if fail != nil {
			c.Bad(seedName, "%v", fail)
			return
		}
		recovered := map[string]bool{}
		type held struct {
			words []string
			st    step
		}
		open := func(h held) (*mnemonikey.Seed, uint32, error) {
			d, err := mnemonikey.DecodeMnemonic(h.words)
			if err != nil {
				return nil, 0, err
			}
			var s *mnemonikey.Seed
			if h.st.pw < 0 {
				s, err = d.Seed()
			} else {
				s, err = d.DecryptSeed(pws[h.st.pw])
			}
			if err != nil {
				return nil, 0, err
			}
			if d.CreationOffset() != x.o || !d.Creation().Equal(creationTime(x.o)) {
				return nil, 0, fmt.Errorf("creation offset %d, want %d", d.CreationOffset(), x.o)
			}
			return s, d.CreationOffset(), checkSeed(s, x.s)
		}
		var walk func(chain []held, path string)
		walk = func(chain []held, path string) {
			if c.Stop() || c.Expired() {
				return
			}
			cur := chain[len(chain)-1]
			c.Steps(1)
			id := func() string { return seedName + " chain " + path }
			c.Try(id, func() error {
				for k, h := range chain {
					if _, _, err := open(h); err != nil {
						return fmt.Errorf("phrase %d of the chain: %v (%v)", k, err, h.words)
					}
				}
				key := strings.Join(cur.words, " ")
				if recovered[key] {
					return nil
				}
				recovered[key] = true
				c.States(1)
				c.Trace()
				for k, o := range options {
					var mnk *mnemonikey.Mnemonikey
					var err error
					if cur.st.pw < 0 {
						mnk, err = mnemonikey.RecoverPlaintext(cur.words, libOpts(o))
					} else {
						mnk, err = mnemonikey.RecoverEncrypted(cur.words, pws[cur.st.pw], libOpts(o))
					}
					if err != nil {
						return fmt.Errorf("recovery with %s: %v", show(o), err)
					}
					got, err := mnk.EncodePGP(nil)
					if err != nil {
						return err
					}
					sub, err := mnk.EncodeSubkeysPGP(nil, true)
					if err != nil {
						return err
					}
					if !bytes.Equal(got, originals[k]) || !bytes.Equal(sub, subs[k]) {
						return fmt.Errorf("recovery with %s gives another export", show(o))
					}
					if err := sameKeys(mnk, ref.Build(x.s, stamp(x.o), o)); err != nil {
						return err
					}
					if !mnk.CreatedAt().Equal(creationTime(x.o)) {
						return fmt.Errorf("created at %v", mnk.CreatedAt())
					}
				}
				return nil
			})
			if len(chain) > depth {
				return
			}
			for k, st := range steps {
				var next []string
				err := mc.Safe(func() error {
					s, off, err := open(cur)
					if err != nil {
						return err
					}
					if st.pw < 0 {
						next, err = mnemonikey.EncodeMnemonicPlaintext(s, off)
					} else {
						next, err = mnemonikey.EncodeMnemonicEncrypted(s, off, pws[st.pw], saltSource(st.salt))
					}
					return err
				})
				if err != nil {
					c.Bad(id(), "conversion %d: %v", k, err)
					return
				}
				walk(append(chain[:len(chain):len(chain)], held{next, st}), path+fmt.Sprint(k))
			}
		}
		first, err := mnemonikey.EncodeMnemonicPlaintext(mustSeed(x.s), x.o)
		if err != nil {
			c.Bad(seedName, "%v", err)
			return
		}
		walk([]held{{first, step{pw: -1}}}, "")
	})
	// Breadth: many keys, one chain each, full recovery.
	n := 6000
	if c.Thorough {
		n = 200000
	}
	c.Space("%d numbered keys: plaintext and encrypted recovery reproduce the export", n)
	c.Parallel(n, func(i int) {
		s, off := numbered(i), uint32(i)*2654435761&ref.MaxOffset
		o := options[i%len(options)]
		c.Case()
		c.Try(func() string { return "key " + so{s, off}.String() + " " + show(o) }, func() error {
			mnk, err := build(s, off, o)
			if err != nil {
				return err
			}
			want, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			pw := pws[i%3]
			p1, err := mnk.EncodeMnemonicPlaintext()
			if err != nil {
				return err
			}
			p2, err := mnk.EncodeMnemonicEncrypted(pw, saltSource(uint32(i)&(1<<19-1)))
			if err != nil {
				return err
			}
			k1, err := mnemonikey.RecoverPlaintext(p1, libOpts(o))
			if err != nil {
				return err
			}
			k2, err := mnemonikey.RecoverEncrypted(p2, pw, libOpts(o))
			if err != nil {
				return err
			}
			for _, k := range []*mnemonikey.Mnemonikey{k1, k2} {
				got, err := k.EncodePGP(nil)
				if err != nil {
					return err
				}
				if !bytes.Equal(got, want) {
					return errors.New("the recovered key exports differently")
				}
			}
			return nil
		})
	})
}

// ---- C07 ----

func c07(c *mc.Ctx) {
	idx := []uint16{0, 1, 255, 256, 65535}
	var lists [][]string
	var gen func(p []string, n int)
	gen = func(p []string, n int) {
		lists = append(lists, append([]string{}, p...))
		if n == 0 {
			return
		}
		for _, t := range ref.Types {
			gen(append(p, t), n-1)
		}
	}
	gen(nil, 4)
	var opts []ref.Opts
	for _, a := range idx {
		for _, b := range idx {
			for _, d := range idx {
				o := ref.Opts{Enc: a, Auth: b, Sig: d}
				o.All = true
				opts = append(opts, o)
				o.All = false
				for _, l := range lists {
					o.Select = l
					opts = append(opts, o)
				}
			}
		}
	}
	ns := 2
	if c.Thorough {
		ns = 8
	}
	c.Space("no selection and all %d selection lists of length 0..4 (any order, repeats) x %d index triples x %d seeds", len(lists), len(idx)*len(idx)*len(idx), ns)
	for si := 0; si < ns; si++ {
		s := fewSeeds()[(si*4+si/2)%8]
		off := fewOffsets()[si]
		full, err := orderOf(s, off)
		if err != nil {
			c.Bad("order "+so{s, off}.String(), "%v", err)
			return
		}
		root := ref.Root(s, stamp(off))
		c.Parallel(len(opts), func(i int) {
			c07Case(c, s, off, root, opts[i], full)
		})
	}
	// The relative order for many master keys.
	n := 512
	if c.Thorough {
		n = 1 << 16
	}
	c.Space("%d master keys x 9 selections: subkey order consistent with the full export", n)
	c.Parallel(n, func(i int) {
		s, off := numbered(i+5), uint32(i)*7777
		full, err := orderOf(s, off)
		if err != nil {
			c.Bad("order "+so{s, off}.String(), "%v", err)
			return
		}
		root := ref.Root(s, stamp(off))
		for _, o := range selections() {
			o.Enc, o.Auth, o.Sig = uint16(i), uint16(i*3), 9
			c07Case(c, s, off, root, o, full)
		}
		c.Outcome("order " + strings.Join(full, ","))
	})
	// No two (type, index) pairs share a key.
	c.Space("all 3 x 65536 (type, index) pairs of one seed give distinct keys")
	var mu sync.Mutex
	seen := map[string]string{}
	c.Parallel(65536, func(i int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("distinct index %d", i) }, func() error {
			mnk, err := build(fewSeeds()[4], 7, ref.Opts{All: true, Enc: uint16(i), Auth: uint16(i), Sig: uint16(i)})
			if err != nil {
				return err
			}
			mu.Lock()
			defer mu.Unlock()
			seen[string(mnk.Fingerprint())] = "master"
			for _, t := range ref.Types {
				f := string(mnk.SubkeyFingerprint(mnemonikey.SubkeyType(t)))
				if was, dup := seen[f]; dup {
					return fmt.Errorf("%s subkey %d has the same key as %s", t, i, was)
				}
				seen[f] = fmt.Sprintf("%s subkey %d", t, i)
			}
			return nil
		})
	})
}

func orderOf(s ref.Seed16, off uint32) (order []string, err error) {
	err = mc.Safe(func() error {
		o := ref.Opts{All: true}
		mnk, err := build(s, off, o)
		if err != nil {
			return err
		}
		out, err := mnk.EncodePGP(nil)
		if err != nil {
			return err
		}
		x := ref.CheckExport(out, ref.Build(s, stamp(off), o).Expect())
		order = x.Order
		return x.Issues.In(ref.CatParse, ref.CatSubs)
	})
	return
}

func c07Case(c *mc.Ctx, s ref.Seed16, off uint32, root []byte, o ref.Opts, full []string) {
	c.Case()
	c.Try(func() string { return so{s, off}.String() + " " + show(o) }, func() error {
		mnk, err := build(s, off, o)
		if err != nil {
			return err
		}
		m := ref.BuildRoot(s, stamp(off), root, o)
		if err := sameKeys(mnk, m); err != nil {
			return err
		}
		if err := sameTypes(mnk, m); err != nil {
			return err
		}
		out, err := mnk.EncodePGP(nil)
		if err != nil {
			return err
		}
		e := m.Expect()
		x := ref.CheckExport(out, e)
		if err := x.Issues.In(keyCats...); err != nil {
			return fmt.Errorf("full export: %v", err)
		}
		sub, err := mnk.EncodeSubkeysPGP(nil, true)
		if err != nil {
			return err
		}
		e.Stub = true
		y := ref.CheckExport(sub, e)
		if err := y.Issues.In(keyCats...); err != nil {
			return fmt.Errorf("subkeys export: %v", err)
		}
		var want []string
		for _, t := range full {
			if m.Subs[t] != nil {
				want = append(want, t)
			}
		}
		for _, got := range [][]string{x.Order, y.Order} {
			if strings.Join(got, ",") != strings.Join(want, ",") {
				return fmt.Errorf("subkey order %v, but the same master key with all subkeys orders them %v", got, full)
			}
		}
		return nil
	})
}

// ---- C08 ----

// structural are the categories C08 is about: everything except which keys, texts and lifetimes they are.
var structural = []string{ref.CatParse, ref.CatSecret, ref.CatSig, ref.CatDate, ref.CatFlags, ref.CatCert, ref.CatStub, ref.CatProtect}

func armored(text string, bin []byte) error {
	got, err := ref.Dearmor(text, ref.PrivateBlock)
	if err != nil {
		return err
	}
	if bin != nil && !bytes.Equal(got, bin) {
		return errors.New("the armored export holds other bytes than the binary export")
	}
	return nil
}

func c08(c *mc.Ctx) {
	one := func(s ref.Seed16, off uint32, o ref.Opts, armor bool) {
		c.Case()
		c.Try(func() string { return so{s, off}.String() + " " + show(o) }, func() error {
			mnk, err := build(s, off, o)
			if err != nil {
				return err
			}
			m := ref.Build(s, stamp(off), o)
			e := m.Expect()
			out, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			if err := ref.CheckExport(out, e).Issues.In(structural...); err != nil {
				return fmt.Errorf("EncodePGP: %v", err)
			}
			if !armor {
				return nil
			}
			a, err := mnk.EncodePGPArmor(nil)
			if err != nil {
				return err
			}
			if err := armored(a, out); err != nil {
				return fmt.Errorf("EncodePGPArmor: %v", err)
			}
			for _, cert := range []bool{true, false} {
				e := *e
				e.Stub, e.Cert = true, cert
				sub, err := mnk.EncodeSubkeysPGP(nil, cert)
				if err != nil {
					return err
				}
				if err := ref.CheckExport(sub, &e).Issues.In(structural...); err != nil {
					return fmt.Errorf("EncodeSubkeysPGP: %v", err)
				}
				a, err := mnk.EncodeSubkeysPGPArmor(nil, cert)
				if err != nil {
					return err
				}
				if err := armored(a, sub); err != nil {
					return fmt.Errorf("EncodeSubkeysPGPArmor: %v", err)
				}
			}
			return nil
		})
	}
	n := 1 << 16
	if c.Thorough {
		n = 1 << 21
	}
	c.Space("%d numbered keys with their own indices (secret and signature integers of every short length occur)", n)
	c.Parallel(n, func(i int) {
		one(numbered(i), uint32(i)*2654435761&ref.MaxOffset, ref.Opts{All: true, Name: "n", Enc: uint16(i), Auth: uint16(i * 5), Sig: uint16(i >> 3)}, i%16 == 0)
	})
	ids := [][2]string{{"", ""}, {"anonymous", ""}, {"", "a@b"}, {"Name", "a@b.c"}, {strings.Repeat("x", 191), ""}, {strings.Repeat("x", 192), ""},
		{strings.Repeat("y", 8383), ""}, {strings.Repeat("y", 8384), ""}, {strings.Repeat("z", 70000), "e"}, {"\x00\xff%s%d\n", "<>"}}
	ttls := []uint32{0, 1, 255, 256, 65536, 31536000, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	sels := selections()
	c.Space("%d user IDs x %d lifetimes x %d selections x %d seeds x creation times, binary and armored, full and subkeys-only", len(ids), len(ttls), len(sels), len(fewSeeds()))
	c.Parallel(len(ids)*len(ttls)*len(sels), func(i int) {
		o := sels[i%len(sels)]
		o.Name, o.Email = ids[i/len(sels)%len(ids)][0], ids[i/len(sels)%len(ids)][1]
		o.TTL = ttls[i/len(sels)/len(ids)]
		for k, s := range fewSeeds() {
			one(s, fewOffsets()[(i+k)%10], o, true)
		}
	})
	// Armor of every length modulo line and group sizes.
	c.Space("user IDs of every length 0..400: armor of every length modulo the line size")
	c.Parallel(401, func(i int) {
		one(numbered(i), 5, ref.Opts{All: true, Name: strings.Repeat("u", i)}, true)
	})
	c08PGP(c)
}

// ---- C09 ----

func c09(c *mc.Ctx) {
	type kase struct {
		s    ref.Seed16
		off  uint32
		o    ref.Opts
		pw   []byte
		open bool
		stub bool
	}
	var cases []kase
	pws := passwords()
	for i, p := range pws {
		// Every password decrypts one secret part; a selection of them all parts.
		if len(p) == 1 && p[0] >= 33 && p[0] < 126 && !c.Thorough {
			continue
		}
		if len(p) == 3 && p[1] >= 33 && p[1] < 126 && !c.Thorough {
			continue
		}
		cases = append(cases, kase{s: numbered(i), off: uint32(i), o: ref.Opts{Select: []string{}}, pw: p, open: true})
	}
	np := len(cases)
	nk := 300
	if c.Thorough {
		nk = 6000
	}
	for i := 0; i < nk; i++ {
		cases = append(cases, kase{s: numbered(1000 + i), off: uint32(i) * 1000, o: ref.Opts{Select: []string{ref.Types[i%3]}, Enc: uint16(i), Name: "k"}, pw: fewPasswords()[i%5], open: true, stub: i%2 == 0})
	}
	for _, o := range selections() {
		for _, stub := range []bool{false, true} {
			o.Name, o.TTL = "n", 1000
			cases = append(cases, kase{s: fewSeeds()[4], off: 17, o: o, pw: fewPasswords()[1], open: true, stub: stub})
		}
	}
	c.Space("%d passwords (lengths 1..4096, byte values, near misses); %d numbered keys and all selections, full and subkeys-only: decrypted with an independent S2K/CFB implementation", np, nk)
	var mu sync.Mutex
	salts, ivs := map[string]string{}, map[string]string{}
	c.Parallel(len(cases), func(i int) {
		k := cases[i]
		id := func() string {
			p := string(k.pw)
			if len(p) > 40 {
				p = fmt.Sprintf("%s..%d", p[:40], len(p))
			}
			return fmt.Sprintf("%v %s pw=%q stub=%v", so{k.s, k.off}, show(k.o), p, k.stub)
		}
		c.Case()
		c.Try(id, func() error {
			mnk, err := build(k.s, k.off, k.o)
			if err != nil {
				return err
			}
			m := ref.Build(k.s, stamp(k.off), k.o)
			enc := func(pw []byte) ([]byte, error) {
				if k.stub {
					return mnk.EncodeSubkeysPGP(pw, true)
				}
				return mnk.EncodePGP(pw)
			}
			clear, err := enc(nil)
			if err != nil {
				return err
			}
			arg := append([]byte{}, k.pw...)
			out, err := enc(arg)
			if err != nil {
				return err
			}
			e := m.Expect()
			e.Password, e.Open, e.Stub = k.pw, k.open, k.stub
			x := ref.CheckExport(out, e)
			if err := x.Issues.In(ref.CatParse, ref.CatProtect, ref.CatSecret); err != nil {
				return err
			}
			if err := nonSecretSame(clear, out); err != nil {
				return err
			}
			secrets := [][]byte{m.Master.Secret, m.Root, m.Seed[:]}
			for _, s := range m.Subs {
				secrets = append(secrets, s.Secret)
			}
			if m.Seed == fewSeeds()[0] {
				secrets = secrets[:1]
			}
			for _, s := range secrets {
				if ref.Leaks(out, s) {
					return errors.New("secret key bytes appear in clear in the protected export")
				}
			}
			mu.Lock()
			for _, s := range x.Salts {
				if was, dup := salts[s]; dup {
					mu.Unlock()
					return fmt.Errorf("salt %x used before by %s", s, was)
				}
				salts[s] = id()
			}
			for _, s := range x.IVs {
				if was, dup := ivs[s]; dup {
					mu.Unlock()
					return fmt.Errorf("IV %x used before by %s", s, was)
				}
				ivs[s] = id()
			}
			mu.Unlock()
			for _, empty := range [][]byte{{}} {
				again, err := enc(empty)
				if err != nil {
					return err
				}
				if !bytes.Equal(again, clear) {
					return errors.New("an empty password does not give the unprotected export")
				}
			}
			return nil
		})
	})
	// The armored forms, and another password must not open it.
	c.Space("armored protected exports; a protected part does not open under other passwords")
	c.Parallel(8, func(i int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("armored %d", i) }, func() error {
			pw := fewPasswords()[i%5]
			o := ref.Opts{Select: []string{ref.Types[i%3]}}
			if i > 5 {
				o = ref.Opts{Select: []string{}}
			}
			mnk, err := build(numbered(i), 5, o)
			if err != nil {
				return err
			}
			e := ref.Build(numbered(i), stamp(5), o).Expect()
			e.Password, e.Open, e.Stub = pw, true, i%2 == 0
			var a string
			if e.Stub {
				a, err = mnk.EncodeSubkeysPGPArmor(pw, true)
			} else {
				a, err = mnk.EncodePGPArmor(pw)
			}
			if err != nil {
				return err
			}
			out, err := ref.Dearmor(a, ref.PrivateBlock)
			if err != nil {
				return err
			}
			if err := ref.CheckExport(out, e).Issues.In(ref.CatParse, ref.CatProtect, ref.CatSecret); err != nil {
				return err
			}
			if i == 6 {
				return nil // a stub only
			}
			e.Password = append(append([]byte{}, pw...), ' ')
			if ref.CheckExport(out, e).Issues.In(ref.CatProtect) == nil {
				return errors.New("the export opens under another password")
			}
			return nil
		})
	})
	c09PGP(c)
}

// nonSecretSame compares everything but the secret parts of two exports.
func nonSecretSame(a, b []byte) error {
	x, err := ref.Public(a)
	if err != nil {
		return err
	}
	y, err := ref.Public(b)
	if err != nil {
		return err
	}
	if len(x) != len(y) {
		return fmt.Errorf("the protected export has %d packets, the unprotected %d", len(y), len(x))
	}
	for i := range x {
		if !bytes.Equal(x[i], y[i]) {
			return fmt.Errorf("packet %d differs between the protected and the unprotected export outside its secret part: %x and %x", i, y[i], x[i])
		}
	}
	return nil
}

// ---- C10 ----

func c10(c *mc.Ctx) {
	one := func(s ref.Seed16, off uint32, o ref.Opts, pw []byte) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("%v %s pw=%q", so{s, off}, show(o), pw) }, func() error {
			mnk, err := build(s, off, o)
			if err != nil {
				return err
			}
			m := ref.Build(s, stamp(off), o)
			full, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			fp, err := ref.Packets(full)
			if err != nil {
				return err
			}
			for _, cert := range []bool{true, false} {
				out, err := mnk.EncodeSubkeysPGP(pw, cert)
				if err != nil {
					return err
				}
				text, err := mnk.EncodeSubkeysPGPArmor(pw, cert)
				if err != nil {
					return err
				}
				bin, err := ref.Dearmor(text, ref.PrivateBlock)
				if err != nil {
					return err
				}
				for form, data := range map[string][]byte{"binary": out, "armored": bin} {
					e := m.Expect()
					e.Stub, e.Cert, e.Password = true, cert, pw
					x := ref.CheckExport(data, e)
					if err := x.Issues.In(ref.CatStub, ref.CatMaster, ref.CatCert, ref.CatSubs, ref.CatParse); err != nil {
						return fmt.Errorf("%s export, cert=%v: %v", form, cert, err)
					}
					secrets := [][]byte{m.Master.Secret, m.Root}
					if s != fewSeeds()[0] && s != fewSeeds()[1] && s != fewSeeds()[2] && s != fewSeeds()[3] && s != fewSeeds()[5] && s != fewSeeds()[6] && s != fewSeeds()[7] {
						secrets = append(secrets, s[:])
					}
					secrets = append(secrets, ref.Scalar(m.Master.Secret))
					for _, x := range secrets {
						if ref.Leaks(data, x) {
							return fmt.Errorf("%s export: bytes of the master secret occur in it", form)
						}
					}
					if strings.Contains(strings.ToLower(text), hex.EncodeToString(m.Master.Secret)) {
						return errors.New("the master secret occurs in the armored text")
					}
					// Subkeys and bindings are those of the full export.
					p, err := ref.Packets(data)
					if err != nil {
						return err
					}
					skip := 2
					if cert {
						skip = 3
						if !bytes.Equal(p[2].Raw, fp[2].Raw) {
							return errors.New("the self-certification differs from that of the full export")
						}
					}
					if len(p)-skip != len(fp)-3 {
						return fmt.Errorf("%d packets after the certification, the full export has %d", len(p)-skip, len(fp)-3)
					}
					for k := range p[skip:] {
						a, b := p[skip+k], fp[3+k]
						if len(pw) == 0 || a.Tag == 2 {
							if a.Tag != b.Tag || !bytes.Equal(a.Body, b.Body) {
								return fmt.Errorf("packet %d differs from that of the full export", skip+k)
							}
						}
					}
				}
			}
			return nil
		})
	}
	n := 1 << 13
	if c.Thorough {
		n = 1 << 18
	}
	c.Space("%d numbered keys; all selections x lifetimes x user IDs x %d seeds, with and without self-certification, binary and armored", n, len(fewSeeds()))
	c.Parallel(n, func(i int) {
		o := selections()[i%9]
		o.Enc, o.Sig, o.Name = uint16(i), uint16(i>>2), "someone"
		one(numbered(i), uint32(i)*99991&ref.MaxOffset, o, nil)
	})
	var opts []ref.Opts
	for _, sel := range selections() {
		for _, ttl := range []uint32{0, 1, 1<<32 - 1} {
			for _, id := range [][2]string{{"", ""}, {"n", "e"}, {strings.Repeat("l", 300), ""}} {
				o := sel
				o.TTL, o.Name, o.Email = ttl, id[0], id[1]
				opts = append(opts, o)
			}
		}
	}
	c.Parallel(len(opts), func(i int) {
		for k, s := range fewSeeds() {
			one(s, fewOffsets()[k], opts[i], nil)
		}
	})
	c.Space("all selections x passwords %d", len(fewPasswords()))
	c.Parallel(9*len(fewPasswords()), func(i int) {
		one(numbered(i), 11, selections()[i%9], fewPasswords()[i/9])
	})
}

// ---- C11 ----

func c11(c *mc.Ctx) {
	one := func(off uint32, nanos int, ttl time.Duration, o ref.Opts) {
		c.Case()
		id := func() string {
			return fmt.Sprintf("offset=%d+%dns ttl=%v (%d ns) %s", off, nanos, ttl, int64(ttl), show(o))
		}
		c.Try(id, func() error {
			k := libOpts(o)
			k.TTL = ttl
			mnk, err := mnemonikey.New(mustSeed(fewSeeds()[4]), creationTime(off).Add(time.Duration(nanos)), k)
			secs := int64(ttl / time.Second)
			if ttl < 0 || (ttl > 0 && ttl < time.Second) || secs > 1<<32-1 {
				if err == nil || mnk != nil {
					what := "none"
					if mnk != nil {
						what = mnk.Expiry().String()
					}
					return fmt.Errorf("a lifetime that cannot be stated was accepted (expiry %s)", what)
				}
				c.Outcome("refused")
				return nil
			}
			if err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			exp := mnk.Expiry()
			if ttl == 0 {
				if !exp.IsZero() {
					return fmt.Errorf("no lifetime, but expiry %v", exp)
				}
			} else if !exp.Equal(creationTime(off).Add(time.Duration(secs) * time.Second)) {
				return fmt.Errorf("expiry %v, want %v", exp, creationTime(off).Add(time.Duration(secs)*time.Second))
			}
			oo := o
			oo.TTL = uint32(secs)
			e := ref.Build(fewSeeds()[4], stamp(off), oo).Expect()
			out, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			if err := ref.CheckExport(out, e).Issues.In(ref.CatExpiry, ref.CatParse, ref.CatCert); err != nil {
				return err
			}
			e.Stub = true
			if out, err = mnk.EncodeSubkeysPGP(nil, true); err != nil {
				return err
			}
			c.Outcome("honoured")
			return ref.CheckExport(out, e).Issues.In(ref.CatExpiry, ref.CatParse, ref.CatCert)
		})
	}
	all := ref.Opts{All: true}
	n := 20000
	if c.Thorough {
		n = 1 << 20
	}
	c.Space("lifetimes 0..%d seconds", n)
	c.Parallel(n, func(i int) { one(1268800, 0, time.Duration(i)*time.Second, all) })
	var ttls []time.Duration
	for k := uint(0); k < 63; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := int64(1)<<k + d
			ttls = append(ttls, time.Duration(v), -time.Duration(v))
			if k < 34 {
				ttls = append(ttls, time.Duration(v)*time.Second, time.Duration(v)*time.Second+1, time.Duration(v)*time.Second-1, time.Duration(v)*time.Second+500*time.Millisecond)
			}
		}
	}
	for _, day := range []int64{1, 7, 28, 30, 31, 365, 366, 730, 3650, 36500, 49710, 49711} {
		ttls = append(ttls, time.Duration(day)*24*time.Hour)
	}
	ttls = append(ttls, time.Duration(1<<63-1), -time.Duration(1<<63-1)-1)
	offs := fewOffsets()
	c.Space("%d boundary lifetimes (powers of two of nanoseconds and seconds, +-1, negative) x %d creation times x sub-second parts", len(ttls), len(offs))
	c.Parallel(len(ttls), func(i int) {
		for _, off := range offs {
			for _, ns := range []int{0, 1, 500000000, 999999999} {
				if off == ref.MaxOffset && ns > 0 {
					continue
				}
				one(off, ns, ttls[i], all)
			}
		}
	})
	idx := []uint16{0, 1, 300, 65535}
	names := [][2]string{{"", ""}, {"Bob", ""}, {"", "b@x"}, {"Bob", "b@x"}}
	c.Space("all triples of the subkey indices %v x 9 selections x 4 user IDs x 3 lifetimes", idx)
	c.Parallel(len(idx)*len(idx)*len(idx)*9, func(i int) {
		for _, n := range names {
			o := selections()[i%9]
			o.Enc, o.Auth, o.Sig = idx[i/9%4], idx[i/36%4], idx[i/144]
			o.Name, o.Email = n[0], n[1]
			for _, t := range []time.Duration{0, 1e9, 31536000e9} {
				one(uint32(1000+i), i%2*999999999, t, o)
			}
		}
	})
	c.Space("9 selections x 6 lifetimes x 10 creation times")
	c.Parallel(9, func(i int) {
		for _, t := range []time.Duration{0, 1, 1e9, 86400e9, (1<<32 - 1) * 1e9, (1 << 32) * 1e9} {
			for _, off := range offs {
				one(off, 0, t, selections()[i])
			}
		}
	})
}

// ---- C12 ----

func c12(c *mc.Ctx) {
	seed := fewSeeds()[4]
	max := creationTime(ref.MaxOffset)
	one := func(label string, t time.Time, export bool) {
		c.Case()
		c.Try(func() string { return label }, func() error {
			mnk, err := mnemonikey.New(mustSeed(seed), t, nil)
			u := t.Unix() - ref.Epoch
			switch {
			case u < 0:
				c.Outcome("too early")
				if err == nil || mnk != nil || !errors.Is(err, mnemonikey.ErrCreationTooEarly) {
					return fmt.Errorf("before the epoch: %v", err)
				}
				if strings.Contains(err.Error(), mnemonikey.ErrCreationTooLate.Error()) {
					return fmt.Errorf("before the epoch, but the error reads as that for a late time: %v", err)
				}
				return nil
			case u > ref.MaxOffset:
				c.Outcome("too late")
				if err == nil || mnk != nil || !errors.Is(err, mnemonikey.ErrCreationTooLate) {
					return fmt.Errorf("after the last second: %v", err)
				}
				if strings.Contains(err.Error(), mnemonikey.ErrCreationTooEarly.Error()) {
					return fmt.Errorf("after the last second, but the error reads as that for an early time: %v", err)
				}
				return nil
			case u == ref.MaxOffset && t.Nanosecond() > 0:
				return nil // within the last second: the statement leaves it open
			}
			if err != nil {
				return fmt.Errorf("refused: %v", err)
			}
			c.Outcome("accepted")
			off := uint32(u)
			if got := mnk.CreatedAt(); !got.Equal(creationTime(off)) || got.Nanosecond() != 0 {
				return fmt.Errorf("created at %v, want %v", got, creationTime(off))
			}
			m := ref.Build(seed, stamp(off), ref.Opts{All: true})
			if err := sameKeys(mnk, m); err != nil {
				return err
			}
			words, err := mnk.EncodeMnemonicPlaintext()
			if err != nil {
				return err
			}
			f, why := ref.Parse(words)
			if len(why) > 0 || f.Offset != off {
				return fmt.Errorf("phrase has offset %d, want %d (%v)", f.Offset, off, why)
			}
			if words, err = mnk.EncodeMnemonicEncrypted([]byte("p"), saltSource(1)); err != nil {
				return err
			}
			if f, why = ref.Parse(words); len(why) > 0 || f.Offset != off {
				return fmt.Errorf("encrypted phrase has offset %d, want %d (%v)", f.Offset, off, why)
			}
			if !export {
				return nil
			}
			out, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			return ref.CheckExport(out, m.Expect()).Issues.In(ref.CatParse, ref.CatDate, ref.CatMaster, ref.CatSubs)
		})
	}
	nanos := []int{0, 1, 999, 1000, 499999999, 500000000, 500000001, 999999000, 999999999}
	zones := someZones()
	var secs []int64
	for _, o := range manyOffsets() {
		secs = append(secs, int64(o))
	}
	for _, v := range []int64{-1, -2, -60, -3600, -86400, -31536000, -1 << 31, -1 << 33, -ref.Epoch, -ref.Epoch - 1, -62135596800 - ref.Epoch,
		ref.MaxOffset + 1, ref.MaxOffset + 2, ref.MaxOffset + 86400, 1 << 32, 1<<32 - ref.Epoch, 1 << 33, 1 << 34, 1 << 37, 253402300799 - ref.Epoch, 292 * 365 * 86400, 293 * 366 * 86400} {
		secs = append(secs, v)
	}
	c.Space("%d seconds (boundaries of the window, of 31/32/33-bit counts, years 1..9999) x %d sub-second parts x %d time zones", len(secs), len(nanos), len(zones))
	c.Parallel(len(secs), func(i int) {
		for _, n := range nanos {
			for _, z := range zones {
				t := time.Unix(ref.Epoch+secs[i], int64(n)).In(z)
				one(fmt.Sprintf("offset=%d ns=%d zone=%v", secs[i], n, z), t, z == time.UTC)
			}
		}
	})
	n := 1 << 14
	if c.Thorough {
		n = 1 << 19
	}
	c.Space("the first and last %d seconds, and %d seconds with sub-second parts spread over the window", n, n)
	c.Parallel(n, func(i int) {
		one(fmt.Sprintf("first %d", i), creationTime(uint32(i)).Add(time.Duration(i*60961%1000000000)), false)
		one(fmt.Sprintf("last %d", i), max.Add(-time.Duration(i)*time.Second), false)
		one(fmt.Sprintf("spread %d", i), creationTime(uint32(i)*131071&ref.MaxOffset).Add(-time.Duration(i)*61), i%8 == 0)
	})
	// Clock readings that carry a monotonic part.
	now := time.Now()
	c.Space("clock readings with a monotonic part, shifted to both ends of the window")
	for _, d := range []time.Duration{0, 1, -1, time.Second, 1500 * time.Millisecond, -time.Hour, 1000 * time.Hour, 100000 * time.Hour} {
		one(fmt.Sprintf("now%+d", d), now.Add(d), true)
	}
	for i := -3; i <= 3; i++ {
		one(fmt.Sprintf("monotonic epoch%+ds", i), now.Add(creationTime(0).Sub(now)).Add(time.Duration(i)*time.Second), true)
		one(fmt.Sprintf("monotonic max%+ds", i), now.Add(max.Sub(now)).Add(time.Duration(i)*time.Second), true)
	}
	one("zero time", time.Time{}, true)
}

// ---- C17 ----

func c17(c *mc.Ctx) {
	seed, off := fewSeeds()[4], uint32(1268800)
	base, err := build(seed, off, ref.Opts{All: true, Name: "reference"})
	if err != nil {
		c.Bad("reference", "%v", err)
		return
	}
	baseOut, err := base.EncodePGP(nil)
	if err != nil {
		c.Bad("reference", "%v", err)
		return
	}
	model := ref.Build(seed, stamp(off), ref.Opts{All: true, Name: "reference"})
	baseX := ref.CheckExport(baseOut, model.Expect())
	phrase, err := base.EncodeMnemonicPlaintext()
	if err != nil {
		c.Bad("reference", "%v", err)
		return
	}
	one := func(label string, name, email string) {
		c.Case()
		c.Try(func() string { return label }, func() error {
			o := ref.Opts{All: true, Name: name, Email: email}
			mnk, err := build(seed, off, o)
			if err != nil {
				return err
			}
			want := ref.UID(name, email)
			if mnk.UserID() != want {
				return fmt.Errorf("UserID() is %q, want %q", cut(mnk.UserID()), cut(want))
			}
			if err := sameKeys(mnk, model); err != nil {
				return err
			}
			w, err := mnk.EncodeMnemonicPlaintext()
			if err != nil {
				return err
			}
			if err := ref.SameWords(w, phrase); err != nil {
				return err
			}
			out, err := mnk.EncodePGP(nil)
			if err != nil {
				return err
			}
			e := model.Expect()
			e.UID = want
			x := ref.CheckExport(out, e)
			if err := x.Issues.In(ref.CatUID, ref.CatSig, ref.CatParse, ref.CatMaster, ref.CatSubs, ref.CatCert); err != nil {
				return err
			}
			for _, t := range ref.Types {
				if !bytes.Equal(x.Bind[t], baseX.Bind[t]) {
					return fmt.Errorf("the %s binding depends on the user ID", t)
				}
			}
			sub, err := mnk.EncodeSubkeysPGP(nil, true)
			if err != nil {
				return err
			}
			e.Stub = true
			return ref.CheckExport(sub, e).Issues.In(ref.CatUID, ref.CatSig, ref.CatParse)
		})
	}
	n := 9000
	if c.Thorough {
		n = 70000
	}
	text := strings.Repeat("The quick brown fox @ example <org> ", n/30)
	c.Space("names, emails and both, of every total length 0..%d", n)
	c.Parallel(n+1, func(i int) {
		one(fmt.Sprintf("name of %d bytes", i), text[:i], "")
		if i <= 1000 || c.Thorough {
			one(fmt.Sprintf("email of %d bytes", i), "", text[:i])
			one(fmt.Sprintf("both of %d bytes", i), text[:i/2], text[i/2:i])
		}
	})
	one("100000 bytes", strings.Repeat("N", 100000), strings.Repeat("e", 100000))
	var odd []string
	for v := 0; v < 256; v++ {
		odd = append(odd, string([]byte{byte(v)}), "a"+string([]byte{byte(v)})+"b")
	}
	odd = append(odd, "", " ", "  ", " a", "a ", "\t", "a <b>", "<a>", "a > b", "a <", "%s", "%d%n", "%!s(MISSING)", "%%", "Zoë", "密码", "\u200b", "\u202e", "a\u0308",
		"ﬁ", "🔑", "\xc3\x28", "\xed\xa0\x80", "NUL\x00in", "line\nbreak", "line\r\n", "\"quoted\"", "a\\b", "()", "a,b", "a;b")
	short := odd[len(odd)-31:]
	c.Space("%d one- and three-byte texts with every byte value as name and as email; %d x %d awkward texts as pairs", 512, len(short), len(short))
	c.Parallel(len(odd), func(i int) {
		one(fmt.Sprintf("name %q", odd[i]), odd[i], "")
		one(fmt.Sprintf("email %q", odd[i]), "", odd[i])
		one(fmt.Sprintf("name %q with email", odd[i]), odd[i], "e@x")
		for _, y := range short {
			one(fmt.Sprintf("%q and %q", odd[i], y), odd[i], y)
		}
	})
	// On other keys and selections.
	c.Space("user IDs on %d seeds x 9 selections", len(fewSeeds()))
	c.Parallel(9, func(i int) {
		for k, s := range fewSeeds() {
			for _, id := range [][2]string{{"", ""}, {"a", ""}, {"", "b"}, {"a", "b"}, {short[3], short[12]}} {
				c.Case()
				o := selections()[i]
				o.Name, o.Email = id[0], id[1]
				c.Try(func() string { return so{s, uint32(k)}.String() + " " + show(o) }, func() error {
					mnk, err := build(s, uint32(k), o)
					if err != nil {
						return err
					}
					out, err := mnk.EncodePGP(nil)
					if err != nil {
						return err
					}
					return ref.CheckExport(out, ref.Build(s, stamp(uint32(k)), o).Expect()).Issues.In(ref.CatUID, ref.CatSig)
				})
			}
		}
	})
}

func cut(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s..%d", s[:60], len(s))
	}
	return s
}
