package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	"verif/ref"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
)

// objs are the arguments of the calls of one goroutine; each kind of object is made only if a call needs it.
type objs struct {
	n     int
	seed  *mnemonikey.Seed
	opts  *mnemonikey.KeyOptions
	mnk   *mnemonikey.Mnemonikey
	plain []string
	enc   []string
	decP  *mnemonikey.DecodedMnemonic
	decE  *mnemonikey.DecodedMnemonic
	pw    []byte
	num   *big.Int
	idx   []uint16
	pgpObjs
	kseed []byte
	edges [][]string // encrypted phrases of the smallest and largest seeds and times
}

func seedOf(n int) (s ref.Seed16) {
	for i := range s {
		s[i] = byte(17*n + 29*i + 5)
	}
	return
}

func offsetOf(n int) uint32 { return uint32(1000003 * (n + 7)) }
func creationOf(n int) time.Time {
	return mnemonikey.EpochStart.Add(time.Duration(offsetOf(n)) * time.Second)
}

func refOpts(n int) ref.Opts {
	return ref.Opts{Name: fmt.Sprint("User ", n), Email: fmt.Sprintf("u%d@example.org", n), All: true, Enc: uint16(n), Auth: uint16(2 * n), Sig: uint16(3 * n), TTL: uint32(86400 * (n + 1))}
}

func newObjs(n int) *objs {
	s := seedOf(n)
	o := refOpts(n)
	return &objs{
		n:     n,
		pw:    []byte(strings.Repeat(fmt.Sprintf("password %d ", n), 20)),
		plain: ref.Phrase(ref.Fields{Seed: s, Offset: offsetOf(n)}),
		num:   new(big.Int).SetBytes(s[:]),
		kseed: bytes.Repeat([]byte{byte(n + 1), 7}, 16),
		opts: &mnemonikey.KeyOptions{
			Name: o.Name, Email: o.Email, TTL: time.Duration(o.TTL) * time.Second,
			EncryptionSubkeyIndex: o.Enc, AuthenticationSubkeyIndex: o.Auth, SigningSubkeyIndex: o.Sig,
		},
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (o *objs) needSeed() {
	if o.seed == nil {
		var err error
		o.seed, err = mnemonikey.NewSeed(0, new(big.Int).Set(o.num))
		must(err)
	}
}

func (o *objs) needKey() {
	if o.mnk == nil {
		o.needSeed()
		var err error
		o.mnk, err = mnemonikey.New(o.seed, creationOf(o.n), o.opts)
		must(err)
	}
}

func (o *objs) needEnc() {
	if o.enc == nil {
		o.enc = ref.Phrase(ref.Encrypt(seedOf(o.n), offsetOf(o.n), uint32(0x1234+o.n), o.pw))
	}
}

func (o *objs) needDec() {
	if o.decE == nil {
		o.needEnc()
		var err error
		o.decE, err = mnemonikey.DecodeMnemonic(o.enc)
		must(err)
		o.decP, err = mnemonikey.DecodeMnemonic(o.plain)
		must(err)
	}
}

func (o *objs) needEdges() {
	if o.edges == nil {
		var zero, ones ref.Seed16
		for i := range ones {
			ones[i] = 0xFF
		}
		o.edges = [][]string{
			ref.Phrase(ref.Encrypt(zero, 0, 0, o.pw)),
			ref.Phrase(ref.Encrypt(ones, ref.MaxOffset, 1<<20-1, o.pw)),
			ref.Phrase(ref.Fields{}),
			ref.Phrase(ref.Fields{Seed: ones, Offset: ref.MaxOffset}),
		}
	}
}

// failing gives a few bytes and then an error.
type failing struct{ left int }

func (f *failing) Read(p []byte) (int, error) {
	if f.left == 0 {
		return 0, errors.New("no more")
	}
	n := copy(p, make([]byte, f.left))
	f.left -= n
	return n, nil
}

// op is a call, with what it needs and how it is judged.
type op struct {
	name  string
	need  func(*objs)
	run   func(*objs) string
	heavy bool
	few   bool // meets fewer others
	// exact results are compared with those of the call alone; others carry the data, which is judged by itself.
	judge func(o *objs, got string) error
}

type counter struct{ b byte }

func (c *counter) Read(p []byte) (int, error) {
	for i := range p {
		c.b += 37
		p[i] = c.b
	}
	return len(p), nil
}

var _ io.Reader = (*counter)(nil)

func show(x any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	switch x := x.(type) {
	case []byte:
		return fmt.Sprintf("%x", x)
	case *big.Int:
		return x.String()
	case *mnemonikey.Seed:
		return fmt.Sprintf("seed %d %x %s", x.Era(), x.Bytes(), x.Int())
	}
	return fmt.Sprint(x)
}

func describe(m *mnemonikey.Mnemonikey, err error) string {
	if err != nil {
		return show(nil, err)
	}
	s := fmt.Sprintf("%x %v %v %q %v", m.Fingerprint(), m.CreatedAt().Unix(), m.Expiry().Unix(), m.UserID(), m.SubkeyTypes())
	for _, t := range m.SubkeyTypes() {
		s += fmt.Sprintf(" %x", m.SubkeyFingerprint(t))
	}
	return s
}

func sum(b []byte, err error) string {
	if err != nil {
		return show(nil, err)
	}
	return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
}

func exported(o *objs, got string, full bool) error {
	if strings.HasPrefix(got, "error") {
		return errors.New(got)
	}
	e := ref.Build(seedOf(o.n), uint32(ref.Epoch)+offsetOf(o.n), refOpts(o.n)).Expect()
	e.Stub, e.Cert = !full, true
	e.Password, e.Open = o.pw, true
	return ref.CheckExport([]byte(got), e).Issues.Not()
}

func ops() []*op {
	return append(pgpOps(), []*op{
		{name: "generate seed", run: func(o *objs) string {
			return show(mnemonikey.GenerateSeed(&counter{byte(o.n)}))
		}},
		{name: "new seed", run: func(o *objs) string { return show(mnemonikey.NewSeed(0, o.num)) }},
		{name: "seed values", need: (*objs).needSeed, run: func(o *objs) string { return show(o.seed, nil) }},
		{name: "new key", need: (*objs).needSeed, run: func(o *objs) string {
			return describe(mnemonikey.New(o.seed, creationOf(o.n), o.opts))
		}},
		{name: "new subset key", need: (*objs).needSeed, run: func(o *objs) string {
			return describe(mnemonikey.New(o.seed, creationOf(o.n), &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{mnemonikey.SubkeyTypeSigning}}))
		}},
		{name: "recover plain", run: func(o *objs) string { return describe(mnemonikey.RecoverPlaintext(o.plain, o.opts)) }},
		{name: "recover encrypted", need: (*objs).needEnc, run: func(o *objs) string {
			return describe(mnemonikey.RecoverEncrypted(o.enc, o.pw, o.opts))
		}},
		{name: "encode plain", need: (*objs).needSeed, run: func(o *objs) string {
			return show(mnemonikey.EncodeMnemonicPlaintext(o.seed, offsetOf(o.n)))
		}},
		{name: "encode encrypted", need: (*objs).needSeed, run: func(o *objs) string {
			return show(mnemonikey.EncodeMnemonicEncrypted(o.seed, offsetOf(o.n), o.pw, &counter{byte(o.n)}))
		}},
		{name: "decode", need: (*objs).needEnc, run: func(o *objs) string {
			s := ""
			for _, w := range [][]string{o.plain, o.enc} {
				d, err := mnemonikey.DecodeMnemonic(w)
				if err != nil {
					return show(nil, err)
				}
				s += fmt.Sprint(d.Version, d.Encrypted(), d.CreationOffset(), d.Creation().Unix(), ";")
			}
			return s
		}},
		{name: "decode bad", run: func(o *objs) string {
			q := append([]string{}, o.plain...)
			q[3], q[4] = q[4], q[3]
			_, err := mnemonikey.DecodeMnemonic(q)
			_, err2 := mnemonikey.DecodeMnemonic(q[:5])
			_, err3 := mnemonikey.ParseMnemonicVersion("nonsense")
			return fmt.Sprint(err, err2, err3)
		}},
		{name: "decrypt", need: (*objs).needDec, run: func(o *objs) string {
			return show(o.decE.DecryptSeed(o.pw)) + show(o.decP.DecryptSeed(nil)) + show(o.decP.Seed())
		}},
		{name: "decrypt wrongly", need: (*objs).needDec, run: func(o *objs) string {
			s := ""
			for _, p := range []string{"a", "b", "c"} {
				s += show(o.decE.DecryptSeed([]byte(p)))
			}
			return s
		}},
		{name: "version", run: func(o *objs) string {
			v, err := mnemonikey.ParseMnemonicVersion(o.plain[0])
			return fmt.Sprint(v, err, v.Encrypted(), v.Era(), v.MnemonicSize())
		}},
		{name: "key values", need: (*objs).needKey, run: func(o *objs) string { return describe(o.mnk, nil) }},
		{name: "key phrase", need: (*objs).needKey, run: func(o *objs) string {
			return show(o.mnk.EncodeMnemonicPlaintext()) + show(o.mnk.EncodeMnemonicEncrypted(o.pw, &counter{byte(o.n)}))
		}},
		{name: "export", need: (*objs).needKey, run: func(o *objs) string { return sum(o.mnk.EncodePGP(nil)) }},
		{name: "export armored", need: (*objs).needKey, run: func(o *objs) string {
			s, err := o.mnk.EncodePGPArmor(nil)
			return sum([]byte(s), err)
		}},
		{name: "export subkeys", need: (*objs).needKey, run: func(o *objs) string {
			return sum(o.mnk.EncodeSubkeysPGP(nil, true)) + sum(o.mnk.EncodeSubkeysPGP(nil, false))
		}},
		{name: "export protected", need: (*objs).needKey, heavy: true, run: func(o *objs) string {
			b, err := o.mnk.EncodePGP(o.pw)
			if err != nil {
				return show(nil, err)
			}
			return string(b)
		}, judge: func(o *objs, got string) error { return exported(o, got, true) }},
		{name: "export protected subkeys", need: (*objs).needKey, heavy: true, run: func(o *objs) string {
			b, err := o.mnk.EncodeSubkeysPGP(o.pw, true)
			if err != nil {
				return show(nil, err)
			}
			return string(b)
		}, judge: func(o *objs, got string) error { return exported(o, got, false) }},
		{name: "edges", few: true, need: (*objs).needEdges, run: func(o *objs) string {
			s := ""
			for i, w := range o.edges {
				d, err := mnemonikey.DecodeMnemonic(w)
				if err != nil {
					return show(nil, err)
				}
				s += show(d.DecryptSeed(o.pw)) + show(d.DecryptSeed(nil)) + show(d.Seed())
				if i < 2 {
					s += describe(mnemonikey.RecoverEncrypted(w, o.pw, nil))
				} else {
					s += describe(mnemonikey.RecoverPlaintext(w, &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{}}))
				}
			}
			for _, x := range []*big.Int{new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))} {
				seed, err := mnemonikey.NewSeed(0, x)
				if err != nil {
					return show(nil, err)
				}
				for _, off := range []uint32{0, ref.MaxOffset} {
					s += show(mnemonikey.EncodeMnemonicPlaintext(seed, off)) + show(mnemonikey.EncodeMnemonicEncrypted(seed, off, []byte{0}, &failing{1000}))
				}
				k, err := mnemonikey.New(seed, mnemonikey.EpochStart, nil)
				if err != nil {
					return show(nil, err)
				}
				s += sum(k.EncodePGP(nil)) + sum(k.EncodeSubkeysPGP(nil, false))
			}
			return s
		}},
		{name: "refusals", few: true, need: func(o *objs) { o.needEdges(); o.needSeed(); o.needDec() }, run: func(o *objs) string {
			s := ""
			for _, x := range []int64{-1, 0} {
				s += show(mnemonikey.NewSeed(1, big.NewInt(x))) + show(mnemonikey.NewSeed(0, new(big.Int).Lsh(big.NewInt(1-2*(-x)), 128)))
			}
			for i := 0; i < 16; i++ {
				s += show(mnemonikey.GenerateSeed(&failing{i}))
			}
			s += describe(mnemonikey.New(o.seed, mnemonikey.EpochStart.Add(-time.Second), nil))
			s += describe(mnemonikey.New(o.seed, mnemonikey.MaxCreationTime.Add(time.Hour), nil))
			s += describe(mnemonikey.New(o.seed, creationOf(0), &mnemonikey.KeyOptions{TTL: -1}))
			s += describe(mnemonikey.New(o.seed, creationOf(0), &mnemonikey.KeyOptions{TTL: 1 << 62}))
			s += describe(mnemonikey.New(o.seed, creationOf(0), &mnemonikey.KeyOptions{Subkeys: []mnemonikey.SubkeyType{"x"}}))
			s += show(mnemonikey.EncodeMnemonicPlaintext(o.seed, ref.MaxOffset+1)) + show(mnemonikey.EncodeMnemonicEncrypted(o.seed, ref.MaxOffset+1, o.pw, &failing{9}))
			s += show(mnemonikey.EncodeMnemonicEncrypted(o.seed, 0, nil, &failing{9}))
			for i := 0; i < 3; i++ {
				s += show(mnemonikey.EncodeMnemonicEncrypted(o.seed, 0, o.pw, &failing{i}))
			}
			for _, w := range [][]string{nil, o.plain[:13], o.enc[:15], o.enc[:14], append(append([]string{}, o.plain...), o.plain...), {"x"}} {
				_, err := mnemonikey.DecodeMnemonic(w)
				s += fmt.Sprint(err) + describe(mnemonikey.RecoverPlaintext(w, nil)) + describe(mnemonikey.RecoverEncrypted(w, o.pw, nil))
			}
			s += describe(mnemonikey.RecoverPlaintext(o.enc, nil)) + describe(mnemonikey.RecoverEncrypted(o.plain, o.pw, nil)) + describe(mnemonikey.RecoverEncrypted(o.enc, nil, nil))
			s += show(o.decE.DecryptSeed(nil)) + show(o.decE.DecryptSeed([]byte{})) + show(o.decE.Seed()) + show(o.decP.DecryptSeed(o.pw))
			return s
		}},
		{name: "words", run: func(o *objs) string {
			idx, err := mnemonic.EncodeToIndices(o.num, 132)
			if err != nil {
				return show(nil, err)
			}
			w, err := mnemonic.EncodeToWords(idx)
			if err != nil {
				return show(nil, err)
			}
			back, err := mnemonic.DecodeWords(w)
			if err != nil {
				return show(nil, err)
			}
			n, err := mnemonic.DecodeIndices(back)
			return fmt.Sprint(idx, w, back) + show(n, err)
		}},
		{name: "words refused", run: func(o *objs) string {
			_, err := mnemonic.DecodeWords([]string{"nope"})
			_, err2 := mnemonic.EncodeToWords([]uint16{5000})
			_, err3 := mnemonic.DecodeIndices([]uint16{4096})
			return fmt.Sprint(err, err2, err3)
		}},
	}...)
}
