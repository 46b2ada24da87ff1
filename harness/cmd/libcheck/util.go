package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
	"github.com/kklash/mnemonikey/mnemonic"
	"verif/ref"
)

// ---- alphabets ----

func seedInt(v *big.Int) (s ref.Seed16) {
	v.FillBytes(s[:])
	return
}

func seedHex(h string) (s ref.Seed16) {
	b, err := hex.DecodeString(h)
	if err != nil || len(b) != 16 {
		panic("bad seed " + h)
	}
	copy(s[:], b)
	return
}

// fewSeeds are boundary seeds.
func fewSeeds() []ref.Seed16 {
	return []ref.Seed16{
		seedHex("00000000000000000000000000000000"),
		seedHex("ffffffffffffffffffffffffffffffff"),
		seedHex("00000000000000000000000000000001"),
		seedHex("80000000000000000000000000000000"),
		seedHex("0102030405060708090a0b0c0d0e0f10"),
		seedHex("00ff00ff00ff00ff00ff00ff00ff00ff"),
		seedHex("000000000000000fedcba98765432100"),
		seedHex("a5a5a5a5a5a5a5a55a5a5a5a5a5a5a5a"),
	}
}

// manySeeds adds every single-bit seed, every low and high mask, every repeated byte.
func manySeeds() []ref.Seed16 {
	out := fewSeeds()
	one := big.NewInt(1)
	for k := 0; k < 128; k++ {
		b := new(big.Int).Lsh(one, uint(k))
		out = append(out, seedInt(b))
		m := new(big.Int).Sub(b, one)
		out = append(out, seedInt(m))
		all := new(big.Int).Sub(new(big.Int).Lsh(one, 128), one)
		out = append(out, seedInt(new(big.Int).Xor(all, m)))
		out = append(out, seedInt(new(big.Int).Xor(all, b)))
	}
	for v := 0; v < 256; v++ {
		var s ref.Seed16
		for i := range s {
			s[i] = byte(v)
		}
		out = append(out, s)
	}
	return uniqueSeeds(out)
}

func uniqueSeeds(in []ref.Seed16) []ref.Seed16 {
	seen := map[ref.Seed16]bool{}
	var out []ref.Seed16
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// numbered is an endless family of distinct, unstructured seeds.
func numbered(i int) (s ref.Seed16) {
	x := uint64(i)*0x9E3779B97F4A7C15 + 0x1234567
	for j := 0; j < 16; j++ {
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		s[j] = byte(x >> 56)
	}
	return
}

func fewOffsets() []uint32 {
	return []uint32{0, 1, 255, 256, 86399, 1268800, 0x12345678, 1 << 30, ref.MaxOffset - 1, ref.MaxOffset}
}

func manyOffsets() []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	add := func(v uint32) {
		if v <= ref.MaxOffset && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, v := range fewOffsets() {
		add(v)
	}
	for k := uint(0); k < 31; k++ {
		add(1 << k)
		add(1<<k - 1)
		add(1<<k + 1)
		add(ref.MaxOffset ^ 1<<k)
		add(ref.MaxOffset << k & ref.MaxOffset)
	}
	return out
}

// passwords is a list of passwords covering lengths, every byte value and near misses of each other.
func passwords() [][]byte {
	var out [][]byte
	for l := 1; l <= 70; l++ {
		p := make([]byte, l)
		for i := range p {
			p[i] = byte('a' + (i*7+l)%26)
		}
		out = append(out, p)
	}
	for _, l := range []int{71, 72, 73, 74, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 4096} {
		out = append(out, bytes.Repeat([]byte{'q'}, l-1))
		out = append(out, append(bytes.Repeat([]byte{'q'}, l-1), 'z'))
	}
	for v := 0; v < 256; v++ {
		out = append(out, []byte{byte(v)})
		out = append(out, []byte{'p', byte(v), 'w'})
	}
	for _, s := range []string{
		"pässwörd", "PÄSSWÖRD", "päßwörd", "pa\u0308sswo\u0308rd", "密码", "🔑🔑", "pass word", " pass word", "pass word ", "pass word\n",
		"pass word\r\n", "\x00", "\x00\x00", "abc\x00", "abc\x00def", "abc", "ABC", "aBc", "\xff\xfe", "correct horse battery staple",
	} {
		out = append(out, []byte(s))
	}
	seen := map[string]bool{}
	var u [][]byte
	for _, p := range out {
		if !seen[string(p)] {
			seen[string(p)] = true
			u = append(u, p)
		}
	}
	return u
}

func fewPasswords() [][]byte {
	return [][]byte{[]byte("x"), []byte("hunter2"), []byte("abc\x00def"), []byte("pässwörd 密码"), bytes.Repeat([]byte("0123456789"), 13)}
}

// wrongFor gives passwords near a password.
func wrongFor(p []byte) [][]byte {
	var out [][]byte
	add := func(b []byte) {
		if !bytes.Equal(b, p) {
			out = append(out, b)
		}
	}
	add(nil)
	add(append(append([]byte{}, p...), ' '))
	add(append(append([]byte{}, p...), '\n'))
	add(append(append([]byte{}, p...), 0))
	add(append([]byte{' '}, p...))
	add(p[:len(p)-1])
	add(p[1:])
	add(bytes.ToUpper(p))
	add(bytes.ToLower(p))
	add(append(append([]byte{}, p...), p...))
	for i := 0; i < len(p) && i < 80; i++ {
		q := append([]byte{}, p...)
		q[i] ^= 1
		add(q)
		q = append([]byte{}, p...)
		q[i] ^= 0x80
		add(q)
	}
	return out
}

// ---- sources of randomness ----

// fixedSource delivers given bytes and then fails.
type fixedSource struct {
	data  []byte
	chunk int // at most this many bytes per read; 0: as many as asked
	used  int
	err   error
	// withData: the error comes in the same call as the last bytes
	withData bool
	zeros    bool // return (0, nil) between reads
	flip     bool
}

var errSource = errors.New("source failed")

func (f *fixedSource) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.zeros {
		f.flip = !f.flip
		if f.flip {
			return 0, nil
		}
	}
	if f.used >= len(f.data) {
		return 0, f.err
	}
	n := len(p)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	n = copy(p[:n], f.data[f.used:])
	f.used += n
	if f.withData && f.used >= len(f.data) {
		return n, f.err
	}
	return n, nil
}

// saltSource makes the code under test draw the given salt (as rand.Int does it): callers never rely on
// that, they read the salt that was drawn back out of the phrase.
func saltSource(salt uint32) *fixedSource {
	d := make([]byte, 64)
	for i := range d {
		d[i] = byte(salt >> (8 * uint(2-i%3)))
	}
	return &fixedSource{data: d, err: errSource}
}

// ---- the code under test ----

func toSeed(s ref.Seed16) (*mnemonikey.Seed, error) { return mnemonikey.NewSeed(0, s.Int()) }

func mustSeed(s ref.Seed16) *mnemonikey.Seed {
	x, err := toSeed(s)
	if err != nil {
		panic(fmt.Sprintf("NewSeed(0, %x): %v", s, err))
	}
	return x
}

func creationTime(off uint32) time.Time { return time.Unix(ref.Epoch+int64(off), 0).UTC() }

func stamp(off uint32) uint32 { return uint32(ref.Epoch + int64(off)) }

func libOpts(o ref.Opts) *mnemonikey.KeyOptions {
	k := &mnemonikey.KeyOptions{
		Name: o.Name, Email: o.Email, TTL: time.Duration(o.TTL) * time.Second,
		EncryptionSubkeyIndex: o.Enc, AuthenticationSubkeyIndex: o.Auth, SigningSubkeyIndex: o.Sig,
	}
	if !o.All {
		k.Subkeys = []mnemonikey.SubkeyType{}
		for _, t := range o.Select {
			k.Subkeys = append(k.Subkeys, mnemonikey.SubkeyType(t))
		}
	}
	return k
}

func classify(err error) string {
	switch {
	case err == nil:
		return ref.OK
	case errors.Is(err, mnemonikey.ErrInvalidWordCount):
		return ref.BadCount
	case errors.Is(err, mnemonic.ErrInvalidWord):
		return ref.BadWord
	case errors.Is(err, mnemonikey.ErrInvalidVersionNumber):
		return ref.BadVersion
	case errors.Is(err, mnemonikey.ErrInvalidChecksum):
		return ref.BadChecksum
	}
	return "other: " + err.Error()
}

// judge compares an error with the model's verdict.
func judge(err error, why map[string]bool) error {
	got := classify(err)
	if len(why) == 0 {
		if got != ref.OK {
			return fmt.Errorf("valid phrase refused: %v", err)
		}
		return nil
	}
	if !why[got] {
		var w []string
		for k := range why {
			w = append(w, k)
		}
		return fmt.Errorf("invalid phrase (%s): got %s", strings.Join(w, " or "), got)
	}
	return nil
}

func subsets() [][]string {
	var out [][]string
	for m := 0; m < 8; m++ {
		s := []string{}
		for i, t := range ref.Types {
			if m>>uint(i)&1 == 1 {
				s = append(s, t)
			}
		}
		out = append(out, s)
	}
	return out
}

// selections are all subsets and "no selection".
func selections() []ref.Opts {
	out := []ref.Opts{{All: true}}
	for _, s := range subsets() {
		out = append(out, ref.Opts{Select: s})
	}
	return out
}

func show(o ref.Opts) string {
	sel := "all"
	if !o.All {
		sel = strings.Join(o.Select, "+")
	}
	n, e := o.Name, o.Email
	if len(n) > 20 {
		n = fmt.Sprintf("%s..%d", n[:20], len(n))
	}
	if len(e) > 20 {
		e = fmt.Sprintf("%s..%d", e[:20], len(e))
	}
	return fmt.Sprintf("name=%q email=%q ttl=%d idx=%d/%d/%d sel=%s", n, e, o.TTL, o.Enc, o.Auth, o.Sig, sel)
}
