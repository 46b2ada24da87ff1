// Package ref is the reference model: the published Mnemonikey specification (README.md) and the parts
// of OpenPGP it uses, written as plainly as possible and independently of the code under test.
package ref

import (
	"crypto/aes"
	"fmt"
	"hash/crc32"
	"math/big"
	"strings"

	"github.com/kklash/wordlist4096"
	"golang.org/x/crypto/argon2"
)

// Epoch is 2023-01-01T00:00:00Z.
const Epoch int64 = 1672531200

// MaxOffset is the largest creation offset.
const MaxOffset = 1<<31 - 1

// Seed16 is a seed as its 16 big-endian bytes.
type Seed16 [16]byte

// Int gives the seed as an integer.
func (s Seed16) Int() *big.Int { return new(big.Int).SetBytes(s[:]) }

// Fields are the contents of a phrase.
type Fields struct {
	Version int
	Seed    Seed16 // plaintext or encrypted
	Salt    uint32 // version 1
	Verify  byte   // version 1
	Offset  uint32
}

// bits is a string of '0' and '1': slow and obvious.
type bits []byte

func (b bits) add(v uint64, n int) bits {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>uint(i)&1))
	}
	return b
}

func (b bits) bytes() []byte {
	pad := (8 - len(b)%8) % 8
	full := append(make(bits, pad), b...)
	out := make([]byte, len(full)/8)
	for i, x := range full {
		out[i/8] |= x << uint(7-i%8)
	}
	return out
}

func (b bits) num() uint64 {
	var v uint64
	for _, x := range b {
		v = v<<1 | uint64(x)
	}
	return v
}

// Indices lays the fields out as 12-bit word indices.
func Indices(f Fields) []uint16 {
	var b bits
	b = b.add(uint64(f.Version), 4)
	for _, x := range f.Seed {
		b = b.add(uint64(x), 8)
	}
	if f.Version == 1 {
		b = b.add(uint64(f.Salt), 19)
		b = b.add(uint64(f.Verify), 5)
	}
	b = b.add(uint64(f.Offset), 31)
	b = b.add(uint64(crc32.ChecksumIEEE(b.bytes())&0x1F), 5)
	out := make([]uint16, len(b)/12)
	for i := range out {
		out[i] = uint16(b[i*12 : i*12+12].num())
	}
	return out
}

// FixChecksum sets the 5 checksum bits at the end of a list of indices.
func FixChecksum(idx []uint16) {
	var b bits
	for _, x := range idx {
		b = b.add(uint64(x), 12)
	}
	b = b[:len(b)-5]
	idx[len(idx)-1] = idx[len(idx)-1]&^0x1F | uint16(crc32.ChecksumIEEE(b.bytes())&0x1F)
}

// Words maps indices to words.
func Words(idx []uint16) []string {
	out := make([]string, len(idx))
	for i, x := range idx {
		out[i] = wordlist4096.WordList[x]
	}
	return out
}

// Phrase gives the words for the fields.
func Phrase(f Fields) []string { return Words(Indices(f)) }

var wordIndex = func() map[string]uint16 {
	m := map[string]uint16{}
	for i, w := range wordlist4096.WordList {
		m[w] = uint16(i)
	}
	return m
}()

// WordIndex looks a word up, ignoring letter case.
func WordIndex(w string) (uint16, bool) {
	i, ok := wordIndex[strings.ToLower(w)]
	return i, ok
}

// Verdicts of Parse.
const (
	OK          = "ok"
	BadCount    = "word count"
	BadWord     = "unknown word"
	BadVersion  = "unsupported version"
	BadChecksum = "checksum"
)

// WordCount gives the number of words of a version.
func WordCount(version int) int {
	switch version {
	case 0:
		return 14
	case 1:
		return 16
	}
	return 0
}

// Parse decodes a phrase; the second result is the set of causes for which it may be refused
// (empty when it is valid). When a phrase is wrong in several ways any of them may be reported.
func Parse(words []string) (Fields, map[string]bool) {
	why := map[string]bool{}
	var f Fields
	if len(words) == 0 {
		why[BadCount] = true
		return f, why
	}
	idx := make([]uint16, len(words))
	for i, w := range words {
		x, ok := WordIndex(w)
		if !ok {
			why[BadWord] = true
		}
		idx[i] = x
	}
	if first, ok := WordIndex(words[0]); ok {
		f.Version = int(first >> 8)
		if f.Version > 1 {
			why[BadVersion] = true
		} else if len(words) != WordCount(f.Version) {
			why[BadCount] = true
		}
	} else {
		// The version, and so the right count, cannot be known.
		if len(words) != 14 && len(words) != 16 {
			why[BadCount] = true
		}
	}
	if len(why) > 0 {
		return f, why
	}
	var b bits
	for _, x := range idx {
		b = b.add(uint64(x), 12)
	}
	body := b[:len(b)-5]
	if uint64(crc32.ChecksumIEEE(body.bytes())&0x1F) != b[len(b)-5:].num() {
		why[BadChecksum] = true
		return f, why
	}
	for i := range f.Seed {
		f.Seed[i] = byte(body[4+8*i : 12+8*i].num())
	}
	if f.Version == 1 {
		f.Salt = uint32(body[132 : 132+19].num())
		f.Verify = byte(body[151 : 151+5].num())
	}
	f.Offset = uint32(body[len(body)-31:].num())
	return f, why
}

// EncKey derives the 17 bytes protecting an encrypted phrase.
func EncKey(password []byte, salt, offset uint32) []byte {
	var b bits
	b = b.add(uint64(salt), 19)
	b = b.add(uint64(offset), 31)
	return argon2.IDKey(password, b.bytes(), 4, 0x80000, 2, 17)
}

// Encrypt builds the fields of an encrypted phrase.
func Encrypt(seed Seed16, offset, salt uint32, password []byte) Fields {
	k := EncKey(password, salt, offset)
	f := Fields{Version: 1, Salt: salt, Verify: k[16] & 0x1F, Offset: offset}
	blk, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	blk.Encrypt(f.Seed[:], seed[:])
	return f
}

// Decrypt opens an encrypted phrase; ok is false if the password check bits differ.
func Decrypt(f Fields, password []byte) (seed Seed16, ok bool) {
	k := EncKey(password, f.Salt, f.Offset)
	if k[16]&0x1F != f.Verify {
		return seed, false
	}
	blk, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	blk.Decrypt(seed[:], f.Seed[:])
	return seed, true
}

// SameWords compares word lists.
func SameWords(a, b []string) error {
	if len(a) != len(b) {
		return fmt.Errorf("got %d words %v, want %d words %v", len(a), a, len(b), b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("word %d is %q, want %q (got %v, want %v)", i+1, a[i], b[i], a, b)
		}
	}
	return nil
}
