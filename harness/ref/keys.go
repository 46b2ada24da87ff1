package ref

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"

	"golang.org/x/crypto/argon2"
)

// Root derives the root key.
func Root(seed Seed16, creation uint32) []byte {
	salt := []byte{byte(creation >> 24), byte(creation >> 16), byte(creation >> 8), byte(creation)}
	return argon2.IDKey(seed[:], salt, 4, 0x80000, 2, 32)
}

// Expand is HKDF-Expand-SHA256 for 32 bytes of output: one HMAC block.
func Expand(root []byte, info string) [32]byte {
	m := hmac.New(sha256.New, root)
	m.Write([]byte(info))
	m.Write([]byte{1})
	var out [32]byte
	copy(out[:], m.Sum(nil))
	return out
}

// MasterSeed derives the 32-byte secret of the master key.
func MasterSeed(root []byte) [32]byte { return Expand(root, "mnemonikey master key") }

// SubkeySeed derives the 32-byte secret of a subkey.
func SubkeySeed(root []byte, typ string, index uint16) [32]byte {
	return Expand(root, "mnemonikey "+typ+" subkey"+string([]byte{byte(index >> 8), byte(index)}))
}

// Key is a model key: what must be found in an export.
type Key struct {
	Algo   byte   // 22 EdDSA, 18 ECDH
	Secret []byte // big-endian integer bytes as OpenPGP stores it
	Public []byte // 32 bytes
	Body   []byte // public key packet body
	Priv   ed25519.PrivateKey
}

var (
	oidEd25519    = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0xDA, 0x47, 0x0F, 0x01}
	oidCurve25519 = []byte{0x2B, 0x06, 0x01, 0x04, 0x01, 0x97, 0x55, 0x01, 0x05, 0x01}
)

// EdKey is the model of an Ed25519 key.
func EdKey(seed [32]byte, creation uint32) *Key {
	priv := ed25519.NewKeyFromSeed(seed[:])
	k := &Key{Algo: 22, Secret: append([]byte{}, seed[:]...), Public: append([]byte{}, priv[32:]...), Priv: priv}
	k.Body = publicBody(22, oidEd25519, k.Public, creation, nil)
	return k
}

// CvKey is the model of a Curve25519 key.
func CvKey(seed [32]byte, creation uint32) *Key {
	c := seed
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	p, err := ecdh.X25519().NewPrivateKey(c[:])
	if err != nil {
		panic(err)
	}
	k := &Key{Algo: 18, Public: p.PublicKey().Bytes()}
	for i := 31; i >= 0; i-- {
		k.Secret = append(k.Secret, c[i])
	}
	k.Body = publicBody(18, oidCurve25519, k.Public, creation, []byte{3, 1, 8, 7})
	return k
}

func publicBody(algo byte, oid, pub []byte, creation uint32, extra []byte) []byte {
	b := []byte{4}
	b = binary.BigEndian.AppendUint32(b, creation)
	b = append(b, algo, byte(len(oid)))
	b = append(b, oid...)
	b = append(b, 0x01, 0x07, 0x40) // 263 bits: 0x40 prefix and 32 bytes
	b = append(b, pub...)
	return append(b, extra...)
}

// Fingerprint is the v4 fingerprint of a public key packet body.
func Fingerprint(body []byte) []byte {
	h := sha1.New()
	h.Write([]byte{0x99, byte(len(body) >> 8), byte(len(body))})
	h.Write(body)
	return h.Sum(nil)
}

// Fpr is the key's fingerprint.
func (k *Key) Fpr() []byte { return Fingerprint(k.Body) }

// Types are the subkey types in specification order.
var Types = []string{"encryption", "authentication", "signing"}

// Flags gives the usage flags of a subkey type.
var Flags = map[string]byte{"encryption": 0x0C, "authentication": 0x20, "signing": 0x02}

// Subkey derives the model subkey of a type.
func Subkey(root []byte, typ string, index uint16, creation uint32) *Key {
	s := SubkeySeed(root, typ, index)
	if typ == "encryption" {
		return CvKey(s, creation)
	}
	return EdKey(s, creation)
}

func cvPublic(clamped [32]byte) []byte {
	p, err := ecdh.X25519().NewPrivateKey(clamped[:])
	if err != nil {
		panic(err)
	}
	return p.PublicKey().Bytes()
}

// UID composes the user ID.
func UID(name, email string) string {
	switch {
	case email == "":
		return name
	case name == "":
		return email
	}
	return name + " <" + email + ">"
}

// Opts are the key options of the model.
type Opts struct {
	Name, Email    string
	TTL            uint32
	Enc, Auth, Sig uint16
	All            bool // no selection: all subkeys
	Select         []string
}

// Model is the model key set.
type Model struct {
	Seed     Seed16
	Creation uint32
	Root     []byte
	Master   *Key
	Subs     map[string]*Key
	Opts     Opts
}

// Build derives the model key set.
func Build(seed Seed16, creation uint32, o Opts) *Model {
	return BuildRoot(seed, creation, Root(seed, creation), o)
}

// BuildRoot is Build with a known root key.
func BuildRoot(seed Seed16, creation uint32, root []byte, o Opts) *Model {
	m := &Model{Seed: seed, Creation: creation, Root: root, Opts: o, Subs: map[string]*Key{}}
	m.Master = EdKey(MasterSeed(m.Root), creation)
	for _, t := range Types {
		on := o.All
		for _, s := range o.Select {
			on = on || s == t
		}
		if on {
			m.Subs[t] = Subkey(m.Root, t, o.Index(t), creation)
		}
	}
	return m
}

// Index gives the index selected for a subkey type.
func (o *Opts) Index(typ string) uint16 {
	switch typ {
	case "encryption":
		return o.Enc
	case "authentication":
		return o.Auth
	}
	return o.Sig
}

// Expect gives the expectation for a full export without password.
func (m *Model) Expect() *Expect {
	return &Expect{
		Creation: m.Creation, Master: m.Master, UID: UID(m.Opts.Name, m.Opts.Email),
		Subs: m.Subs, TTL: m.Opts.TTL, Cert: true,
	}
}
