package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/ed25519"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash"
	mbits "math/bits"
	"strings"
)

// Issue categories found in an export. Each property judges the categories it is about.
const (
	CatParse   = "parse"   // malformed packets, lengths, integers, checksums, order
	CatMaster  = "master"  // the master key is not the model's
	CatSubs    = "subkeys" // the subkeys are not exactly the model's
	CatUID     = "uid"     // the user ID packet does not hold the expected text
	CatSecret  = "secret"  // a secret part does not match its public part, or is wrong
	CatProtect = "protect" // clear where it should be encrypted, or the other way round, or wrong scheme
	CatStub    = "stub"    // the master secret is not a plain stub where it should be
	CatSig     = "sig"     // a signature is wrong
	CatDate    = "date"    // a signature or key is not dated at the creation time
	CatFlags   = "flags"   // usage flags
	CatExpiry  = "expiry"  // expiry subpackets
	CatCert    = "cert"    // self-certification present or absent against expectation
)

// Issue is one thing wrong with an export.
type Issue struct{ Cat, Msg string }

// Issues is a list of issues.
type Issues []Issue

// In selects issues by category.
func (is Issues) In(cats ...string) error {
	var out []string
	for _, i := range is {
		for _, c := range cats {
			if i.Cat == c {
				out = append(out, i.Cat+": "+i.Msg)
			}
		}
	}
	if len(out) == 0 {
		return nil
	}
	return fmt.Errorf("%s", strings.Join(out, "; "))
}

// Not selects issues outside the given categories.
func (is Issues) Not(cats ...string) error {
	var out []string
next:
	for _, i := range is {
		for _, c := range cats {
			if i.Cat == c {
				continue next
			}
		}
		out = append(out, i.Cat+": "+i.Msg)
	}
	if len(out) == 0 {
		return nil
	}
	return fmt.Errorf("%s", strings.Join(out, "; "))
}

// Packet is one OpenPGP packet.
type Packet struct {
	Tag  int
	Body []byte
	Raw  []byte
}

// Packets splits an export into packets.
func Packets(data []byte) ([]Packet, error) {
	var out []Packet
	for len(data) > 0 {
		if data[0]&0x80 == 0 {
			return out, fmt.Errorf("not a packet header: %#x", data[0])
		}
		var tag, hl, n int
		if data[0]&0x40 != 0 {
			tag = int(data[0] & 0x3F)
			if len(data) < 2 {
				return out, fmt.Errorf("truncated packet header")
			}
			l, used, err := newLength(data[1:])
			if err != nil {
				return out, err
			}
			hl, n = 1+used, l
		} else {
			tag = int(data[0] >> 2 & 0xF)
			lt := int(data[0] & 3)
			if lt == 3 {
				return out, fmt.Errorf("indeterminate packet length")
			}
			w := 1 << lt
			if len(data) < 1+w {
				return out, fmt.Errorf("truncated packet header")
			}
			for _, b := range data[1 : 1+w] {
				n = n<<8 | int(b)
			}
			hl = 1 + w
		}
		if len(data) < hl+n {
			return out, fmt.Errorf("packet with tag %d claims %d bytes, %d are left", tag, n, len(data)-hl)
		}
		out = append(out, Packet{tag, data[hl : hl+n], data[:hl+n]})
		data = data[hl+n:]
	}
	return out, nil
}

func newLength(b []byte) (n, used int, err error) {
	switch {
	case len(b) >= 1 && b[0] < 192:
		return int(b[0]), 1, nil
	case len(b) >= 2 && b[0] < 224:
		return (int(b[0])-192)<<8 + int(b[1]) + 192, 2, nil
	case len(b) >= 5 && b[0] == 255:
		return int(binary.BigEndian.Uint32(b[1:])), 5, nil
	}
	return 0, 0, fmt.Errorf("bad or partial length")
}

func mpi(b []byte) (v, rest []byte, err error) {
	if len(b) < 2 {
		return nil, nil, fmt.Errorf("truncated integer")
	}
	nb := int(b[0])<<8 | int(b[1])
	n := (nb + 7) / 8
	if len(b) < 2+n {
		return nil, nil, fmt.Errorf("integer of %d bits is truncated", nb)
	}
	v = b[2 : 2+n]
	if n > 0 {
		if got := (n-1)*8 + mbits.Len8(v[0]); got != nb {
			return nil, nil, fmt.Errorf("integer is not canonical: says %d bits, has %d", nb, got)
		}
	}
	return v, b[2+n:], nil
}

func pad32(v []byte) []byte {
	if len(v) > 32 {
		return v
	}
	return append(make([]byte, 32-len(v)), v...)
}

// PubKey is a parsed public key part.
type PubKey struct {
	Creation uint32
	Algo     byte
	Point    []byte // 32 bytes
	Body     []byte
}

func parsePublic(b []byte) (*PubKey, []byte, error) {
	if len(b) < 7 {
		return nil, nil, fmt.Errorf("truncated key packet")
	}
	if b[0] != 4 {
		return nil, nil, fmt.Errorf("key packet version %d", b[0])
	}
	k := &PubKey{Creation: binary.BigEndian.Uint32(b[1:]), Algo: b[5]}
	ol := int(b[6])
	if len(b) < 7+ol {
		return nil, nil, fmt.Errorf("truncated curve OID")
	}
	oid := b[7 : 7+ol]
	switch {
	case k.Algo == 22 && bytes.Equal(oid, oidEd25519):
	case k.Algo == 18 && bytes.Equal(oid, oidCurve25519):
	default:
		return nil, nil, fmt.Errorf("algorithm %d with OID %x", k.Algo, oid)
	}
	v, rest, err := mpi(b[7+ol:])
	if err != nil {
		return nil, nil, err
	}
	if len(v) != 33 || v[0] != 0x40 {
		return nil, nil, fmt.Errorf("public point %x", v)
	}
	k.Point = v[1:]
	if k.Algo == 18 {
		if len(rest) < 1 || len(rest) < 1+int(rest[0]) {
			return nil, nil, fmt.Errorf("truncated KDF parameters")
		}
		kdf := rest[1 : 1+int(rest[0])]
		if len(kdf) != 3 || kdf[0] != 1 || kdf[1] < 8 || kdf[1] > 10 || kdf[2] < 7 || kdf[2] > 9 {
			return nil, nil, fmt.Errorf("KDF parameters %x", kdf)
		}
		rest = rest[1+int(rest[0]):]
	}
	k.Body = b[:len(b)-len(rest)]
	return k, rest, nil
}

// Secret is a parsed secret part.
type Secret struct {
	Stub      bool
	Encrypted bool
	Salt, IV  []byte
	Value     []byte // 32 bytes, big-endian integer
}

func newHash(id byte) hash.Hash {
	switch id {
	case 2:
		return sha1.New()
	case 8:
		return sha256.New()
	case 9:
		return sha512.New384()
	case 10:
		return sha512.New()
	case 11:
		return sha256.New224()
	}
	return nil
}

// S2K is the iterated and salted string-to-key function.
func S2K(hashID byte, password, salt []byte, count, size int) []byte {
	unit := append(append([]byte{}, salt...), password...)
	if count < len(unit) {
		count = len(unit)
	}
	block := bytes.Repeat(unit, 1+(1<<16)/len(unit))
	block = block[:len(block)/len(unit)*len(unit)]
	var out []byte
	for ctx := 0; len(out) < size; ctx++ {
		h := newHash(hashID)
		h.Write(make([]byte, ctx))
		for left := count; left > 0; {
			n := len(block)
			if n > left {
				n = left
			}
			h.Write(block[:n])
			left -= n
		}
		out = h.Sum(out)
	}
	return out[:size]
}

// cfb decrypts in cipher feedback mode, written out by hand.
func cfb(key, iv, data []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	reg := append([]byte{}, iv...)
	ks := make([]byte, 16)
	for i := 0; i < len(data); i += 16 {
		blk.Encrypt(ks, reg)
		for j := i; j < i+16 && j < len(data); j++ {
			out[j] = data[j] ^ ks[j-i]
		}
		if i+16 <= len(data) {
			copy(reg, data[i:i+16])
		}
	}
	return out
}

// S2KCount decodes the count octet.
func S2KCount(c byte) int { return (16 + int(c&15)) << (uint(c>>4) + 6) }

// parseSecret parses what follows the public part. With a nil password an encrypted part stays closed.
func parseSecret(b, password []byte) (*Secret, []Issue) {
	bad := func(cat, f string, a ...any) (*Secret, []Issue) {
		return nil, []Issue{{cat, fmt.Sprintf(f, a...)}}
	}
	if len(b) < 1 {
		return bad(CatParse, "no secret part")
	}
	s := &Secret{}
	switch b[0] {
	case 0:
		v, rest, err := mpi(b[1:])
		if err != nil {
			return bad(CatParse, "secret integer: %v", err)
		}
		if len(v) > 32 || len(rest) != 2 {
			return bad(CatParse, "secret part has %d integer bytes and %d bytes after it", len(v), len(rest))
		}
		var sum uint16
		for _, x := range b[1 : len(b)-2] {
			sum += uint16(x)
		}
		if got := binary.BigEndian.Uint16(rest); got != sum {
			return bad(CatParse, "secret checksum %#x, computed %#x", got, sum)
		}
		s.Value = pad32(v)
		return s, nil
	case 254, 255:
		if len(b) < 4 {
			return bad(CatParse, "truncated protection header")
		}
		if b[2] == 101 {
			if len(b) >= 8 && string(b[4:7]) == "GNU" && b[7] == 1 {
				if len(b) != 8 {
					return bad(CatStub, "stub followed by %d bytes", len(b)-8)
				}
				s.Stub = true
				return s, nil
			}
			return bad(CatStub, "malformed stub %x", b)
		}
		if b[0] != 254 {
			return bad(CatProtect, "usage octet %d: no integrity hash", b[0])
		}
		s.Encrypted = true
		size := map[byte]int{7: 16, 8: 24, 9: 32}[b[1]]
		if size == 0 {
			return bad(CatProtect, "cipher %d", b[1])
		}
		if b[2] != 3 {
			return bad(CatProtect, "string-to-key type %d is not salted and iterated", b[2])
		}
		if newHash(b[3]) == nil {
			return bad(CatProtect, "hash %d", b[3])
		}
		if len(b) < 4+8+1+16 {
			return bad(CatParse, "truncated protected part")
		}
		s.Salt = append([]byte{}, b[4:12]...)
		s.IV = append([]byte{}, b[13:29]...)
		if password == nil {
			return s, nil
		}
		clear := cfb(S2K(b[3], password, s.Salt, S2KCount(b[12]), size), s.IV, b[29:])
		if len(clear) < 22 {
			return bad(CatParse, "protected part has only %d bytes", len(clear))
		}
		body := clear[:len(clear)-20]
		if h := sha1.Sum(body); !bytes.Equal(h[:], clear[len(clear)-20:]) {
			return bad(CatProtect, "does not decrypt under the password: integrity hash differs")
		}
		v, rest, err := mpi(body)
		if err != nil || len(rest) != 0 || len(v) > 32 {
			return bad(CatParse, "decrypted integer: %v, %d bytes left", err, len(rest))
		}
		s.Value = pad32(v)
		return s, nil
	}
	return bad(CatProtect, "usage octet %d", b[0])
}

type subpacket struct {
	typ      byte
	critical bool
	body     []byte
}

func subpackets(b []byte) ([]subpacket, error) {
	var out []subpacket
	for len(b) > 0 {
		var n, used int
		switch {
		case b[0] < 192:
			n, used = int(b[0]), 1
		case b[0] < 255 && len(b) >= 2:
			n, used = (int(b[0])-192)<<8+int(b[1])+192, 2
		case b[0] == 255 && len(b) >= 5:
			n, used = int(binary.BigEndian.Uint32(b[1:])), 5
		default:
			return nil, fmt.Errorf("bad subpacket length")
		}
		if n < 1 || len(b) < used+n {
			return nil, fmt.Errorf("subpacket length %d with %d bytes left", n, len(b)-used)
		}
		out = append(out, subpacket{b[used] & 0x7F, b[used]&0x80 != 0, b[used+1 : used+n]})
		b = b[used+n:]
	}
	return out, nil
}

// Sig is a parsed signature.
type Sig struct {
	Type     byte
	hashID   byte
	hashed   []subpacket
	unhashed []subpacket
	preimage []byte
	preview  []byte
	r, s     []byte
}

func parseSig(b []byte) (*Sig, error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("truncated signature")
	}
	if b[0] != 4 || b[2] != 22 {
		return nil, fmt.Errorf("signature version %d, algorithm %d", b[0], b[2])
	}
	g := &Sig{Type: b[1], hashID: b[3]}
	if newHash(g.hashID) == nil {
		return nil, fmt.Errorf("signature hash %d", g.hashID)
	}
	n := int(b[4])<<8 | int(b[5])
	if len(b) < 6+n+2 {
		return nil, fmt.Errorf("hashed area of %d bytes is truncated", n)
	}
	var err error
	if g.hashed, err = subpackets(b[6 : 6+n]); err != nil {
		return nil, err
	}
	g.preimage = b[:6+n]
	rest := b[6+n:]
	m := int(rest[0])<<8 | int(rest[1])
	if len(rest) < 2+m+2 {
		return nil, fmt.Errorf("unhashed area of %d bytes is truncated", m)
	}
	if g.unhashed, err = subpackets(rest[2 : 2+m]); err != nil {
		return nil, err
	}
	rest = rest[2+m:]
	g.preview = rest[:2]
	if g.r, rest, err = mpi(rest[2:]); err != nil {
		return nil, fmt.Errorf("R: %v", err)
	}
	if g.s, rest, err = mpi(rest); err != nil {
		return nil, fmt.Errorf("S: %v", err)
	}
	if len(rest) != 0 || len(g.r) > 32 || len(g.s) > 32 {
		return nil, fmt.Errorf("signature has %d/%d integer bytes and %d bytes after", len(g.r), len(g.s), len(rest))
	}
	return g, nil
}

func find(list []subpacket, typ byte) [][]byte {
	var out [][]byte
	for _, s := range list {
		if s.typ == typ {
			out = append(out, s.body)
		}
	}
	return out
}

// checkSig verifies a signature by signer over data.
func checkSig(what string, g *Sig, signer *PubKey, data []byte, creation uint32) Issues {
	var is Issues
	add := func(cat, f string, a ...any) { is = append(is, Issue{cat, what + ": " + fmt.Sprintf(f, a...)}) }
	h := newHash(g.hashID)
	h.Write(data)
	h.Write(g.preimage)
	h.Write([]byte{4, 0xFF})
	h.Write(binary.BigEndian.AppendUint32(nil, uint32(len(g.preimage))))
	sum := h.Sum(nil)
	if !bytes.Equal(sum[:2], g.preview) {
		add(CatSig, "hash preview %x, computed %x", g.preview, sum[:2])
	}
	if !ed25519.Verify(ed25519.PublicKey(signer.Point), sum, append(append([]byte{}, pad32(g.r)...), pad32(g.s)...)) {
		add(CatSig, "does not verify")
	}
	dates := find(g.hashed, 2)
	if len(dates) != 1 || len(dates[0]) != 4 {
		add(CatSig, "%d creation time subpackets", len(dates))
	} else if d := binary.BigEndian.Uint32(dates[0]); d != creation {
		add(CatDate, "dated %d, not at the creation time %d", d, creation)
	}
	fpr := Fingerprint(signer.Body)
	named := 0
	for _, list := range [][]subpacket{g.hashed, g.unhashed} {
		for _, b := range find(list, 33) {
			named++
			if !bytes.Equal(b, append([]byte{4}, fpr...)) {
				add(CatSig, "issuer fingerprint %x is not %x", b, fpr)
			}
		}
		for _, b := range find(list, 16) {
			named++
			if !bytes.Equal(b, fpr[12:]) {
				add(CatSig, "issuer key ID %x is not %x", b, fpr[12:])
			}
		}
	}
	if named == 0 {
		add(CatSig, "does not name its issuer")
	}
	if len(find(g.hashed, 3)) > 0 {
		add(CatSig, "signature expiration subpacket")
	}
	for _, list := range [][]subpacket{g.hashed, g.unhashed} {
		for _, s := range list {
			if s.critical {
				switch s.typ {
				case 2, 9, 11, 16, 21, 22, 23, 25, 27, 30, 32, 33:
				default:
					add(CatSig, "unknown critical subpacket %d", s.typ)
				}
			}
		}
	}
	return is
}

func flagsOf(g *Sig) (byte, error) {
	f := find(g.hashed, 27)
	if len(f) != 1 || len(f[0]) < 1 {
		return 0, fmt.Errorf("%d key flag subpackets", len(f))
	}
	for _, x := range f[0][1:] {
		if x != 0 {
			return 0, fmt.Errorf("key flags %x", f[0])
		}
	}
	return f[0][0], nil
}

func expiryOf(g *Sig) (int64, error) {
	f := find(g.hashed, 9)
	if len(find(g.unhashed, 9)) > 0 {
		return 0, fmt.Errorf("expiry subpacket is not signed")
	}
	if len(f) == 0 {
		return -1, nil
	}
	if len(f) > 1 || len(f[0]) != 4 {
		return 0, fmt.Errorf("%d expiry subpackets", len(f))
	}
	return int64(binary.BigEndian.Uint32(f[0])), nil
}

// Expect says what an export should hold.
type Expect struct {
	Creation uint32
	Master   *Key
	UID      string
	Subs     map[string]*Key
	TTL      uint32 // 0: no expiry
	Password []byte // empty: not protected
	Open     bool   // with Password: decrypt the secret parts (slow)
	Stub     bool
	Cert     bool
	// Where keys of one set differ, by type ("master" or a subkey type): seconds of creation and lifetimes.
	Dates, Lives map[string]uint32
}

func (e *Expect) date(typ string) uint32 {
	if d, ok := e.Dates[typ]; ok {
		return d
	}
	return e.Creation
}

func (e *Expect) life(typ string) uint32 {
	if d, ok := e.Lives[typ]; ok {
		return d
	}
	return e.TTL
}

// Export is a parsed export.
type Export struct {
	Packets []Packet
	Order   []string // subkey types in order of appearance
	Salts   []string // salts and IVs of the protected secret parts
	IVs     []string
	Bind    map[string][]byte // raw binding signature packet per subkey type
	UID     string
	Issues  Issues
}

// CheckExport parses an export strictly and compares it with what is expected.
func CheckExport(data []byte, e *Expect) *Export {
	x := &Export{Bind: map[string][]byte{}}
	add := func(cat, f string, a ...any) { x.Issues = append(x.Issues, Issue{cat, fmt.Sprintf(f, a...)}) }
	pk, err := Packets(data)
	if err != nil {
		add(CatParse, "%v", err)
		return x
	}
	x.Packets = pk
	if len(pk) < 2 || pk[0].Tag != 5 || pk[1].Tag != 13 {
		tags := make([]int, len(pk))
		for i, p := range pk {
			tags[i] = p.Tag
		}
		add(CatParse, "packets %v do not begin with a secret key and a user ID", tags)
		return x
	}
	// Master key.
	master, rest, err := parsePublic(pk[0].Body)
	if err != nil {
		add(CatParse, "master key: %v", err)
		return x
	}
	if master.Algo != 22 {
		add(CatParse, "master key algorithm %d", master.Algo)
		return x
	}
	if master.Creation != e.date("master") {
		add(CatDate, "master key created at %d, want %d", master.Creation, e.date("master"))
	}
	if e.Master != nil && !bytes.Equal(master.Body, e.Master.Body) {
		add(CatMaster, "public part %x, want %x", master.Body, e.Master.Body)
	}
	x.secret("master key", master, rest, e, e.Stub)
	// User ID.
	x.UID = string(pk[1].Body)
	if x.UID != e.UID {
		add(CatUID, "user ID %q, want %q", clip(x.UID), clip(e.UID))
	}
	i := 2
	keyPre := keyPreimage(master.Body)
	cert := false
	for ; i < len(pk) && pk[i].Tag == 2; i++ {
		g, err := parseSig(pk[i].Body)
		if err != nil {
			add(CatParse, "self-certification: %v", err)
			continue
		}
		if cert {
			add(CatParse, "two signatures follow the user ID")
		}
		cert = true
		if g.Type < 0x10 || g.Type > 0x13 {
			add(CatSig, "self-certification has type %#x", g.Type)
		}
		pre := append(append([]byte{}, keyPre...), 0xB4)
		pre = binary.BigEndian.AppendUint32(pre, uint32(len(pk[1].Body)))
		pre = append(pre, pk[1].Body...)
		x.Issues = append(x.Issues, checkSig("self-certification", g, master, pre, e.date("master"))...)
		if f, err := flagsOf(g); err != nil {
			add(CatFlags, "self-certification: %v", err)
		} else if f != 1 {
			add(CatFlags, "master key flags %#x, want 0x1", f)
		}
		x.expiry("self-certification", g, e.life("master"))
	}
	if cert != e.Cert {
		add(CatCert, "self-certification present: %v, want %v", cert, e.Cert)
	}
	// Subkeys.
	seen := map[string]bool{}
	for i < len(pk) {
		if pk[i].Tag != 7 {
			add(CatParse, "packet %d has tag %d, want a subkey", i, pk[i].Tag)
			return x
		}
		sub, rest, err := parsePublic(pk[i].Body)
		if err != nil {
			add(CatParse, "subkey: %v", err)
			return x
		}
		typ := ""
		for t, k := range e.Subs {
			if bytes.Equal(k.Body, sub.Body) {
				typ = t
			}
		}
		if sub.Creation != e.date(typ) {
			add(CatDate, "subkey created at %d, want %d", sub.Creation, e.date(typ))
		}
		if typ == "" {
			add(CatSubs, "a subkey with public part %x is not expected", sub.Body)
		} else if seen[typ] {
			add(CatSubs, "the %s subkey occurs twice", typ)
		}
		seen[typ] = true
		x.Order = append(x.Order, typ)
		x.secret(typ+" subkey", sub, rest, e, false)
		if i+1 >= len(pk) || pk[i+1].Tag != 2 {
			add(CatParse, "the %s subkey is not followed by a signature", typ)
			return x
		}
		x.Bind[typ] = pk[i+1].Raw
		g, err := parseSig(pk[i+1].Body)
		if err != nil {
			add(CatParse, "%s binding: %v", typ, err)
			return x
		}
		if g.Type != 0x18 {
			add(CatSig, "%s binding has type %#x", typ, g.Type)
		}
		pre := append(append([]byte{}, keyPre...), keyPreimage(sub.Body)...)
		x.Issues = append(x.Issues, checkSig(typ+" binding", g, master, pre, e.date(typ))...)
		f, err := flagsOf(g)
		if err != nil {
			add(CatFlags, "%s binding: %v", typ, err)
		} else {
			want, known := Flags[typ]
			switch {
			case known && f != want:
				add(CatFlags, "%s subkey flags %#x, want %#x", typ, f, want)
			case !known && sub.Algo == 18 && f != 0x0C, !known && sub.Algo == 22 && f != 0x20 && f != 0x02:
				add(CatFlags, "subkey with algorithm %d has flags %#x", sub.Algo, f)
			}
		}
		x.expiry(typ+" binding", g, e.life(typ))
		emb := append(find(g.hashed, 32), find(g.unhashed, 32)...)
		if typ == "signing" || (typ == "" && f&2 != 0) {
			if len(emb) != 1 {
				add(CatSig, "%d back-signatures on the signing subkey's binding", len(emb))
			} else if bg, err := parseSig(emb[0]); err != nil {
				add(CatParse, "back-signature: %v", err)
			} else {
				if bg.Type != 0x19 {
					add(CatSig, "back-signature has type %#x", bg.Type)
				}
				x.Issues = append(x.Issues, checkSig("back-signature", bg, sub, pre, e.date(typ))...)
			}
		}
		i += 2
		for i < len(pk) && pk[i].Tag == 2 {
			add(CatParse, "more than one signature follows the %s subkey", typ)
			i++
		}
	}
	for _, t := range Types {
		if e.Subs[t] != nil && !seen[t] {
			add(CatSubs, "the %s subkey is missing", t)
		}
	}
	return x
}

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:80], len(s))
	}
	return s
}

func keyPreimage(body []byte) []byte {
	return append([]byte{0x99, byte(len(body) >> 8), byte(len(body))}, body...)
}

func (x *Export) expiry(what string, g *Sig, life uint32) {
	want := int64(-1)
	if life > 0 {
		want = int64(life)
	}
	if got, err := expiryOf(g); err != nil {
		x.Issues = append(x.Issues, Issue{CatExpiry, what + ": " + err.Error()})
	} else if got != want {
		x.Issues = append(x.Issues, Issue{CatExpiry, fmt.Sprintf("%s states lifetime %d, want %d (-1: none)", what, got, want)})
	}
}

func (x *Export) secret(what string, pub *PubKey, rest []byte, e *Expect, stub bool) {
	add := func(cat, f string, a ...any) {
		x.Issues = append(x.Issues, Issue{cat, what + ": " + fmt.Sprintf(f, a...)})
	}
	var pw []byte
	if e.Open && len(e.Password) > 0 {
		pw = e.Password
	}
	s, is := parseSecret(rest, pw)
	for _, i := range is {
		add(i.Cat, "%s", i.Msg)
	}
	if s == nil {
		return
	}
	if s.Stub != stub {
		add(CatStub, "stub: %v, want %v", s.Stub, stub)
	}
	if s.Stub {
		return
	}
	if s.Encrypted != (len(e.Password) > 0) {
		add(CatProtect, "protected: %v, want %v", s.Encrypted, len(e.Password) > 0)
	}
	if s.Encrypted {
		x.Salts = append(x.Salts, string(s.Salt))
		x.IVs = append(x.IVs, string(s.IV))
	}
	if s.Value == nil {
		return
	}
	var pk []byte
	if pub.Algo == 22 {
		pk = ed25519.NewKeyFromSeed(s.Value)[32:]
	} else {
		if s.Value[31]&7 != 0 || s.Value[0]&0xC0 != 0x40 {
			add(CatSecret, "Curve25519 secret is not clamped")
		}
		var le [32]byte
		for i := range le {
			le[i] = s.Value[31-i]
		}
		pk = cvPublic(le)
	}
	if !bytes.Equal(pk, pub.Point) {
		add(CatSecret, "secret part belongs to public point %x, not %x", pk, pub.Point)
	}
}

// Dearmor parses an armored block strictly and returns its bytes.
func Dearmor(text, typ string) ([]byte, error) {
	lines := strings.Split(text, "\n")
	for len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	if len(lines) < 4 || lines[0] != "-----BEGIN "+typ+"-----" || lines[len(lines)-1] != "-----END "+typ+"-----" {
		return nil, fmt.Errorf("not exactly one %s block", typ)
	}
	lines = lines[1 : len(lines)-1]
	for len(lines) > 0 && lines[0] != "" {
		if !strings.Contains(lines[0], ": ") {
			return nil, fmt.Errorf("armor header line %q", lines[0])
		}
		lines = lines[1:]
	}
	if len(lines) < 2 {
		return nil, fmt.Errorf("armor has no body")
	}
	lines = lines[1:]
	last := lines[len(lines)-1]
	if len(last) != 5 || last[0] != '=' {
		return nil, fmt.Errorf("armor checksum line %q", last)
	}
	for _, l := range lines[:len(lines)-1] {
		if len(l) == 0 || len(l) > 76 {
			return nil, fmt.Errorf("armor line of %d characters", len(l))
		}
	}
	data, err := base64.StdEncoding.DecodeString(strings.Join(lines[:len(lines)-1], ""))
	if err != nil {
		return nil, err
	}
	sum, err := base64.StdEncoding.DecodeString(last[1:])
	if err != nil {
		return nil, err
	}
	crc := uint32(0xB704CE)
	for _, b := range data {
		crc ^= uint32(b) << 16
		for i := 0; i < 8; i++ {
			crc <<= 1
			if crc&0x1000000 != 0 {
				crc ^= 0x1864CFB
			}
		}
	}
	if got := uint32(sum[0])<<16 | uint32(sum[1])<<8 | uint32(sum[2]); got != crc&0xFFFFFF {
		return nil, fmt.Errorf("armor checksum %06x, computed %06x", got, crc&0xFFFFFF)
	}
	return data, nil
}

// PrivateBlock is the armor type of exports.
const PrivateBlock = "PGP PRIVATE KEY BLOCK"

// Leaks reports whether any eight consecutive bytes of secret occur in data, in either byte order.
func Leaks(data, secret []byte) bool {
	rev := make([]byte, len(secret))
	for i, b := range secret {
		rev[len(secret)-1-i] = b
	}
	for _, s := range [][]byte{secret, rev} {
		for i := 0; i+8 <= len(s); i++ {
			if bytes.Contains(data, s[i:i+8]) {
				return true
			}
		}
	}
	return false
}

// OpenSecret checks that a secret key packet body opens under the password to the given 32 bytes.
func OpenSecret(body, password, want []byte) error {
	_, rest, err := parsePublic(body)
	if err != nil {
		return err
	}
	s, is := parseSecret(rest, password)
	if len(is) > 0 {
		return fmt.Errorf("%s: %s", is[0].Cat, is[0].Msg)
	}
	if !bytes.Equal(s.Value, want) {
		return fmt.Errorf("secret %x, want %x", s.Value, want)
	}
	return nil
}

// Public lists, packet by packet, everything in an export that is not a secret part.
func Public(data []byte) ([][]byte, error) {
	pk, err := Packets(data)
	if err != nil {
		return nil, err
	}
	var out [][]byte
	for _, p := range pk {
		if p.Tag == 5 || p.Tag == 7 {
			k, _, err := parsePublic(p.Body)
			if err != nil {
				return nil, err
			}
			out = append(out, append([]byte{byte(p.Tag)}, k.Body...))
			continue
		}
		out = append(out, p.Raw)
	}
	return out, nil
}

// Scalar is the secret scalar that Ed25519 expands a seed to.
func Scalar(seed []byte) []byte {
	h := sha512.Sum512(seed)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return h[:32]
}

// Sub is a subpacket asked for.
type Sub struct {
	Type byte
	Body []byte
}

// CheckSignature checks a signature packet's body: type, hash, date, issuer, validity over the data, and in both
// areas exactly the subpackets asked for, in order, beside date and issuer.
func CheckSignature(body []byte, typ, hashID byte, signer *Key, data []byte, date uint32, hashed, unhashed []Sub) error {
	g, err := parseSig(body)
	if err != nil {
		return err
	}
	if g.Type != typ || g.hashID != hashID {
		return fmt.Errorf("signature type %#x, hash %d, want %#x, %d", g.Type, g.hashID, typ, hashID)
	}
	pub, _, err := parsePublic(signer.Body)
	if err != nil {
		return err
	}
	if err := checkSig("signature", g, pub, data, date).Not(); err != nil {
		return err
	}
	same := func(what string, got []subpacket, want []Sub) error {
		var rest []subpacket
		for _, s := range got {
			if s.typ != 2 && s.typ != 33 && s.typ != 16 {
				rest = append(rest, s)
			}
		}
		if len(rest) != len(want) {
			return fmt.Errorf("%d %s subpackets, want %d", len(rest), what, len(want))
		}
		for i, s := range rest {
			if s.typ != want[i].Type || s.critical || !bytes.Equal(s.body, want[i].Body) {
				return fmt.Errorf("%s subpacket %d is (%d, %x), want (%d, %x)", what, i, s.typ, s.body, want[i].Type, want[i].Body)
			}
		}
		return nil
	}
	if err := same("hashed", g.hashed, hashed); err != nil {
		return err
	}
	return same("unhashed", g.unhashed, unhashed)
}

// OpenS2K checks a protected secret (usage octet to ciphertext) against the bytes it should hold.
func OpenS2K(b, password, want []byte) error {
	if len(b) < 1+1+2+8+1+16+2+20 || b[0] != 254 || b[2] != 3 {
		return fmt.Errorf("not an iterated and salted secret: %x", b)
	}
	size := map[byte]int{7: 16, 8: 24, 9: 32}[b[1]]
	if size == 0 || newHash(b[3]) == nil {
		return fmt.Errorf("cipher %d, hash %d", b[1], b[3])
	}
	plain := cfb(S2K(b[3], password, b[4:12], S2KCount(b[12]), size), b[13:29], b[29:])
	v, rest, err := mpi(plain)
	if err != nil {
		return fmt.Errorf("decrypts to no integer: %v", err)
	}
	sum := sha1.Sum(plain[:len(plain)-len(rest)])
	if !bytes.Equal(rest, sum[:]) {
		return fmt.Errorf("integrity hash %x, computed %x", rest, sum)
	}
	if w := bytes.TrimLeft(want, "\x00"); !bytes.Equal(bytes.TrimLeft(v, "\x00"), w) {
		return fmt.Errorf("secret %x, want %x", v, w)
	}
	return nil
}

// Subpackets parses an area of subpackets.
func Subpackets(b []byte) ([]Sub, error) {
	l, err := subpackets(b)
	var out []Sub
	for _, s := range l {
		out = append(out, Sub{s.typ, s.body})
	}
	return out, err
}

// Clip shortens a text for a message.
func Clip(s string) string { return clip(s) }
