//go:build !nopgp

package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"verif/mc"
	"verif/ref"

	"github.com/kklash/mnemonikey/pgp"
)

// ---- C35: package pgp on its own ----

func c35(c *mc.Ctx) {
	c35Packets(c)
	c35Integers(c)
	c35Signatures(c)
	c35Sets(c)
	c35Secrets(c)
}

func filled(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + n)
	}
	return b
}

func c35Packets(c *mc.Ctx) {
	top := 9000
	if c.Thorough {
		top = 140000
	}
	sizes := []int{65534, 65535, 65536, 65537, 65791, 65792, 1 << 17, 1<<20 - 1, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1}
	c.Space("packets and subpackets of every length 0..%d and at the powers of two beyond; all 63 tags and 127 subpacket types at the boundaries of the length forms", top)
	one := func(tag byte, n int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("packet tag %d of %d bytes", tag, n) }, func() error {
			body := filled(n)
			out := pgp.EncodePacket(pgp.PacketTag(tag), append([]byte{}, body...))
			pk, err := ref.Packets(out)
			if err != nil {
				return err
			}
			if len(pk) != 1 || pk[0].Tag != int(tag) || !bytes.Equal(pk[0].Body, body) || len(pk[0].Raw) != len(out) {
				return fmt.Errorf("parses as %d packets, tag %d, %d bytes", len(pk), pk[0].Tag, len(pk[0].Body))
			}
			return nil
		})
	}
	sub := func(typ byte, n int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("subpacket type %d of %d bytes", typ, n) }, func() error {
			body := filled(n)
			out := (&pgp.Subpacket{Type: pgp.SubpacketType(typ), Body: append([]byte{}, body...)}).Encode()
			got, err := ref.Subpackets(out)
			if err != nil {
				return err
			}
			if len(got) != 1 || got[0].Type != typ || !bytes.Equal(got[0].Body, body) {
				return fmt.Errorf("parses as %d subpackets", len(got))
			}
			return nil
		})
	}
	c.Parallel(top+1+len(sizes), func(i int) {
		n := i
		if i > top {
			n = sizes[i-top-1]
		}
		one(13, n)
		one(2, n)
		sub(20, n)
	})
	edges := []int{0, 1, 190, 191, 192, 193, 447, 448, 8382, 8383, 8384, 8385}
	c.Parallel(128, func(t int) {
		for _, n := range edges {
			if t < 64 && t > 0 {
				one(byte(t), n)
			}
			sub(byte(t), n)
		}
	})
}

func c35Integers(c *mc.Ctx) {
	top := 1 << 17
	if c.Thorough {
		top = 1 << 22
	}
	c.Space("MPIs of all integers below %d, and 2^k-1, 2^k, 2^k+1 for k up to 65534", top)
	one := func(n *big.Int) {
		c.Case()
		c.Try(func() string { return "integer " + ref.Clip(n.Text(16)) }, func() error {
			want := binary.BigEndian.AppendUint16(nil, uint16(n.BitLen()))
			want = append(want, n.Bytes()...)
			keep := new(big.Int).Set(n)
			if got := pgp.EncodeMPI(n); !bytes.Equal(got, want) {
				return fmt.Errorf("encodes to %s, want %s", ref.Clip(fmt.Sprintf("%x", got)), ref.Clip(fmt.Sprintf("%x", want)))
			}
			if keep.Cmp(n) != 0 {
				return fmt.Errorf("the integer was changed")
			}
			return nil
		})
	}
	c.Parallel(top/64, func(i int) {
		for j := 0; j < 64; j++ {
			one(big.NewInt(int64(i*64 + j)))
		}
	})
	step := 7
	if c.Thorough {
		step = 1
	}
	c.Parallel(65535, func(k int) {
		if k > 600 && k < 65000 && k%step != 0 && k%8 != 0 && k%8 != 7 {
			return
		}
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		one(new(big.Int).Sub(p, big.NewInt(1)))
		one(p)
		one(new(big.Int).Add(p, big.NewInt(1)))
	})
}

func rawSeed(i int) (s [32]byte) {
	binary.BigEndian.PutUint64(s[8:], uint64(i)*0x9E3779B97F4A7C15+uint64(i))
	s[31] = byte(i)
	s[0] = byte(i >> 3)
	return
}

func c35Signatures(c *mc.Ctx) {
	hashes := []pgp.HashFuncID{pgp.HashFuncSHA256, pgp.HashFuncSHA384, pgp.HashFuncSHA512}
	times := []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint32(ref.Epoch), uint32(ref.Epoch) + 86399}
	n := 12000
	if c.Thorough {
		n = 1 << 20
	}
	c.Space("signatures: %d numbered requests; all 256 types x 3 hashes x 7 dates; data of every length 0..600; hashed and unhashed subpackets of all lengths 0..400 and up to the area's limit, and all lists of up to 3 of 4 subpackets in both areas", n)
	one := func(key int, typ byte, hash pgp.HashFuncID, data []byte, date uint32, hashed, unhashed []ref.Sub) {
		c.Case()
		c.Try(func() string {
			return fmt.Sprintf("signature key %d type %#x hash %d of %d bytes at %d, %d+%d subpackets", key, typ, hash, len(data), date, len(hashed), len(unhashed))
		}, func() error {
			raw := rawSeed(key)
			k := ref.EdKey(raw, 77)
			req := &pgp.SignatureRequest{SigningKeyFingerprint: k.Fpr(), HashFunction: hash, Data: append([]byte{}, data...), Type: pgp.SignatureType(typ), Time: time.Unix(int64(date), 0)}
			for _, s := range hashed {
				req.HashedSubpackets = append(req.HashedSubpackets, &pgp.Subpacket{Type: pgp.SubpacketType(s.Type), Body: append([]byte{}, s.Body...)})
			}
			for _, s := range unhashed {
				req.UnhashedSubpackets = append(req.UnhashedSubpackets, &pgp.Subpacket{Type: pgp.SubpacketType(s.Type), Body: append([]byte{}, s.Body...)})
			}
			sig := pgp.Sign(ed25519.NewKeyFromSeed(raw[:]), req)
			body := sig.Encode()
			if err := ref.CheckSignature(body, typ, byte(hash), k, data, date, hashed, unhashed); err != nil {
				return err
			}
			pk, err := ref.Packets(sig.EncodePacket())
			if err != nil || len(pk) != 1 || pk[0].Tag != 2 || !bytes.Equal(pk[0].Body, body) {
				return fmt.Errorf("the packet does not hold the signature (%v)", err)
			}
			return nil
		})
	}
	c.Parallel(n, func(i int) {
		one(i, byte(i*7), hashes[i%3], filled(i%97), uint32(i)*2654435761, nil, []ref.Sub{{Type: 20, Body: filled(i % 11)}})
	})
	c.Parallel(256, func(t int) {
		for _, h := range hashes {
			for _, d := range times {
				one(t, byte(t), h, []byte("data"), d, []ref.Sub{{Type: 27, Body: []byte{1}}}, nil)
			}
		}
	})
	c.Parallel(601, func(l int) {
		one(l, 0, hashes[l%3], filled(l), 5, nil, nil)
		if l <= 400 {
			one(l, 0x10, hashes[l%3], []byte("d"), 5, []ref.Sub{{Type: 20, Body: filled(l)}, {Type: 27, Body: []byte{2}}}, nil)
			one(l, 0x10, hashes[l%3], []byte("d"), 5, nil, []ref.Sub{{Type: 20, Body: filled(l)}, {Type: 32, Body: []byte{2}}})
		}
	})
	for _, l := range []int{8382, 8383, 8384, 60000, 65490} {
		one(l, 0x10, hashes[0], []byte("d"), 5, []ref.Sub{{Type: 20, Body: filled(l)}}, nil)
		one(l, 0x10, hashes[0], []byte("d"), 5, nil, []ref.Sub{{Type: 20, Body: filled(l)}})
	}
	subs := []ref.Sub{{Type: 27, Body: []byte{1}}, {Type: 9, Body: []byte{0, 0, 0, 9}}, {Type: 20, Body: filled(200)}, {Type: 30, Body: nil}}
	var lists [][]ref.Sub
	var walk func(l []ref.Sub)
	walk = func(l []ref.Sub) {
		lists = append(lists, append([]ref.Sub{}, l...))
		if len(l) < 3 {
			for _, s := range subs {
				walk(append(l, s))
			}
		}
	}
	walk(nil)
	c.Parallel(len(lists), func(i int) {
		for j := range lists {
			if len(lists[i])+len(lists[j]) <= 4 || c.Thorough {
				one(i, 0x13, hashes[j%3], []byte("data"), 9, lists[i], lists[j])
			}
		}
	})
}

// c35Sets: key sets whose keys have times of their own.
func c35Sets(c *mc.Ctx) {
	dates := []uint32{0, 1, uint32(ref.Epoch), 1<<31 - 1, 1 << 31, 1<<32 - 1}
	lives := []uint32{0, 1, 86400, 1<<31 - 1, 1<<32 - 1}
	kdfs := []*pgp.KeyDerivationParameters{nil, {HashFunction: pgp.HashFuncSHA512, CipherAlgorithm: pgp.CipherAlgoAES256}, {HashFunction: pgp.HashFuncSHA384, CipherAlgorithm: pgp.CipherAlgoAES192}}
	type times struct{ d, l uint32 }
	var all []times
	for _, d := range dates {
		for _, l := range lives {
			all = append(all, times{d, l})
		}
	}
	kind := []string{"master", "encryption", "authentication", "signing"}
	type job struct {
		t   [4]times
		has int // bits: encryption, authentication, signing
		kdf int
	}
	var jobs []job
	for i, x := range all {
		for j, y := range all {
			jobs = append(jobs, job{[4]times{x, y, all[(i+j)%len(all)], all[(i*7+j*3)%len(all)]}, 7, (i + j) % 3})
			for k := 1; k < 4; k++ {
				var t [4]times
				t[0], t[k] = x, y
				jobs = append(jobs, job{t, 1 << uint(k-1), (i + k) % 3})
			}
		}
	}
	c.Space("%d key sets: all pairs of 30 (creation, lifetime) of the master key and each subkey alone and together, 3 sets of KDF parameters; full, stub with and without certification; public packets and fingerprints", len(jobs))
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		c.Case()
		c.Try(func() string { return fmt.Sprintf("set %d: times %v has %b kdf %d", i, j.t, j.has, j.kdf) }, func() error {
			e := &ref.Expect{UID: "n <e>", Cert: true, Subs: map[string]*ref.Key{}, Dates: map[string]uint32{}, Lives: map[string]uint32{}}
			at := func(k int) (creation, expiry time.Time) {
				creation = time.Unix(int64(j.t[k].d), 0).UTC()
				if j.t[k].l > 0 {
					expiry = creation.Add(time.Duration(j.t[k].l) * time.Second)
				}
				e.Dates[kind[k]], e.Lives[kind[k]] = j.t[k].d, j.t[k].l
				return
			}
			raw := func(k int) [32]byte { return rawSeed(i*4 + k) }
			cr, ex := at(0)
			r := raw(0)
			mk, err := pgp.NewED25519MasterKey(append([]byte{}, r[:]...), cr, ex)
			if err != nil {
				return err
			}
			e.Master = ref.EdKey(r, j.t[0].d)
			set := &pgp.KeySet{UserID: &pgp.UserID{Name: "n", Email: "e"}, MasterKey: mk}
			type pub struct {
				what      string
				got, priv []byte
				fpr       []byte
				want      *ref.Key
				tag       int
			}
			priv, err := mk.EncodePrivatePacket(nil)
			if err != nil {
				return err
			}
			pubs := []pub{{"master", mk.EncodePublicPacket(), priv, mk.FingerprintV4(), e.Master, 6}}
			for k := 1; k < 4; k++ {
				if j.has>>uint(k-1)&1 == 0 {
					continue
				}
				cr, ex := at(k)
				r := raw(k)
				seed := append([]byte{}, r[:]...)
				if k == 1 {
					s, err := pgp.NewCurve25519Subkey(seed, cr, ex, kdfs[j.kdf])
					if err != nil {
						return err
					}
					set.EncryptionSubkey = s
					m := ref.CvKey(r, j.t[k].d)
					if p := kdfs[j.kdf]; p != nil {
						m.Body = append(append([]byte{}, m.Body[:len(m.Body)-2]...), byte(p.HashFunction), byte(p.CipherAlgorithm))
					}
					e.Subs[kind[k]] = m
					if priv, err = s.EncodePrivatePacket(nil); err != nil {
						return err
					}
					pubs = append(pubs, pub{kind[k], s.EncodePublicSubkeyPacket(), priv, s.FingerprintV4(), m, 14})
					continue
				}
				s, err := pgp.NewED25519Subkey(seed, cr, ex)
				if err != nil {
					return err
				}
				if k == 2 {
					set.AuthenticationSubkey = s
				} else {
					set.SigningSubkey = s
				}
				e.Subs[kind[k]] = ref.EdKey(r, j.t[k].d)
				if priv, err = s.EncodePrivatePacket(nil); err != nil {
					return err
				}
				pubs = append(pubs, pub{kind[k], s.EncodePublicSubkeyPacket(), priv, s.FingerprintV4(), e.Subs[kind[k]], 14})
			}
			for _, p := range pubs {
				pk, err := ref.Packets(p.got)
				if err != nil || len(pk) != 1 || pk[0].Tag != p.tag || !bytes.Equal(pk[0].Body, p.want.Body) {
					return fmt.Errorf("%s public packet %x, want tag %d, body %x (%v)", p.what, p.got, p.tag, p.want.Body, err)
				}
				if !bytes.Equal(p.fpr, p.want.Fpr()) {
					return fmt.Errorf("%s fingerprint %X, want %X", p.what, p.fpr, p.want.Fpr())
				}
				sk, err := ref.Packets(p.priv)
				if err != nil || len(sk) != 1 || sk[0].Tag != map[int]int{6: 5, 14: 7}[p.tag] || !bytes.HasPrefix(sk[0].Body, p.want.Body) {
					return fmt.Errorf("%s secret packet %x (%v)", p.what, p.priv, err)
				}
			}
			out, err := set.EncodePackets(nil)
			if err != nil {
				return err
			}
			if err := ref.CheckExport(out, e).Issues.Not(); err != nil {
				return err
			}
			e.Stub = true
			for _, cert := range []bool{true, false} {
				e.Cert = cert
				if out, err = set.EncodeSubkeyPackets(nil, cert); err != nil {
					return err
				}
				if err := ref.CheckExport(out, e).Issues.Not(); err != nil {
					return err
				}
			}
			// The certification by itself.
			pk, err := ref.Packets(mk.SelfCertify(&pgp.UserID{Name: "other"}).EncodePacket())
			if err != nil || len(pk) != 1 {
				return fmt.Errorf("self-certification: %v", err)
			}
			e.UID, e.Cert, e.Subs = "other", true, nil
			all := append(append(append([]byte{}, mk.EncodePrivateDummyPacket()...), (&pgp.UserID{Name: "other"}).EncodePacket()...), pk[0].Raw...)
			return ref.CheckExport(all, e).Issues.Not()
		})
	})
}

func c35Secrets(c *mc.Ctx) {
	n := 40
	if c.Thorough {
		n = 1000
	}
	type job struct {
		secret []byte
		pw     string
		hash   pgp.HashFuncID
	}
	var jobs []job
	for i := 0; i < n; i++ {
		jobs = append(jobs, job{filled(i), "password", pgp.HashFuncSHA256})
		if i > 0 {
			z := filled(i)
			for k := 0; k < i/2+1; k++ {
				z[k] = 0
			}
			jobs = append(jobs, job{z, "p", pgp.HashFuncSHA256})
		}
	}
	for h := 0; h < 256; h++ {
		jobs = append(jobs, job{[]byte("secret"), "password", pgp.HashFuncID(h)})
	}
	c.Space("EncryptS2K of secrets of every length 0..%d (with leading zeros too), and with all 256 hash numbers", n-1)
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		c.Case()
		c.Try(func() string { return fmt.Sprintf("secret %x with hash %d", j.secret, j.hash) }, func() error {
			out, err := pgp.EncryptS2K(j.hash, append([]byte{}, j.secret...), []byte(j.pw))
			if err != nil {
				if j.hash == pgp.HashFuncSHA256 {
					return err
				}
				if out != nil {
					return fmt.Errorf("error and a result")
				}
				c.Outcome("refused")
				return nil
			}
			if len(out) < 29 || out[3] != byte(j.hash) {
				return fmt.Errorf("does not name its hash: %x", out)
			}
			c.Outcome("opens")
			if err := ref.OpenS2K(out, []byte(j.pw), j.secret); err != nil {
				return err
			}
			if ref.OpenS2K(out, []byte(j.pw+"x"), j.secret) == nil {
				return fmt.Errorf("opens with another password")
			}
			return nil
		})
	})
}
