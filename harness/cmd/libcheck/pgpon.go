//go:build !nopgp

package main

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"fmt"
	"math/big"
	"time"
	"verif/mc"
	"verif/ref"

	"github.com/kklash/mnemonikey/pgp"
)

// The parts of the checks that call package pgp directly. Built without them (tag nopgp) if its exported
// names have changed: the keys and packets it produces are judged through package mnemonikey all the same.

func c05PGP(c *mc.Ctx) {
	// The key constructors themselves, on crafted 32-byte seeds.
	var raw [][32]byte
	for k := 0; k < 256; k++ {
		var a, b, d [32]byte
		a[k/8] = 0x80 >> uint(k%8)
		for i := 0; i <= k/8; i++ {
			b[31-i] = 0xFF
		}
		for i := range d {
			d[i] = byte(k)
		}
		raw = append(raw, a, b, d)
	}
	c.Space("%d crafted 32-byte seeds through the pgp key constructors", len(raw))
	c.Parallel(len(raw), func(i int) {
		for _, off := range []uint32{0, ref.MaxOffset} {
			c.Case()
			c.Try(func() string { return fmt.Sprintf("raw %x at %d", raw[i], off) }, func() error {
				ed, cv := ref.EdKey(raw[i], stamp(off)), ref.CvKey(raw[i], stamp(off))
				t := creationTime(off)
				mk, err := pgp.NewED25519MasterKey(append([]byte{}, raw[i][:]...), t, time.Time{})
				if err != nil {
					return err
				}
				es, err := pgp.NewED25519Subkey(append([]byte{}, raw[i][:]...), t, time.Time{})
				if err != nil {
					return err
				}
				cs, err := pgp.NewCurve25519Subkey(append([]byte{}, raw[i][:]...), t, time.Time{}, nil)
				if err != nil {
					return err
				}
				if !bytes.Equal(mk.FingerprintV4(), ed.Fpr()) || !bytes.Equal(es.FingerprintV4(), ed.Fpr()) || !bytes.Equal(cs.FingerprintV4(), cv.Fpr()) {
					return fmt.Errorf("fingerprints %X %X %X, want %X %X", mk.FingerprintV4(), es.FingerprintV4(), cs.FingerprintV4(), ed.Fpr(), cv.Fpr())
				}
				for _, p := range []struct {
					got  []byte
					want *ref.Key
				}{{mk.EncodePublicPacket(), ed}, {es.EncodePublicSubkeyPacket(), ed}, {cs.EncodePublicSubkeyPacket(), cv}} {
					pk, err := ref.Packets(p.got)
					if err != nil || len(pk) != 1 || !bytes.Equal(pk[0].Body, p.want.Body) {
						return fmt.Errorf("public packet %x, want body %x (%v)", p.got, p.want.Body, err)
					}
				}
				return nil
			})
		}
	})
	for _, l := range []int{0, 1, 16, 31, 33, 64} {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("key seed of %d bytes", l) }, func() error {
			t := creationTime(0)
			_, e1 := pgp.NewED25519MasterKey(make([]byte, l), t, time.Time{})
			_, e2 := pgp.NewED25519Subkey(make([]byte, l), t, time.Time{})
			_, e3 := pgp.NewCurve25519Subkey(make([]byte, l), t, time.Time{}, nil)
			if e1 == nil || e2 == nil || e3 == nil {
				return fmt.Errorf("accepted: %v %v %v", e1, e2, e3)
			}
			return nil
		})
	}
}

func c08PGP(c *mc.Ctx) {
	// Crafted secrets through the pgp package: every number of leading zero bits.
	c.Space("key sets built from 513 crafted 32-byte secrets (every number of leading and trailing zero bits) via pgp.KeySet")
	c.Parallel(513, func(i int) {
		var raw [32]byte
		if i < 256 {
			for b := i; b < 256; b++ {
				raw[b/8] |= 0x80 >> uint(b%8)
			}
		} else if i < 512 {
			for b := 0; b <= i-256; b++ {
				raw[b/8] |= 0x80 >> uint(b%8)
			}
		}
		c.Case()
		c.Try(func() string { return fmt.Sprintf("secret %x", raw) }, func() error {
			t := creationTime(99)
			sub := raw
			sub[16] ^= 1
			sub2 := raw
			sub2[16] ^= 2
			sub3 := raw
			sub3[16] ^= 4
			mk, err := pgp.NewED25519MasterKey(append([]byte{}, raw[:]...), t, time.Time{})
			if err != nil {
				return err
			}
			ek, err := pgp.NewCurve25519Subkey(append([]byte{}, sub[:]...), t, time.Time{}, nil)
			if err != nil {
				return err
			}
			ak, err := pgp.NewED25519Subkey(append([]byte{}, sub2[:]...), t, time.Time{})
			if err != nil {
				return err
			}
			sk, err := pgp.NewED25519Subkey(append([]byte{}, sub3[:]...), t, time.Time{})
			if err != nil {
				return err
			}
			ks := &pgp.KeySet{UserID: &pgp.UserID{Name: "n"}, MasterKey: mk, EncryptionSubkey: ek, AuthenticationSubkey: ak, SigningSubkey: sk}
			e := &ref.Expect{Creation: stamp(99), Master: ref.EdKey(raw, stamp(99)), UID: "n", Cert: true, Subs: map[string]*ref.Key{
				"encryption": ref.CvKey(sub, stamp(99)), "authentication": ref.EdKey(sub2, stamp(99)), "signing": ref.EdKey(sub3, stamp(99))}}
			out, err := ks.EncodePackets(nil)
			if err != nil {
				return err
			}
			if err := ref.CheckExport(out, e).Issues.Not(); err != nil {
				return err
			}
			e.Stub = true
			if out, err = ks.EncodeSubkeyPackets(nil, true); err != nil {
				return err
			}
			return ref.CheckExport(out, e).Issues.Not()
		})
	})
}

func c09PGP(c *mc.Ctx) {
	// EncryptS2K itself on plaintexts of every length.
	c.Space("pgp.EncryptS2K on secrets with 0..32 leading zero bytes")
	c.Parallel(33, func(i int) {
		c.Case()
		c.Try(func() string { return fmt.Sprintf("EncryptS2K zeros=%d", i) }, func() error {
			var raw [32]byte
			for k := i; k < 32; k++ {
				raw[k] = byte(k*37 + 1)
			}
			k, err := pgp.NewED25519Subkey(raw[:], creationTime(3), time.Time{})
			if err != nil {
				return err
			}
			pkt, err := k.EncodePrivatePacket([]byte("pw"))
			if err != nil {
				return err
			}
			mk, err := pgp.NewED25519MasterKey(raw[:], creationTime(3), time.Time{})
			if err != nil {
				return err
			}
			pkt2, err := mk.EncodePrivatePacket([]byte("pw"))
			if err != nil {
				return err
			}
			for _, p := range [][]byte{pkt, pkt2} {
				pk, err := ref.Packets(p)
				if err != nil || len(pk) != 1 {
					return fmt.Errorf("packet: %v", err)
				}
				if err := ref.OpenSecret(pk[0].Body, []byte("pw"), raw[:]); err != nil {
					return err
				}
			}
			return nil
		})
	})
}

func c14PGP(c *mc.Ctx) {
	// Byte and integer arguments of the lower layers, each twice with the same argument.
	for n := 0; n < 64; n++ {
		n := n
		c.Case()
		c.Try(func() string { return fmt.Sprint("pgp arguments ", n) }, func() error {
			w := &world{}
			secret := make([]byte, 32)
			for i := range secret {
				secret[i] = byte(n*7 + i*i)
			}
			if n%3 == 0 {
				secret[0], secret[31] = 0, 0xFF
			}
			t := creationTime(uint32(n))
			for k := 0; k < 2; k++ {
				w.give(string(secret), func(b []byte) {
					m, err := pgp.NewED25519MasterKey(b, t, time.Time{})
					if err != nil {
						w.fault = err
						return
					}
					e, err := pgp.NewCurve25519Subkey(b, t, t.Add(time.Hour), nil)
					if err != nil {
						w.fault = err
						return
					}
					a, err := pgp.NewED25519Subkey(b, t, time.Time{})
					if err != nil {
						w.fault = err
						return
					}
					id := &pgp.UserID{Name: " Name ", Email: "E@x"}
					set := &pgp.KeySet{UserID: id, MasterKey: m, EncryptionSubkey: e, AuthenticationSubkey: a}
					one, err := set.EncodePackets(nil)
					if err != nil {
						w.fault = err
						return
					}
					two, _ := set.EncodeSubkeyPackets(nil, n%2 == 0)
					keep := append([]byte{}, one...)
					for i := range two {
						two[i] ^= 0x5A
					}
					m.SelfCertify(id)
					fp := m.FingerprintV4()
					for i := range fp {
						fp[i] ^= 0x5A
					}
					if set.SigningSubkey != nil || set.EncryptionSubkey != e || set.AuthenticationSubkey != a || set.UserID != id || id.Name != " Name " || id.Email != "E@x" {
						w.fault = errors.New("the key set was changed")
					}
					again, err := set.EncodePackets(nil)
					if err != nil || !bytes.Equal(again, keep) {
						w.fault = fmt.Errorf("the export differs the second time (%v)", err)
					}
				})
				w.giveInt(new(big.Int).SetBytes(secret), func(x *big.Int) { pgp.EncodeMPI(x) })
				w.give(string(secret), func(b []byte) { pgp.EncodePacket(pgp.PacketTagUserID, b) })
				data := append([]byte("data"), secret...)
				w.give(string(data), func(b []byte) {
					fp := append(make([]byte, 0, 64), secret[:20]...)
					sp := []*pgp.Subpacket{{Type: pgp.SubpacketTypeKeyFlags, Body: []byte{1}}, {Type: pgp.SubpacketTypeFeatures, Body: []byte{1}}}
					room := append(make([]*pgp.Subpacket, 0, 8), sp...)
					key := ed25519.NewKeyFromSeed(secret)
					req := &pgp.SignatureRequest{SigningKeyFingerprint: fp, HashFunction: pgp.HashFuncSHA256, Data: b, Type: pgp.SignatureTypeSubkeyBinding, HashedSubpackets: room, UnhashedSubpackets: room[:1:1], Time: t}
					x := pgp.Sign(key, req).EncodePacket()
					y := pgp.Sign(key, req).EncodePacket()
					if !bytes.Equal(x, y) {
						w.fault = errors.New("signing the same request again gives another signature")
					}
					if !bytes.Equal(fp, secret[:20]) || !bytes.Equal(fp[:64][20:], make([]byte, 44)) || len(req.HashedSubpackets) != 2 || req.HashedSubpackets[0] != sp[0] || req.HashedSubpackets[1] != sp[1] || room[:8][2] != nil || !bytes.Equal(sp[0].Body, []byte{1}) {
						w.fault = errors.New("the signature request was changed")
					}
				})
			}
			return w.fault
		})
	}
}
