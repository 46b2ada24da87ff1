//go:build !nopgp

package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/kklash/mnemonikey/pgp"
)

// The calls of package pgp. Built without them (tag nopgp) if its exported names have changed.

type pgpObjs struct {
	mk    *pgp.ED25519MasterKey
	sub   *pgp.Curve25519Subkey
	edsub *pgp.ED25519Subkey
	set   *pgp.KeySet
}

func (o *objs) needPGP() {
	if o.mk == nil {
		t := creationOf(o.n)
		var err error
		o.mk, err = pgp.NewED25519MasterKey(o.kseed, t, time.Time{})
		must(err)
		o.sub, err = pgp.NewCurve25519Subkey(o.kseed, t, time.Time{}, nil)
		must(err)
		o.edsub, err = pgp.NewED25519Subkey(o.kseed, t, t.Add(time.Hour))
		must(err)
		o.set = &pgp.KeySet{UserID: &pgp.UserID{Name: "N", Email: "e@x.org"}, MasterKey: o.mk, EncryptionSubkey: o.sub, SigningSubkey: o.edsub}
	}
}

func pgpOps() []*op {
	return []*op{
		{name: "pgp keys", run: func(o *objs) string {
			t := creationOf(o.n)
			a, err := pgp.NewED25519MasterKey(o.kseed, t, time.Time{})
			if err != nil {
				return show(nil, err)
			}
			b, err := pgp.NewCurve25519Subkey(o.kseed, t, t.Add(time.Hour), pgp.DefaultKDFParameters)
			if err != nil {
				return show(nil, err)
			}
			return fmt.Sprintf("%x %x %x %x", a.FingerprintV4(), b.FingerprintV4(), a.EncodePublicPacket(), b.EncodePublicSubkeyPacket())
		}},
		{name: "pgp packets", need: (*objs).needPGP, run: func(o *objs) string {
			return sum(o.set.EncodePackets(nil)) + sum(o.set.EncodeSubkeyPackets(nil, true))
		}},
		{name: "pgp parts", need: (*objs).needPGP, run: func(o *objs) string {
			s := show(o.mk.EncodePrivatePacket(nil)) + show(o.sub.EncodePrivatePacket(nil)) + show(o.edsub.EncodePrivatePacket(nil))
			sig := o.mk.SelfCertify(o.set.UserID)
			return s + fmt.Sprintf("%x %x %x %x %x %x", o.mk.EncodePrivateDummyPacket(), o.edsub.EncodePublicSubkeyPacket(), o.edsub.FingerprintV4(), sig.EncodePacket(), o.set.UserID.EncodePacket(), pgp.EncodeMPI(o.num))
		}},
		{name: "pgp bytes", run: func(o *objs) string {
			h := pgp.HashFuncSHA256.New()
			h.Write(o.kseed)
			sp := &pgp.Subpacket{Type: pgp.SubpacketTypeCreationTime, Body: o.kseed}
			return fmt.Sprintf("%x %x %x %x", h.Sum(nil), sp.Encode(), pgp.EncodePacket(pgp.PacketTagSignature, bytes.Repeat(o.kseed, 10)), pgp.DefaultKDFParameters.Encode())
		}},
	}
}
