// realcheck runs fixed vectors through the library built with the real Argon2id.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/kklash/mnemonikey"
)

type vector struct {
	seed                    string
	unix                    int64
	enc, auth, sig          uint16
	master, fe, fa, fs      string
	password, phrase, wrong string
}

var vectors = []vector{
	// Seed and fingerprint of the repository's own TestMnemonikey.
	{seed: "0194fdc2fa2ffcc041d3ff12045b73c8", unix: 1673800000, enc: 0, auth: 0, sig: 0, master: "149EE476771DBD4E19D1FB0FC1A9CE93575CA7FA", fe: "C41193904F9CAE4D48E2849D14CF1F4A2D4B2A41", fa: "28CA0E10C473307BAEF38CF1F3853A182156D70D", fs: "D1DC7952699B1A84F9ECA2F982CE6D4597FEBD52"},
	{seed: "00000000000000000000000000000000", unix: 1672531200, enc: 1, auth: 2, sig: 3, master: "8C46479F8EF62308E0B076A51CBCF089538BCA94", fe: "AD8FDD5DE549EF6D0A9DED2049FC7C2FF894D99D", fa: "C2EA11B7733922950D9101BE5C9EB477008CBB69", fs: "32F5834A57E8460F436B5DC6F378F59A6191FECE"},
	{seed: "00000000000000000000000000000000", unix: 1672543545, password: "correct horse", phrase: "beverage meatball cradle deposit wig polished laptop broach cryptic eloquent cuff calypso outtake aardvark airbrush hunter", wrong: "wrong"},
	{seed: "00000000000000000000000001234567", unix: 3820014847, enc: 65535, auth: 256, sig: 255, master: "4FE334E890CC3BFAF05C2B63B1CA483C040065F7", fe: "35274C9CB38F69FE3C2235025799E8DEE59A3CDD", fa: "1454B135DD3E7652CEA060311CAF846CA01B1DDA", fs: "886B049CDA906F36C29E09986CD3D26C4770B32C"},
}

func main() {
	fail := false
	for i, v := range vectors {
		if err := run(v); err != nil {
			fmt.Printf("vector %d: %v\n", i, err)
			fail = true
			continue
		}
		fmt.Println("vector ok")
	}
	if fail {
		os.Exit(1)
	}
}

func run(v vector) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	n, _ := new(big.Int).SetString(v.seed, 16)
	if v.phrase != "" {
		d, err := mnemonikey.DecodeMnemonic(strings.Fields(v.phrase))
		if err != nil {
			return err
		}
		s, err := d.DecryptSeed([]byte(v.password))
		if err != nil {
			return err
		}
		if s.Int().Cmp(n) != 0 || d.Creation().Unix() != v.unix {
			return fmt.Errorf("phrase %q opens to seed %x at %d", v.phrase, s.Int(), d.Creation().Unix())
		}
		if _, err := d.DecryptSeed([]byte(v.wrong)); !errors.Is(err, mnemonikey.ErrMnemonicDecryption) {
			return fmt.Errorf("wrong password: %v", err)
		}
		return nil
	}
	s, err := mnemonikey.NewSeed(0, n)
	if err != nil {
		return err
	}
	k, err := mnemonikey.New(s, time.Unix(v.unix, 0), &mnemonikey.KeyOptions{
		EncryptionSubkeyIndex: v.enc, AuthenticationSubkeyIndex: v.auth, SigningSubkeyIndex: v.sig,
	})
	if err != nil {
		return err
	}
	got := fmt.Sprintf("%X %X %X %X", k.Fingerprint(), k.SubkeyFingerprint("encryption"), k.SubkeyFingerprint("authentication"), k.SubkeyFingerprint("signing"))
	if want := strings.Join([]string{v.master, v.fe, v.fa, v.fs}, " "); got != want {
		return fmt.Errorf("seed %s at %d: keys %s, want %s", v.seed, v.unix, got, want)
	}
	return nil
}
