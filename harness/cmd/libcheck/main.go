// libcheck explores the exported library API against the reference model.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/mc"
)

var checks = map[string]func(*mc.Ctx){"C35": c35}

var assumptions = []string{
	"golang.org/x/crypto/argon2 is replaced by an idealised version that binds mode, password, salt and every cost parameter (RFC 9106 H0) and skips the memory passes; the real function is exercised on fixed vectors by C05",
	"Go's crypto/ed25519, crypto/ecdh, SHA-1/SHA-2, AES and CRC-32 are trusted",
	"inputs outside the enumerated alphabets are covered only as far as the code treats them uniformly",
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "C14-fresh" {
		i, _ := strconv.Atoi(os.Args[2])
		c14Fresh(i)
		return
	}
	if len(os.Args) != 2 || checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: libcheck <property>")
		os.Exit(2)
	}
	c := mc.New(os.Args[1])
	c.Assume = assumptions
	checks[os.Args[1]](c)
	c.Finish()
}
