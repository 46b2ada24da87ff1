//go:build nopgp

package main

import "verif/mc"

func c05PGP(c *mc.Ctx) {
	c.Cap("the key constructors themselves, on crafted 32-byte seeds: not explored, package pgp exports other names now")
}
func c08PGP(c *mc.Ctx) {
	c.Cap("key sets of crafted secrets: not explored, package pgp exports other names now")
}
func c09PGP(c *mc.Ctx) {
	c.Cap("locked secret packets of crafted secrets: not explored, package pgp exports other names now")
}
func c14PGP(c *mc.Ctx) {
	c.Cap("byte and integer arguments of the lower layers: not explored, package pgp exports other names now")
}
func c35(c *mc.Ctx) {
	c.Cap("package pgp by itself: not explored, it exports other names now")
}
