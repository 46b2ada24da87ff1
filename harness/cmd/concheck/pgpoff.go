//go:build nopgp

package main

type pgpObjs struct{}

func pgpOps() []*op { return nil }
