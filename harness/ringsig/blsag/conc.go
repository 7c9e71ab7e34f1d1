package blsag

import (
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Sign: two signers at the same time, with the same decoys.
func VH_C01_Sign() {
	nd.RandChoices(0)
	x, y := nd.Scalar("x"), nd.Scalar("y")
	mixin := vhRandomKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 4)
	var a, b RingSignature
	nd.Concurrently(func() { a = Sign(msg, mixin, x) }, func() { b = Sign(msg, mixin, y) })
	nd.Assert(Verify(msg, a) && Verify(msg, b), "both verify")
	I, J := vhImage(&x), vhImage(&y)
	nd.Assert(a.I.Equals(&I) && b.I.Equals(&J), "each has the key image of its key")
	nd.Reach("end")
}

// VH_C01_Verify: signatures verified by two callers, and one signing.
func VH_C01_Verify() {
	nd.RandChoices(0)
	x, y := nd.Scalar("x"), nd.Scalar("y")
	mixin := vhRandomKeys(nd.Param("n"))
	msg, other := nd.Bytes("msg", 4), nd.Bytes("other", 4)
	s, t := Sign(msg, mixin, x), Sign(other, mixin, y)
	var a, b bool
	switch nd.Param("how") {
	case 0:
		nd.Concurrently(func() { a = Verify(msg, s) }, func() { b = Verify(msg, s) })
	case 1:
		nd.Concurrently(func() { a = Verify(msg, s) }, func() { b = Verify(other, t) })
	case 2:
		nd.Concurrently(func() { a = Verify(msg, s) }, func() { t = Sign(msg, mixin, y) })
		b = Verify(msg, t)
	}
	nd.Assert(a && b, "both verify")
	nd.Reach("end")
}
