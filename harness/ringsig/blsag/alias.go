package blsag

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_S02_Surplus: an honest signature with something missing or too much.
func VH_S02_Surplus() {
	n := nd.Param("n")
	nd.RandChoices(1)
	x := nd.NonZero("x")
	msg := nd.Bytes("msg", 4)
	f := Sign(msg, vhRandomKeys(n), x)
	nd.Assert(Verify(msg, f), "the honest signature verifies")
	p := vhRandomKeys(1)[0]
	var s, zero ristretto.Scalar
	s.Rand()
	zero.SetZero()
	switch nd.Param("how") {
	case 0:
		f.S = append(f.S, s)
	case 1:
		f.S = append(f.S, zero)
	case 2:
		f.S = append(f.S, f.S[0])
	case 3:
		f.S = f.S[:n]
	case 4:
		f.S = nil
	case 5:
		f.PubKeys = append(f.PubKeys, p)
	case 6:
		f.PubKeys = append(f.PubKeys, f.PubKeys[0])
	case 7:
		f.PubKeys = f.PubKeys[:n]
	case 8:
		f.PubKeys = nil
	case 9:
		p.SetZero()
		f.PubKeys = append(f.PubKeys, p)
	case 10:
		f.S = append([]ristretto.Scalar{s}, f.S...)
	case 11:
		f.PubKeys = append([]ristretto.Point{p}, f.PubKeys...)
	case 12:
		f.S, f.PubKeys = nil, nil
	case 13:
		f.S = append(f.S, f.S...)
	}
	nd.Assert(!Verify(msg, f), "a malformed signature is rejected")
	nd.Reach("end")
}

// VH_S01_Coincide: given keys that equal each other or the signer's own.
func VH_S01_Coincide() {
	n, pat := nd.Param("n"), nd.Param("pat")
	nd.RandChoices(nd.Param("picks"))
	var x ristretto.Scalar
	x.Rand()
	own := vhG(&x)
	var zero ristretto.Point
	zero.SetZero()
	pool := []ristretto.Point{vhRandomKeys(1)[0], own, zero}
	var mixin []ristretto.Point
	for i := 0; i < n; i++ {
		mixin = append(mixin, pool[pat%3])
		pat /= 3
	}
	keep := append([]ristretto.Point{}, mixin...)
	msg := nd.Bytes("msg", 4)
	sig := Sign(msg, mixin, x)
	nd.Assert(vhRing(sig.PubKeys, keep, &own), "the ring is the given keys and the signer's own")
	nd.Assert(Verify(msg, sig), "the signature verifies")
	nd.Assert(vhSame(mixin, keep), "the caller's keys are as they were")
	I := vhImage(&x)
	nd.Assert(sig.I.Equals(&I), "the key image is that of the key")
	nd.Reach("end")
}
