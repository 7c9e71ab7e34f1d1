package bls

import (
	"bytes"
	"math/big"

	"github.com/dusk-network/bn256"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhTimes is a signature times a public number.
func vhTimes(s *Signature, k *big.Int) *Signature {
	g := new(bn256.G1)
	_, err := g.Unmarshal(s.Marshal())
	nd.Assert(err == nil, "decoding succeeds")
	r := new(bn256.G1)
	r.ScalarMult(g, k)
	t, err := UnmarshalSignature(r.Marshal())
	nd.Assert(err == nil, "decoding succeeds")
	return t
}

// vhOthers are n+1 messages, the last of which differs from the others.
func vhOthers(n, size int) [][]byte {
	var out [][]byte
	for i := 0; i <= n; i++ {
		out = append(out, nd.Bytes("msg", size))
	}
	for i := 0; i < n; i++ {
		nd.Assume(!bytes.Equal(out[i], out[n]))
	}
	return out
}

// VH_B05_Combine: a combination of signatures on other messages, and of the message's own hash point, with factors
// that do not depend on hashes, is no signature.
func VH_B05_Combine() {
	n := nd.Param("n")
	s := vhKeys(nd.Param("signers"))
	apk := vhApk(s, 0)
	msgs := vhOthers(n, nd.Param("size"))
	var sum *Signature
	for i := 0; i < n; i++ {
		sig := vhSigs(s, msgs[i], 0)
		k := new(big.Int).SetBytes(nd.Bytes("k", 2))
		sig = vhTimes(sig, k)
		if i == 0 {
			sum = sig
		} else {
			sum.Aggregate(sig)
		}
	}
	nd.Assert(Verify(apk, msgs[n], sum) != nil, "signatures on other messages give none on this")
	nd.Reach("end")
}

// VH_B05_Plain: the same without the aggregate construction.
func VH_B05_Plain() {
	n := nd.Param("n")
	s := vhKey()
	msgs := vhOthers(n, nd.Param("size"))
	sum := vhUnsafe(s, msgs[0])
	for i := 1; i < n; i++ {
		sum = UnsafeAggregate(sum, vhUnsafe(s, msgs[i]))
	}
	nd.Assert(VerifyUnsafe(s.pk, msgs[n], sum) != nil, "signatures on other messages give none on this")
	nd.Reach("end")
}
