package hash

import (
	"bytes"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	"golang.org/x/crypto/sha3"
)

func vhOp(op int, b []byte) ([]byte, error) {
	switch op {
	case 0:
		return Blake2b256(b)
	case 1:
		return Blake2b512(b)
	case 2:
		return Sha3256(b)
	case 3:
		return Sha3512(b)
	case 4:
		return Xxhash(b)
	case 5:
		return PerformHash(sha3.New256(), b)
	}
	k, err := Checksum(b)
	return []byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}, err
}

// VH_C01_Hash: two hashes at the same time.
func VH_C01_Hash() {
	op, other := nd.Param("op"), nd.Param("other")
	x := nd.Bytes("x", nd.Param("n"))
	y := nd.Bytes("y", nd.Param("m"))
	if nd.Param("same") == 1 {
		y = x
	}
	var a, b []byte
	var e, f error
	nd.Concurrently(func() { a, e = vhOp(op, x) }, func() { b, f = vhOp(other, y) })
	a2, e2 := vhOp(op, x)
	b2, f2 := vhOp(other, y)
	nd.Assert(e == nil && f == nil && e2 == nil && f2 == nil, "no error")
	nd.Assert(bytes.Equal(a, a2) && bytes.Equal(b, b2), "each hash is that of its input")
	nd.Reach("end")
}

// VH_C01_Entropy: random bytes for two callers.
func VH_C01_Entropy() {
	n := nd.Param("n")
	var a, b []byte
	var e, f error
	nd.Concurrently(func() { a, e = RandEntropy(uint32(n)) }, func() { b, f = RandEntropy(uint32(n)) })
	nd.Assert(e == nil && f == nil && len(a) == n && len(b) == n, "no error")
	keep := append([]byte{}, b...)
	for i := range a {
		a[i] ^= 0xff
	}
	nd.Assert(bytes.Equal(b, keep), "each has its own bytes")
	nd.Reach("end")
}
