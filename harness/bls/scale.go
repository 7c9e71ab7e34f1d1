package bls

import (
	"math/big"

	"github.com/dusk-network/bn256"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	"golang.org/x/crypto/sha3"
)

// VH_B05_Scale: a message's hash point is a known multiple of the generator, so that a signature can be scaled to any
// other message.
func VH_B05_Scale() {
	s := vhKey()
	msgs := vhMessages(2, nd.Param("size"))
	a, b := sha3.Sum256(msgs[0]), sha3.Sum256(msgs[1])
	k := new(big.Int).SetBytes(a[:])
	k.ModInverse(k, bn256.Order)
	k.Mul(k, new(big.Int).SetBytes(b[:]))
	k.Mod(k, bn256.Order)
	forged := vhTimes(vhSign(s, msgs[0]), k)
	nd.Assert(Verify(NewApk(s.pk), msgs[1], forged) != nil, "a signature on one message gives none on another")
	nd.Reach("end")
}
