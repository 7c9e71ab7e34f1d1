package rangeproof

import (
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R14_Bits: the bits of every 64-bit value, exactly.
func VH_R14_Bits() {
	v := nd.U64("v")
	bc := BitCommit(new(big.Int).SetUint64(v))
	nd.Assert(len(bc.AL) == 64 && len(bc.AR) == 64, "64 bits")
	var one, zero ristretto.Scalar
	one.SetOne()
	zero.SetZero()
	for i := 0; i < 64; i++ {
		bit := zero
		if v>>uint(i)&1 == 1 {
			bit = one
		}
		var less ristretto.Scalar
		less.Sub(&bit, &one)
		nd.Assert(bc.AL[i].Equals(&bit), "aL holds the bits of the value, the lowest first")
		nd.Assert(bc.AR[i].Equals(&less), "aR is aL minus one")
	}
	nd.Reach("end")
}

// vhWindow: eight arbitrary bits at a place, the others all of one kind.
func vhWindow(name string) uint64 {
	at := uint(nd.Param("at"))
	v := uint64(nd.Byte(name)) << at
	if nd.Param("ones") == 1 {
		v |= ^(uint64(255) << at)
	}
	return v
}

// VH_R14_Debug: the self check accepts the value committed to and no other.
func VH_R14_Debug() {
	v, w := vhWindow("v"), vhWindow("w")
	bc := BitCommit(new(big.Int).SetUint64(v))
	nd.Assert((bc.Debug(new(big.Int).SetUint64(w)) == nil) == (v == w), "accepts its value and no other")
	if v == w {
		nd.Reach("same")
	} else {
		nd.Reach("other")
	}
}

// VH_R14_Wrong: a decomposition with one entry replaced by any scalar is refused, unless it is the same bit.
func VH_R14_Wrong() {
	v, i := vhWindow("v"), nd.Param("at")
	bc := BitCommit(new(big.Int).SetUint64(v))
	s := nd.Scalar("s")
	var same bool
	if nd.Param("right") == 1 {
		var zero ristretto.Scalar
		zero.SetZero()
		same = s.Equals(&zero) == bc.AR[i].Equals(&zero)
		bc.AR[i] = s
	} else {
		var one ristretto.Scalar
		one.SetOne()
		same = s.Equals(&one) == bc.AL[i].Equals(&one)
		bc.AL[i] = s
	}
	nd.Assert((bc.Debug(new(big.Int).SetUint64(v)) == nil) == same, "a wrong bit is noticed")
	nd.Reach("end")
}
