package innerproduct

import (
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R14_Pad: n and its padding make the smallest power of two that is not less than n.
func VH_R14_Pad() {
	n := nd.U32("n")
	nd.Assume(n >= 1 && n <= 1<<31)
	p := uint64(n) + uint64(DiffNextPow2(n))
	nd.Assert(p&(p-1) == 0, "a power of two")
	nd.Assert(p >= uint64(n), "not less than n")
	nd.Assert(p < 2*uint64(n), "the smallest of them")
	nd.Reach("end")
}
