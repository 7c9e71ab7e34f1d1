package innerproduct

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R08_Alias: arguments that share memory: the points (share&1), the scalars (share&2), the factors with a (share&4).
func VH_R08_Alias() {
	n, share := nd.Param("n"), nd.Param("share")
	G, H := vhPoints("G", n), vhPoints("H", n)
	a, b, f := vhScalars("a", n), vhScalars("b", n), vhScalars("f", n)
	if share&1 != 0 {
		H = G
	}
	if share&2 != 0 {
		b = a
	}
	if share&4 != 0 {
		f = a
	}
	Q := nd.Point("Q")
	G0, H0 := append([]ristretto.Point{}, G...), append([]ristretto.Point{}, H...)
	a0, b0, f0 := append([]ristretto.Scalar{}, a...), append([]ristretto.Scalar{}, b...), append([]ristretto.Scalar{}, f...)
	P := vhCommit(G, H, a, b, f, &Q)
	p, err := Generate(G, H, a, b, f, Q)
	nd.Assert(err == nil && p != nil, "a proof is generated")
	nd.Assert(vhSameP(G, G0) && vhSameP(H, H0) && vhSameS(a, a0) && vhSameS(b, b0) && vhSameS(f, f0), "inputs unchanged")
	nd.Assert(p.Verify(G, H, p.L, p.R, f, Q, P, n), "the proof verifies for the commitment")
	nd.Assert(vhSameP(G, G0) && vhSameP(H, H0) && vhSameS(f, f0), "inputs unchanged by verifying")
	nd.Reach("end")
}
