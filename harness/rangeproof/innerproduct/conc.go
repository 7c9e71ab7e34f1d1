package innerproduct

import (
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Argument: two arguments at the same time, over the same generators.
func VH_C01_Argument() {
	n := nd.Param("n")
	nd.FixHashes(-1)
	G, H := vhDerived("G", n), vhDerived("H", n)
	a, b, f := vhScalars("a", n), vhScalars("b", n), vhScalars("f", n)
	c, d := vhScalars("c", n), vhScalars("d", n)
	Q := vhDerived("Q", 1)[0]
	P, R := vhCommit(G, H, a, b, f, &Q), vhCommit(G, H, c, d, f, &Q)
	var p, q *Proof
	var e, g error
	nd.Concurrently(func() { p, e = Generate(G, H, a, b, f, Q) }, func() { q, g = Generate(G, H, c, d, f, Q) })
	nd.Assert(e == nil && g == nil, "both succeed")
	nd.Assert(p.Verify(G, H, p.L, p.R, f, Q, P, n) && q.Verify(G, H, q.L, q.R, f, Q, R, n), "both verify")
	var u, v bool
	nd.Concurrently(func() { u = p.Verify(G, H, p.L, p.R, f, Q, P, n) }, func() { v = p.Verify(G, H, p.L, p.R, f, Q, P, n) })
	nd.Assert(u && v, "one proof verified by two")
	nd.Concurrently(func() { p.VerifScalars() }, func() { p.VerifScalars() })
	nd.Reach("end")
}
