package generator

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Generators: two sequences at the same time, of the same or of different seeds.
func VH_C01_Generators() {
	n := nd.Param("n")
	s, t := nd.Bytes("s", n), nd.Bytes("t", n)
	if nd.Param("same") == 1 {
		t = s
	}
	a, b := nd.Param("a"), nd.Param("b")
	run := func(seed []byte, k int) []ristretto.Point {
		g := New(seed)
		first := g.Iterate()
		g.Compute(uint32(k))
		if k > 0 && !first.Equals(&g.Bases[0]) {
			return nil
		}
		kept := append([]ristretto.Point{}, g.Bases...)
		g.Clear()
		g.Compute(1)
		if k > 0 && !first.Equals(&g.Bases[0]) {
			return nil
		}
		return kept
	}
	var p, q []ristretto.Point
	nd.Concurrently(func() { p = run(s, a) }, func() { q = run(t, b) })
	nd.Assert(vhPts(p, vhSpec(s, a)) && vhPts(q, vhSpec(t, b)), "each is the sequence of its seed")
	nd.Reach("end")
}
