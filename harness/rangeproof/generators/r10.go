package generator

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhSpec is the definition: the first generator is derived from the seed, each next one from its predecessor.
func vhSpec(seed []byte, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		if i == 0 {
			out[i].Derive(seed)
		} else {
			out[i].Derive(out[i-1].Bytes())
		}
	}
	return out
}

func vhSeed(name string, n, spare int) []byte {
	b := nd.Bytes(name, n)
	buf := make([]byte, n+spare)
	copy(buf, b)
	for i := n; i < n+spare; i++ {
		buf[i] = 0xA5
	}
	return buf[:n]
}

func vhPts(a, b []ristretto.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

// VH_R10_Sequence: portions a, b, c of one sequence.
func VH_R10_Sequence() {
	n, spare := nd.Param("n"), nd.Param("spare")
	a, b, c := nd.Param("a"), nd.Param("b"), nd.Param("c")
	seed := vhSeed("seed", n, spare)
	seed0 := append([]byte{}, seed...)
	want := vhSpec(seed0, a+b+c)
	g := New(seed)
	nd.Assert(len(g.Bases) == 0, "a new sequence is empty")
	first := g.Iterate()
	nd.Assert(len(g.Bases) == 0, "looking at the next generator does not advance")
	if a+b+c > 0 {
		nd.Assert(first.Equals(&want[0]), "first generator")
	}
	g.Compute(uint32(a))
	nd.Assert(vhPts(g.Bases, want[:a]), "first portion")
	kept := append([]ristretto.Point{}, g.Bases...)
	alias := g.Bases
	g.Compute(uint32(b))
	nd.Assert(vhPts(g.Bases, want[:a+b]), "second portion")
	nd.Assert(vhPts(kept, want[:a]) && vhPts(alias, want[:a]), "earlier generators unchanged")
	// the caller reuses its seed buffer: the sequence is not affected
	full := seed[:cap(seed)]
	for i := n; i < len(full); i++ {
		nd.Assert(full[i] == 0xA5, "the caller's memory is not written")
	}
	nd.Assert(bytes.Equal(seed, seed0), "the caller's seed is not written")
	g.Compute(uint32(c))
	nd.Assert(vhPts(g.Bases, want), "third portion")
	// an independent instance agrees
	h := New(append([]byte{}, seed0...))
	h.Compute(uint32(a + b + c))
	nd.Assert(vhPts(g.Bases, h.Bases), "equal seeds agree")
	// clearing and recomputing agrees
	g.Clear()
	nd.Assert(len(g.Bases) == 0, "clear empties")
	g.Compute(uint32(c))
	nd.Assert(vhPts(g.Bases, want[:c]), "recomputed after clear")
	nd.Reach("end")
}

// VH_R10_SeedKept: changing the buffer the seed came from does not change the sequence.
func VH_R10_SeedKept() {
	n := nd.Param("n")
	seed := nd.Bytes("seed", n)
	seed0 := append([]byte{}, seed...)
	g := New(seed)
	for i := range seed {
		seed[i] ^= 0x5A
	}
	g.Compute(3)
	nd.Assert(vhPts(g.Bases, vhSpec(seed0, 3)), "sequence of the seed given at creation")
	g.Clear()
	g.Compute(2)
	nd.Assert(vhPts(g.Bases, vhSpec(seed0, 2)), "sequence of the seed given at creation, after clear")
	nd.Reach("end")
}

// VH_R10_Separated: different seeds (also a prefix of the other) give different generators everywhere.
func VH_R10_Separated() {
	n, k, m := nd.Param("n"), nd.Param("k"), nd.Param("m")
	s1, s2 := nd.Bytes("s1", n), nd.Bytes("s2", k)
	nd.Assume(!bytes.Equal(s1, s2))
	// a seed that is the encoding of a generator continues that sequence by definition
	g, h := New(s1), New(s2)
	g.Compute(uint32(m))
	h.Compute(uint32(m))
	for i := range g.Bases {
		nd.Assume(!bytes.Equal(g.Bases[i].Bytes(), s2) && !bytes.Equal(h.Bases[i].Bytes(), s1))
		nd.Assume(!bytes.Equal(g.Bases[i].Bytes(), s1) && !bytes.Equal(h.Bases[i].Bytes(), s2))
	}
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			nd.Assert(!g.Bases[i].Equals(&h.Bases[j]), "different seeds give different generators")
			if i != j {
				nd.Assert(!g.Bases[i].Equals(&g.Bases[j]), "generators of one seed are distinct")
			}
		}
	}
	nd.Reach("end")
}
