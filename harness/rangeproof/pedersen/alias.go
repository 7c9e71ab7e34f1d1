package pedersen

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R09_Alias: the vectors lie in the same memory, off elements apart.
func VH_R09_Alias() {
	n, off, k := nd.Param("n"), nd.Param("off"), nd.Param("k")
	b := nd.Bytes("seed", 2)
	mem := vhScalars("m", n+(k-1)*off)
	mem0 := append([]ristretto.Scalar{}, mem...)
	var vs [][]ristretto.Scalar
	for i := 0; i < k; i++ {
		vs = append(vs, mem[i*off:i*off+n])
	}
	p := New(b)
	c := p.CommitToVectors(vs...)
	var want, t ristretto.Point
	want.ScalarMult(&p.BlindPoint, &c.BlindingFactor)
	for i := 0; i < k; i++ {
		s := append([]byte{}, b...)
		if i > 0 {
			s = append(s, byte(i))
		}
		t = vhSumOf(mem0[i*off:i*off+n], vhGens(s, n))
		want.Add(&want, &t)
	}
	nd.Assert(c.Value.Equals(&want), "commitment is the blinded sum of values times their own generators")
	nd.Assert(vhSame(mem, mem0), "vectors unchanged")
	nd.Reach("end")
}
