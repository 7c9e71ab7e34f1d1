package vector

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R12_Alias: both arguments lie in the same memory, off elements apart.
func VH_R12_Alias() {
	n, off := nd.Param("n"), nd.Param("off")
	mem := vhScalars("m", n+off)
	pts := make([]ristretto.Point, n+off)
	for i := range pts {
		pts[i] = nd.Point("p")
	}
	mem0 := vhCopy(mem)
	a, b, p := mem[:n], mem[off:], pts[off:]
	a0, b0 := mem0[:n], mem0[off:]
	sum, err1 := Add(a, b)
	dif, err2 := Sub(a, b)
	had, err3 := Hadamard(a, b)
	ip, err4 := InnerProduct(a, b)
	ex, err5 := Exp(a, p, n, 1)
	nd.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil && err5 == nil, "equal lengths are no error")
	nd.Assert(len(sum) == n && len(dif) == n && len(had) == n, "result lengths")
	var want, t ristretto.Scalar
	var wantP, q ristretto.Point
	want.SetZero()
	wantP.SetZero()
	for i := 0; i < n; i++ {
		nd.Assert(sum[i].Equals(t.Add(&a0[i], &b0[i])), "sum")
		nd.Assert(dif[i].Equals(t.Sub(&a0[i], &b0[i])), "difference")
		nd.Assert(had[i].Equals(t.Mul(&a0[i], &b0[i])), "Hadamard product")
		want.Add(&want, t.Mul(&a0[i], &b0[i]))
		wantP.Add(&wantP, q.ScalarMult(&p[i], &a0[i]))
	}
	nd.Assert(ip.Equals(&want), "inner product")
	nd.Assert(ex.Equals(&wantP), "multi-exponentiation")
	if n > 0 {
		// the scalar is an element of the vector
		i := nd.Choose("elem", n)
		s0 := a0[i]
		for j, v := range AddScalar(a, a[i]) {
			nd.Assert(v.Equals(t.Add(&a0[j], &s0)), "vector plus scalar")
		}
		for j, v := range SubScalar(a, a[i]) {
			nd.Assert(v.Equals(t.Sub(&a0[j], &s0)), "vector minus scalar")
		}
		for j, v := range MulScalar(a, a[i]) {
			nd.Assert(v.Equals(t.Mul(&a0[j], &s0)), "vector times scalar")
		}
	}
	nd.Assert(vhSame(mem, mem0), "arguments unchanged")
	nd.Reach("end")
}
