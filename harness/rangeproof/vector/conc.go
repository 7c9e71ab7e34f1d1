package vector

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

func vhOp(op int, a, b []ristretto.Scalar, p []ristretto.Point) ([]ristretto.Scalar, ristretto.Point, error) {
	var out []ristretto.Scalar
	var q ristretto.Point
	q.SetZero()
	var err error
	switch op {
	case 0:
		out, err = Add(a, b)
	case 1:
		out, err = Sub(a, b)
	case 2:
		out, err = Hadamard(a, b)
	case 3:
		var s ristretto.Scalar
		s, err = InnerProduct(a, b)
		out = []ristretto.Scalar{s}
	case 4:
		out = AddScalar(a, b[0])
	case 5:
		out = SubScalar(a, b[0])
	case 6:
		out = MulScalar(a, b[0])
	case 7:
		out = Neg(a)
	case 8:
		out = ScalarPowers(a[0], uint32(len(b)+1))
	case 9:
		out = []ristretto.Scalar{ScalarPowersSum(a[0], uint64(len(b)+1))}
	case 10:
		out = FromScalar(a[0], uint32(len(b)))
	case 11:
		q, err = Exp(a, p, len(a), 1)
	}
	return out, q, err
}

// VH_C01_Vectors: two operations at the same time, on the same vectors.
func VH_C01_Vectors() {
	n, op, other := nd.Param("n"), nd.Param("op"), nd.Param("other")
	a, b := vhScalars("a", n), vhScalars("b", n)
	p := vhPoints("p", n)
	var r, s []ristretto.Scalar
	var t, u ristretto.Point
	var e, f error
	nd.Concurrently(func() { r, t, e = vhOp(op, a, b, p) }, func() { s, u, f = vhOp(other, b, a, p) })
	r2, t2, e2 := vhOp(op, a, b, p)
	s2, u2, f2 := vhOp(other, b, a, p)
	nd.Assert(e == nil && f == nil && e2 == nil && f2 == nil, "no error")
	nd.Assert(vhSame(r, r2) && vhSame(s, s2) && t.Equals(&t2) && u.Equals(&u2), "each gives what it gives alone")
	nd.Reach("end")
}
