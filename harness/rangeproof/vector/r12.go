package vector

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

func vhScalars(name string, n int) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = nd.Scalar(name)
	}
	return out
}

func vhPoints(name string, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		out[i] = nd.Point(name)
	}
	return out
}

func vhCopy(a []ristretto.Scalar) []ristretto.Scalar {
	out := make([]ristretto.Scalar, len(a))
	copy(out, a)
	return out
}

func vhSame(a, b []ristretto.Scalar) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if !a[i].Equals(&b[i]) {
			ok = false
		}
	}
	return ok
}

func vhSamePts(a, b []ristretto.Point) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if !a[i].Equals(&b[i]) {
			ok = false
		}
	}
	return ok
}

// VH_R12_Pairwise: operations on two vectors of lengths n and k.
func VH_R12_Pairwise() {
	n, k := nd.Param("n"), nd.Param("k")
	a, b := vhScalars("a", n), vhScalars("b", k)
	a0, b0 := vhCopy(a), vhCopy(b)
	sum, err1 := Add(a, b)
	dif, err2 := Sub(a, b)
	had, err3 := Hadamard(a, b)
	ip, err4 := InnerProduct(a, b)
	if n != k {
		nd.Assert(err1 != nil && err2 != nil && err3 != nil && err4 != nil, "mismatched lengths are an error")
		nd.Reach("mismatch")
		return
	}
	nd.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "equal lengths are no error")
	nd.Assert(len(sum) == n && len(dif) == n && len(had) == n, "result lengths")
	var want, t ristretto.Scalar
	want.SetZero()
	for i := 0; i < n; i++ {
		nd.Assert(sum[i].Equals(t.Add(&a0[i], &b0[i])), "sum")
		nd.Assert(dif[i].Equals(t.Sub(&a0[i], &b0[i])), "difference")
		nd.Assert(had[i].Equals(t.Mul(&a0[i], &b0[i])), "Hadamard product")
		want.Add(&want, t.Mul(&a0[i], &b0[i]))
	}
	nd.Assert(ip.Equals(&want), "inner product")
	nd.Assert(vhSame(a, a0) && vhSame(b, b0), "arguments unchanged")
	nd.Reach("match")
}

// VH_R12_Scalar: operations on a vector and a scalar.
func VH_R12_Scalar() {
	n := nd.Param("n")
	a := vhScalars("a", n)
	s := nd.Scalar("s")
	switch nd.Choose("special", 3) {
	case 1:
		s.SetZero()
	case 2:
		s.SetOne()
	}
	a0 := vhCopy(a)
	s0 := s
	add := AddScalar(a, s)
	sub := SubScalar(a, s)
	mul := MulScalar(a, s)
	neg := Neg(a)
	con := FromScalar(s, uint32(n))
	nd.Assert(len(add) == n && len(sub) == n && len(mul) == n && len(neg) == n && len(con) == n, "result lengths")
	var t ristretto.Scalar
	for i := 0; i < n; i++ {
		nd.Assert(add[i].Equals(t.Add(&a0[i], &s0)), "vector plus scalar")
		nd.Assert(sub[i].Equals(t.Sub(&a0[i], &s0)), "vector minus scalar")
		nd.Assert(mul[i].Equals(t.Mul(&a0[i], &s0)), "vector times scalar")
		nd.Assert(neg[i].Equals(t.Neg(&a0[i])), "negation")
		nd.Assert(con[i].Equals(&s0), "constant vector")
	}
	nd.Assert(vhSame(a, a0) && s.Equals(&s0), "arguments unchanged")
	nd.Reach("end")
}

// VH_R12_Powers: powers and their sum.
func VH_R12_Powers() {
	n := nd.Param("n")
	s := nd.Scalar("s")
	switch nd.Choose("special", 3) {
	case 1:
		s.SetZero()
	case 2:
		s.SetOne()
	}
	s0 := s
	pw := ScalarPowers(s, uint32(n))
	sum := ScalarPowersSum(s, uint64(n))
	nd.Assert(len(pw) == n, "number of powers")
	var p, want ristretto.Scalar
	p.SetOne()
	want.SetZero()
	for i := 0; i < n; i++ {
		nd.Assert(pw[i].Equals(&p), "power")
		want.Add(&want, &p)
		p.Mul(&p, &s0)
	}
	nd.Assert(sum.Equals(&want), "sum of powers")
	nd.Assert(s.Equals(&s0), "arguments unchanged")
	nd.Reach("end")
}

// VH_R12_Exp: multi-exponentiation.
func VH_R12_Exp() {
	n, k, nm, m := nd.Param("n"), nd.Param("k"), nd.Param("nn"), nd.Param("m")
	a, b := vhScalars("a", n), vhPoints("b", k)
	a0 := vhCopy(a)
	b0 := make([]ristretto.Point, k)
	copy(b0, b)
	r, err := Exp(a, b, nm, m)
	if n != k || n < nm*m {
		nd.Assert(err != nil, "mismatched lengths are an error")
		return
	}
	nd.Assert(err == nil, "matching lengths are no error")
	var want, t ristretto.Point
	want.SetZero()
	for i := 0; i < n; i++ {
		want.Add(&want, t.ScalarMult(&b0[i], &a0[i]))
	}
	nd.Assert(r.Equals(&want), "multi-exponentiation")
	nd.Assert(vhSame(a, a0) && vhSamePts(b, b0), "arguments unchanged")
	nd.Reach("end")
}

// VH_R12_Split: splitting.
func VH_R12_Split() {
	n := nd.Param("n")
	a, b := vhScalars("a", n), vhPoints("b", n)
	a0 := vhCopy(a)
	b0 := make([]ristretto.Point, n)
	copy(b0, b)
	k := nd.U32("k")
	l1, r1, err1 := SplitScalars(a, k)
	l2, r2, err2 := SplitPoints(b, k)
	if n == 0 || k >= uint32(n) {
		nd.Assert(err1 != nil && err2 != nil, "split outside the vector is an error")
		return
	}
	nd.Assert(err1 == nil && err2 == nil, "split inside the vector is no error")
	nd.Assert(len(l1) == int(k) && len(l2) == int(k) && len(r1) == n-int(k) && len(r2) == n-int(k), "split lengths")
	for i := 0; i < int(k); i++ {
		nd.Assert(l1[i].Equals(&a0[i]) && l2[i].Equals(&b0[i]), "left part")
	}
	for i := int(k); i < n; i++ {
		nd.Assert(r1[i-int(k)].Equals(&a0[i]) && r2[i-int(k)].Equals(&b0[i]), "right part")
	}
	nd.Assert(vhSame(a, a0) && vhSamePts(b, b0), "arguments unchanged")
	nd.Reach("end")
}
