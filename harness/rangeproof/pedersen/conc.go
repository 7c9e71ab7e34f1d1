package pedersen

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Commit: commitments by two instances at the same time.
func VH_C01_Commit() {
	s, t := nd.Bytes("s", 3), nd.Bytes("t", 3)
	if nd.Param("same") == 1 {
		t = s
	}
	v, w := vhScalars("v", nd.Param("n")), vhScalars("w", nd.Param("m"))
	run := func(seed []byte) (Commitment, Commitment) {
		p := New(seed)
		return p.CommitToVectors(v, w), p.CommitToScalar(v[0])
	}
	var c, d [2]Commitment
	nd.Concurrently(func() { c[0], c[1] = run(s) }, func() { d[0], d[1] = run(t) })
	p := New(s)
	for i, com := range [][2]Commitment{c, d} {
		seed := s
		if i == 1 {
			seed = t
		}
		var want, x ristretto.Point
		want.ScalarMult(&p.BlindPoint, &com[0].BlindingFactor)
		x = vhSumOf(v, vhGens(append([]byte{}, seed...), len(v)))
		want.Add(&want, &x)
		x = vhSumOf(w, vhGens(append(append([]byte{}, seed...), 1), len(w)))
		want.Add(&want, &x)
		nd.Assert(com[0].Value.Equals(&want), "each commits under its own generators")
		want.ScalarMult(&p.BasePoint, &v[0])
		want.Add(&want, x.ScalarMult(&p.BlindPoint, &com[1].BlindingFactor))
		nd.Assert(com[1].Value.Equals(&want), "each commits to its value")
	}
	nd.Assert(!c[0].BlindingFactor.Equals(&d[0].BlindingFactor) && !c[1].BlindingFactor.Equals(&d[1].BlindingFactor), "blinding factors are fresh")
	nd.Reach("end")
}

// VH_C01_Shared: one instance committing to single values for two callers, and commitments read by both.
func VH_C01_Shared() {
	p := New(nd.Bytes("s", 3))
	v, w := nd.Scalar("v"), nd.Scalar("w")
	var c, d Commitment
	nd.Concurrently(func() { c = p.CommitToScalar(v) }, func() { d = p.CommitToScalar(w) })
	for i, com := range []Commitment{c, d} {
		x := v
		if i == 1 {
			x = w
		}
		var want, t ristretto.Point
		want.ScalarMult(&p.BasePoint, &x)
		want.Add(&want, t.ScalarMult(&p.BlindPoint, &com.BlindingFactor))
		nd.Assert(com.Value.Equals(&want), "each commits to its value")
	}
	list := []Commitment{c, d}
	a, b := &bytes.Buffer{}, &bytes.Buffer{}
	var e, f error
	var l []Commitment
	nd.Concurrently(func() { e = EncodeCommitments(a, list) }, func() {
		f = EncodeCommitments(b, list)
		if f == nil {
			l, f = DecodeCommitments(bytes.NewReader(b.Bytes()))
		}
	})
	nd.Assert(e == nil && f == nil, "no error")
	nd.Assert(bytes.Equal(a.Bytes(), b.Bytes()), "the same encoding")
	nd.Assert(len(l) == 2 && l[0].EqualValue(c) && l[1].EqualValue(d), "decoded again")
	nd.Reach("end")
}
