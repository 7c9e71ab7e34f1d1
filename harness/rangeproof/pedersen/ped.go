package pedersen

import (
	"bytes"
	"io"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
)

func vhScalars(name string, n int) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = nd.Scalar(name)
	}
	return out
}

func vhGens(seed []byte, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		if i == 0 {
			out[i].Derive(seed)
		} else {
			out[i].Derive(out[i-1].Bytes())
		}
	}
	return out
}

func vhSumOf(v []ristretto.Scalar, g []ristretto.Point) ristretto.Point {
	var s, t ristretto.Point
	s.SetZero()
	for i := range v {
		s.Add(&s, t.ScalarMult(&g[i], &v[i]))
	}
	return s
}

func vhSame(a, b []ristretto.Scalar) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// VH_R09_Scalar: commitments to single values.
func VH_R09_Scalar() {
	n := nd.Param("n")
	seed := nd.Bytes("seed", n)
	p := New(seed)
	v, w := nd.Scalar("v"), nd.Scalar("w")
	v0, w0 := v, w
	var base, blind ristretto.Point
	base.Derive([]byte("blindPoint"))
	blind.SetBase()
	c := p.CommitToScalar(v)
	cv, cb := c.Value, c.BlindingFactor
	d := p.CommitToScalar(w)
	q := New(append([]byte{}, seed...))
	e := q.CommitToScalar(v)
	var want, t ristretto.Point
	want.ScalarMult(&base, &v0)
	want.Add(&want, t.ScalarMult(&blind, &c.BlindingFactor))
	nd.Assert(c.Value.Equals(&want), "commitment is v*Base + blind*Blind")
	want.ScalarMult(&base, &w0)
	want.Add(&want, t.ScalarMult(&blind, &d.BlindingFactor))
	nd.Assert(d.Value.Equals(&want), "second commitment is w*Base + blind*Blind")
	nd.Assert(c.Value.Equals(&cv) && c.BlindingFactor.Equals(&cb), "earlier commitments unchanged")
	nd.Assert(!c.BlindingFactor.Equals(&d.BlindingFactor), "blinding factors are fresh")
	nd.Assert(!c.BlindingFactor.Equals(&e.BlindingFactor) && !d.BlindingFactor.Equals(&e.BlindingFactor), "blinding factors are fresh across instances")
	var zero, bs ristretto.Scalar
	zero.SetZero()
	nd.Assert(!c.BlindingFactor.Equals(&zero) && !c.BlindingFactor.Equals(&v0), "blinding factor is random")
	// homomorphic: the sum commits to the sum
	var sum ristretto.Point
	sum.Add(&c.Value, &d.Value)
	var vw ristretto.Scalar
	vw.Add(&v0, &w0)
	bs.Add(&c.BlindingFactor, &d.BlindingFactor)
	want.ScalarMult(&p.BasePoint, &vw)
	want.Add(&want, t.ScalarMult(&p.BlindPoint, &bs))
	nd.Assert(sum.Equals(&want), "sum of commitments commits to the sum")
	nd.Assert(v.Equals(&v0) && w.Equals(&w0), "arguments unchanged")
	nd.Assert(p.BasePoint.Equals(&base) && p.BlindPoint.Equals(&blind), "base points")
	nd.Reach("end")
}

// VH_R09_Vectors: commitments to up to three vectors, generators computed beforehand or not, twice in a row.
func VH_R09_Vectors() {
	n, spare, pre := nd.Param("n"), nd.Param("spare"), nd.Param("pre")
	k := nd.Param("k")
	lens := []int{nd.Param("l0"), nd.Param("l1"), nd.Param("l2"), nd.Param("l3")}
	b := nd.Bytes("seed", n)
	buf := make([]byte, n+spare)
	copy(buf, b)
	for i := n; i < n+spare; i++ {
		buf[i] = 0xA5
	}
	seed := buf[:n]
	p := New(seed)
	p.BaseVector.Compute(uint32(pre))
	var vs, vs0 [][]ristretto.Scalar
	for i := 0; i < k; i++ {
		v := vhScalars("v", lens[i])
		vs = append(vs, v)
		vs0 = append(vs0, append([]ristretto.Scalar{}, v...))
	}
	for round := 0; round < 2; round++ {
		kept := append([]ristretto.Point{}, p.BaseVector.Bases...)
		c := p.CommitToVectors(vs...)
		c2 := p.CommitToVectors(vs...)
		var want, t ristretto.Point
		want.ScalarMult(&p.BlindPoint, &c.BlindingFactor)
		for i := range vs0 {
			s := append([]byte{}, b...)
			if i > 0 {
				s = append(s, byte(i))
			}
			t = vhSumOf(vs0[i], vhGens(s, lens[i]))
			want.Add(&want, &t)
		}
		nd.Assert(c.Value.Equals(&want), "commitment is the blinded sum of values times their own generators")
		nd.Assert(!c.BlindingFactor.Equals(&c2.BlindingFactor), "blinding factors are fresh")
		var zero ristretto.Scalar
		zero.SetZero()
		nd.Assert(!c.BlindingFactor.Equals(&zero), "blinding factor is random")
		for i := range kept {
			nd.Assert(kept[i].Equals(&p.BaseVector.Bases[i]), "earlier generators unchanged")
		}
	}
	for i := range vs {
		nd.Assert(vhSame(vs[i], vs0[i]), "vectors unchanged")
	}
	for i := n; i < n+spare; i++ {
		nd.Assert(buf[i] == 0xA5, "the caller's memory is not written")
	}
	nd.Assert(bytes.Equal(seed, b) && bytes.Equal(p.GenData, b), "seed unchanged")
	nd.Reach("end")
}

// VH_R09_SharedSeed: two instances made from slices of one buffer do not disturb each other.
func VH_R09_SharedSeed() {
	n := nd.Param("n")
	buf := nd.Bytes("seed", n+2)
	buf0 := append([]byte{}, buf...)
	p, q := New(buf[:n]), New(buf[:n+2])
	v, w := vhScalars("v", 1), vhScalars("w", 2)
	c := p.CommitToVectors(v, w)
	d := q.CommitToVectors(v, w)
	for i, com := range []Commitment{c, d} {
		s := buf0[:n]
		if i == 1 {
			s = buf0
		}
		var want, t ristretto.Point
		want.ScalarMult(&p.BlindPoint, &com.BlindingFactor)
		t = vhSumOf(v, vhGens(append([]byte{}, s...), 1))
		want.Add(&want, &t)
		t = vhSumOf(w, vhGens(append(append([]byte{}, s...), 1), 2))
		want.Add(&want, &t)
		nd.Assert(com.Value.Equals(&want), "each instance uses its own seed")
	}
	nd.Assert(bytes.Equal(buf, buf0), "the caller's buffer is not written")
	g := generator.New(buf0[:n])
	g.Compute(1)
	nd.Assert(p.BaseVector.Bases[0].Equals(&g.Bases[0]), "base vector is the generator sequence of the seed")
	nd.Reach("end")
}

// VH_R05_Commitments: a list of commitments through the wire format.
func VH_R05_Commitments() {
	n, trail := nd.Param("n"), nd.Param("trail")
	cs := make([]Commitment, n)
	for i := range cs {
		cs[i].Value = nd.Point("p")
		cs[i].BlindingFactor = nd.Scalar("b")
	}
	cs0 := append([]Commitment{}, cs...)
	buf := &bytes.Buffer{}
	nd.Assert(EncodeCommitments(buf, cs) == nil, "encoding succeeds")
	nd.Assert(buf.Len() == 4+32*n, "encoding has the fixed size")
	extra := nd.Bytes("trail", trail)
	buf.Write(extra)
	got, err := DecodeCommitments(buf)
	nd.Assert(err == nil, "decoding succeeds")
	nd.Assert(len(got) == n, "decoded as many commitments")
	for i := range got {
		nd.Assert(got[i].Value.Equals(&cs0[i].Value) && got[i].EqualValue(cs0[i]), "decoded commitment")
		nd.Assert(cs[i].Equals(cs0[i]), "encoding changes nothing")
		one := &bytes.Buffer{}
		nd.Assert(cs[i].Encode(one) == nil && one.Len() == 32, "single encoding")
		var d Commitment
		nd.Assert(d.Decode(one) == nil && d.Value.Equals(&cs0[i].Value), "single round trip")
	}
	nd.Assert(bytes.Equal(buf.Bytes(), extra), "exactly the encoding is consumed")
	nd.Reach("end")
}

// vhValid: p is the valid group element that the first 32 bytes of b encode.
func vhValid(p *ristretto.Point, b []byte) {
	var buf [32]byte
	copy(buf[:], b)
	var q ristretto.Point
	nd.Assert(q.SetBytes(&buf), "only valid points are accepted")
	nd.Assert(bytes.Equal(q.Bytes(), p.Bytes()), "each point is the one encoded")
}

// VH_R06_Commitments: hostile bytes.
func VH_R06_Commitments() {
	n := nd.Param("n")
	b := nd.Bytes("b", n)
	nd.AllocLimit(1 << 20)
	nd.StepLimit(2000000)
	r := bytes.NewReader(b)
	got, err := DecodeCommitments(r)
	if err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(n-r.Len() == 4+32*len(got), "accounts for every byte consumed")
	want := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	nd.Assert(uint32(len(got)) == want, "as many commitments as announced")
	for i := range got {
		vhValid(&got[i].Value, b[4+32*i:])
	}
	nd.Reach("ok")
}

// VH_R06_Commitment: a single commitment.
func VH_R06_Commitment() {
	n := nd.Param("n")
	b := nd.Bytes("b", n)
	r := bytes.NewReader(b)
	var c Commitment
	if err := c.Decode(r); err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(n-r.Len() == 32, "accounts for every byte consumed")
	vhValid(&c.Value, b)
	nd.Reach("ok")
}

// VH_R07_Commitment: equality.
func VH_R07_Commitment() {
	var c, d Commitment
	c.Value, c.BlindingFactor = nd.Point("p"), nd.Scalar("b")
	d.Value, d.BlindingFactor = nd.Point("q"), nd.Scalar("d")
	pv := c.Value.Equals(&d.Value)
	bv := c.BlindingFactor.Equals(&d.BlindingFactor)
	nd.Assert(c.EqualValue(d) == pv && d.EqualValue(c) == pv, "EqualValue compares the points")
	nd.Assert(c.Equals(d) == (pv && bv) && d.Equals(c) == (pv && bv), "Equals compares points and blinding factors")
	nd.Assert(c.Equals(c) && d.EqualValue(d), "reflexive")
	nd.Reach("end")
}

// vhPieces is a reader that delivers at most a few bytes at a time, as a connection may.
type vhPieces struct {
	b []byte
	n int
}

func (r *vhPieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	k := copy(p, r.b)
	r.b = r.b[k:]
	return k, nil
}

// VH_R06_Pieces: hostile bytes are treated alike in pieces.
func VH_R06_Pieces() {
	b := nd.Bytes("b", nd.Param("n"))
	p, err1 := DecodeCommitments(bytes.NewReader(b))
	q, err2 := DecodeCommitments(&vhPieces{b, nd.Param("piece")})
	nd.Assert((err1 == nil) == (err2 == nil), "decoding depends on the bytes alone")
	if err1 != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(len(p) == len(q), "as does the number of commitments")
	for i := range p {
		nd.Assert(p[i].Equals(q[i]), "as do the commitments")
	}
	nd.Reach("ok")
}

// VH_R09_Many: in a long list of vectors each has generators of its own.
func VH_R09_Many() {
	k, a, b := nd.Param("k"), nd.Param("a"), nd.Param("b")
	p := New([]byte("seed"))
	values := func(v, w ristretto.Scalar) ristretto.Point {
		vs := make([][]ristretto.Scalar, k)
		vs[a], vs[b] = []ristretto.Scalar{v}, []ristretto.Scalar{w}
		c := p.CommitToVectors(vs...)
		var t ristretto.Point
		t.ScalarMult(&p.BlindPoint, &c.BlindingFactor)
		t.Sub(&c.Value, &t)
		return t
	}
	v, w, v2, w2 := nd.Scalar("v"), nd.Scalar("w"), nd.Scalar("v"), nd.Scalar("w")
	x, y := values(v, w), values(v2, w2)
	same := v.Equals(&v2) && w.Equals(&w2)
	nd.Assert(x.Equals(&y) == same, "different values, different commitments")
	nd.Reach("end")
}
