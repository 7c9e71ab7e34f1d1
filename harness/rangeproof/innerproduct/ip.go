package innerproduct

import (
	"bytes"
	"io"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

func vhScalars(name string, n int) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = nd.Scalar(name)
	}
	return out
}

func vhPoints(name string, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		out[i] = nd.Point(name)
	}
	return out
}

func vhSameS(a, b []ristretto.Scalar) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func vhSameP(a, b []ristretto.Point) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func vhLog(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// vhCommit: <a,G> + <b*f,H> + <a,b>Q
func vhCommit(G, H []ristretto.Point, a, b, f []ristretto.Scalar, Q *ristretto.Point) ristretto.Point {
	var P, t ristretto.Point
	var c, s ristretto.Scalar
	P.SetZero()
	c.SetZero()
	for i := range a {
		P.Add(&P, t.ScalarMult(&G[i], &a[i]))
		s.Mul(&b[i], &f[i])
		P.Add(&P, t.ScalarMult(&H[i], &s))
		s.Mul(&a[i], &b[i])
		c.Add(&c, &s)
	}
	P.Add(&P, t.ScalarMult(Q, &c))
	return P
}

// vhCheck is the verification equation of the argument, written as the folding it stands for: with the challenges derived
// from all pairs sent so far, the generators fold to one pair and the commitment to A*G + B*H + A*B*Q.
func vhCheck(p *Proof, G, H []ristretto.Point, f []ristretto.Scalar, Q, P *ristretto.Point) bool {
	g := append([]ristretto.Point{}, G...)
	h := make([]ristretto.Point, len(H))
	for i := range h {
		h[i].ScalarMult(&H[i], &f[i])
	}
	var c, t ristretto.Point
	c.Set(P)
	var tr []byte
	for j := range p.L {
		tr = append(tr, p.L[j].Bytes()...)
		tr = append(tr, p.R[j].Bytes()...)
		var u, v, s ristretto.Scalar
		u.Derive(tr)
		v.Inverse(&u)
		s.Mul(&u, &u)
		c.Add(&c, t.ScalarMult(&p.L[j], &s))
		s.Mul(&v, &v)
		c.Add(&c, t.ScalarMult(&p.R[j], &s))
		n := len(g) / 2
		for i := 0; i < n; i++ {
			g[i].ScalarMult(&g[i], &v)
			g[i].Add(&g[i], t.ScalarMult(&g[i+n], &u))
			h[i].ScalarMult(&h[i], &u)
			h[i].Add(&h[i], t.ScalarMult(&h[i+n], &v))
		}
		g, h = g[:n], h[:n]
	}
	var e ristretto.Point
	var ab ristretto.Scalar
	e.ScalarMult(&g[0], &p.A)
	e.Add(&e, t.ScalarMult(&h[0], &p.B))
	ab.Mul(&p.A, &p.B)
	e.Add(&e, t.ScalarMult(Q, &ab))
	return e.Equals(&c)
}

// VH_R08_Complete: the proof generated for any vectors verifies for their commitment, and for no other point.
func VH_R08_Complete() {
	n := nd.Param("n")
	G, H := vhPoints("G", n), vhPoints("H", n)
	a, b, f := vhScalars("a", n), vhScalars("b", n), vhScalars("f", n)
	Q := nd.Point("Q")
	G0, H0 := append([]ristretto.Point{}, G...), append([]ristretto.Point{}, H...)
	a0, b0, f0 := append([]ristretto.Scalar{}, a...), append([]ristretto.Scalar{}, b...), append([]ristretto.Scalar{}, f...)
	P := vhCommit(G, H, a, b, f, &Q)
	p, err := Generate(G, H, a, b, f, Q)
	nd.Assert(err == nil && p != nil, "a proof is generated")
	nd.Assert(len(p.L) == vhLog(n) && len(p.R) == vhLog(n), "logarithmic size")
	nd.Assert(vhSameP(G, G0) && vhSameP(H, H0) && vhSameS(a, a0) && vhSameS(b, b0) && vhSameS(f, f0), "inputs unchanged by generating")
	nd.Assert(p.Verify(G, H, p.L, p.R, f, Q, P, n), "the proof verifies for the commitment")
	nd.Assert(vhSameP(G, G0) && vhSameP(H, H0) && vhSameS(f, f0), "inputs unchanged by verifying")
	other := nd.Point("P")
	nd.Assert(p.Verify(G, H, p.L, p.R, f, Q, other, n) == other.Equals(&P), "no other commitment verifies")
	nd.Reach("end")
}

// VH_R11_Argument: the challenges of the argument are those derived from everything sent so far.
func VH_R11_Argument() {
	n := nd.Param("n")
	G, H := vhPoints("G", n), vhPoints("H", n)
	a, b, f := vhScalars("a", n), vhScalars("b", n), vhScalars("f", n)
	Q := nd.Point("Q")
	P := vhCommit(G, H, a, b, f, &Q)
	p, err := Generate(G, H, a, b, f, Q)
	nd.Assert(err == nil, "a proof is generated")
	nd.Assert(vhCheck(p, G, H, f, &Q, &P), "each round's challenge depends on every pair sent so far")
	nd.Reach("end")
}

// VH_R08_Iff: verification accepts exactly when the folding equation holds, for arbitrary proofs.
func VH_R08_Iff() {
	n := nd.Param("n")
	nd.GenericHashes(false)
	G, H := vhPoints("G", n), vhPoints("H", n)
	f := vhScalars("f", n)
	Q, P := nd.Point("Q"), nd.Point("P")
	k := vhLog(n)
	p := Proof{L: vhPoints("L", k), R: vhPoints("R", k), A: nd.Scalar("A"), B: nd.Scalar("B")}
	want := vhCheck(&p, G, H, f, &Q, &P)
	nd.Assert(p.Verify(G, H, p.L, p.R, f, Q, P, n) == want, "accepted exactly when the argument's equation holds")
	nd.Reach("end")
}

// vhDerived: generators nobody knows a relation between.
func vhDerived(seed string, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		out[i].Derive([]byte(seed + string(rune('0'+i))))
	}
	return out
}

// VH_R08_Tamper: any altered component of a good proof makes it fail.
func VH_R08_Tamper() {
	n := nd.Param("n")
	G, H := vhDerived("G", n), vhDerived("H", n)
	a, b := vhScalars("a", n), vhScalars("b", n)
	f := make([]ristretto.Scalar, n)
	for i := range f {
		f[i] = nd.NonZero("f")
	}
	Q := vhDerived("Q", 1)[0]
	P := vhCommit(G, H, a, b, f, &Q)
	p, err := Generate(G, H, a, b, f, Q)
	nd.Assert(err == nil, "a proof is generated")
	k := vhLog(n)
	which := nd.Choose("which", 2+2*k)
	var old, alt ristretto.Point
	var same bool
	switch {
	case which == 0:
		s := nd.Scalar("s")
		same = s.Equals(&p.A)
		p.A = s
	case which == 1:
		s := nd.Scalar("s")
		same = s.Equals(&p.B)
		p.B = s
	case which < 2+k:
		old, alt = p.L[which-2], nd.Point("alt")
		p.L[which-2] = alt
		same = old.Equals(&alt)
	default:
		old, alt = p.R[which-2-k], nd.Point("alt")
		p.R[which-2-k] = alt
		same = old.Equals(&alt)
	}
	nd.Assume(!same)
	ok := p.Verify(G, H, p.L, p.R, f, Q, P, n)
	nd.Assert(ok == vhCheck(p, G, H, f, &Q, &P), "an altered proof is judged by the equation")
	nd.Assert(!ok, "an altered proof fails")
	nd.Reach("end")
}

// VH_R08_Refused: unsuitable or mismatched lengths.
func VH_R08_Refused() {
	g, h, a, b, f := nd.Param("g"), nd.Param("h"), nd.Param("a"), nd.Param("b"), nd.Param("f")
	p, err := Generate(vhPoints("G", g), vhPoints("H", h), vhScalars("a", a), vhScalars("b", b), vhScalars("f", f), nd.Point("Q"))
	good := g == h && g == a && g == b && g == f && g > 0 && g&(g-1) == 0
	nd.Assert((err == nil) == good, "refused exactly when a length is unsuitable or mismatched")
	nd.Assert(good == (p != nil), "a proof or an error")
	nd.Reach("end")
}

// VH_R08_Shapes: verification of a proof of the wrong shape.
func VH_R08_Shapes() {
	n, l, r, h, f := nd.Param("n"), nd.Param("l"), nd.Param("r"), nd.Param("h"), nd.Param("f")
	p := Proof{L: vhPoints("L", l), R: vhPoints("R", r), A: nd.Scalar("A"), B: nd.Scalar("B")}
	ok := p.Verify(vhPoints("G", n), vhPoints("H", h), p.L, p.R, vhScalars("f", f), nd.Point("Q"), nd.Point("P"), n)
	if l != r || 1<<uint(l) != n || h != n || f != n {
		nd.Assert(!ok, "a proof of the wrong shape fails")
	}
	nd.Reach("end")
}

func vhEqual(p, q *Proof) bool {
	return p.A.Equals(&q.A) && p.B.Equals(&q.B) && vhSameP(p.L, q.L) && vhSameP(p.R, q.R)
}

// VH_R05_Argument: the wire format.
func VH_R05_Argument() {
	k := nd.Param("k")
	p := Proof{L: vhPoints("L", k), R: vhPoints("R", k), A: nd.Scalar("A"), B: nd.Scalar("B")}
	p0 := Proof{L: append([]ristretto.Point{}, p.L...), R: append([]ristretto.Point{}, p.R...), A: p.A, B: p.B}
	buf := &bytes.Buffer{}
	nd.Assert(p.Encode(buf) == nil, "encoding succeeds")
	nd.Assert(buf.Len() == 64+64*k, "fixed size")
	nd.Assert(vhEqual(&p, &p0), "encoding changes nothing")
	// into a fresh proof or one used before
	var q Proof
	if nd.Param("used") == 1 {
		q = Proof{L: vhPoints("oL", 2), R: vhPoints("oR", 2), A: nd.Scalar("oA"), B: nd.Scalar("oB")}
	}
	nd.Assert(q.Decode(buf) == nil, "decoding succeeds")
	nd.Assert(vhEqual(&q, &p0), "the same proof")
	nd.Assert(q.Equals(p) && p.Equals(q), "which compares equal")
	nd.Reach("end")
}

func vhValid(p *ristretto.Point, b []byte) {
	var buf [32]byte
	copy(buf[:], b)
	var q ristretto.Point
	nd.Assert(q.SetBytes(&buf), "only valid points are accepted")
	nd.Assert(bytes.Equal(q.Bytes(), p.Bytes()), "each point is the one encoded")
}

// VH_R06_Argument: hostile bytes.
func VH_R06_Argument() {
	n := nd.Param("n")
	b := nd.Bytes("b", n)
	nd.AllocLimit(1 << 20)
	nd.StepLimit(3000000)
	r := bytes.NewReader(b)
	var p Proof
	if err := p.Decode(r); err != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(r.Len() == 0 && len(p.L) == len(p.R) && n == 64+64*len(p.L), "accounts for every byte")
	for i := range p.L {
		vhValid(&p.L[i], b[64+64*i:])
		vhValid(&p.R[i], b[96+64*i:])
	}
	var s ristretto.Scalar
	var buf [32]byte
	copy(buf[:], b)
	s.SetBytes(&buf)
	nd.Assert(s.Equals(&p.A), "first scalar")
	copy(buf[:], b[32:])
	s.SetBytes(&buf)
	nd.Assert(s.Equals(&p.B), "second scalar")
	nd.Reach("ok")
}

// VH_R07_Argument: equality.
func VH_R07_Argument() {
	p := Proof{L: vhPoints("L", nd.Param("a")), R: vhPoints("R", nd.Param("b")), A: nd.Scalar("A"), B: nd.Scalar("B")}
	q := Proof{L: vhPoints("L2", nd.Param("c")), R: vhPoints("R2", nd.Param("d")), A: nd.Scalar("A2"), B: nd.Scalar("B2")}
	want := len(p.L) == len(q.L) && len(p.R) == len(q.R) && vhEqual(&p, &q)
	nd.Assert(p.Equals(q) == want, "equal exactly when every component agrees")
	nd.Assert(q.Equals(p) == want, "whichever is the receiver")
	nd.Assert(p.Equals(p) && q.Equals(q), "reflexive")
	nd.Reach("end")
}

// vhPieces is a reader that delivers at most a few bytes at a time, as a connection may.
type vhPieces struct {
	b []byte
	n int
}

func (r *vhPieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	k := copy(p, r.b)
	r.b = r.b[k:]
	return k, nil
}

// VH_R06_Pieces: hostile bytes are treated alike in pieces.
func VH_R06_Pieces() {
	b := nd.Bytes("b", nd.Param("n"))
	var p, q Proof
	err1 := p.Decode(bytes.NewReader(b))
	err2 := q.Decode(&vhPieces{b, nd.Param("piece")})
	nd.Assert((err1 == nil) == (err2 == nil), "decoding depends on the bytes alone")
	if err1 != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(vhEqual(&p, &q), "as does what is decoded")
	nd.Reach("ok")
}
