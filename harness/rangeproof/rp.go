package rangeproof

import (
	"bytes"
	"io"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

const vhN = 64

func vhScalars(name string, n int) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = nd.Scalar(name)
	}
	return out
}

func vhPoints(name string, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		out[i] = nd.Point(name)
	}
	return out
}

func vhSameP(a, b []ristretto.Point) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func vhSameS(a, b []ristretto.Scalar) bool {
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func vhLog(n int) int {
	k := 0
	for 1<<uint(k) < n {
		k++
	}
	return k
}

// vhParts is a proof as its wire format shows it.
type vhParts struct {
	V    []ristretto.Point
	pts  [4]ristretto.Point  // A, S, T1, T2
	scs  [3]ristretto.Scalar // taux, mu, t
	a, b ristretto.Scalar
	L, R []ristretto.Point
}

func vhAny(m, k int) *vhParts {
	f := &vhParts{V: vhPoints("V", m), L: vhPoints("L", k), R: vhPoints("R", k)}
	for i := range f.pts {
		f.pts[i] = nd.Point("P")
	}
	for i := range f.scs {
		f.scs[i] = nd.Scalar("s")
	}
	f.a, f.b = nd.Scalar("a"), nd.Scalar("b")
	return f
}

func (f *vhParts) bytes(commits bool) []byte {
	buf := &bytes.Buffer{}
	if commits {
		n := len(f.V)
		buf.Write([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		for i := range f.V {
			buf.Write(f.V[i].Bytes())
		}
	}
	for i := range f.pts {
		buf.Write(f.pts[i].Bytes())
	}
	for i := range f.scs {
		buf.Write(f.scs[i].Bytes())
	}
	buf.Write(f.a.Bytes())
	buf.Write(f.b.Bytes())
	for i := range f.L {
		buf.Write(f.L[i].Bytes())
		buf.Write(f.R[i].Bytes())
	}
	return buf.Bytes()
}

// proof makes the real object through its wire format.
func (f *vhParts) proof() Proof {
	var p Proof
	err := p.Decode(bytes.NewReader(f.bytes(true)), true)
	nd.Assert(err == nil, "a well-formed encoding decodes")
	return p
}

func vhPoint(b []byte) ristretto.Point {
	var p ristretto.Point
	var x [32]byte
	copy(x[:], b)
	nd.Assert(p.SetBytes(&x), "an encoding holds valid points")
	return p
}

func vhScalar(b []byte) ristretto.Scalar {
	var s ristretto.Scalar
	var x [32]byte
	copy(x[:], b)
	s.SetBytes(&x)
	return s
}

// vhSee reads a proof through its wire format.
func vhSee(p *Proof) *vhParts {
	buf := &bytes.Buffer{}
	nd.Assert(p.Encode(buf, false) == nil, "encoding succeeds")
	b := buf.Bytes()
	f := &vhParts{}
	for i := range p.V {
		f.V = append(f.V, p.V[i].Value)
	}
	for i := range f.pts {
		f.pts[i] = vhPoint(b)
		b = b[32:]
	}
	for i := range f.scs {
		f.scs[i] = vhScalar(b)
		b = b[32:]
	}
	f.a = vhScalar(b)
	f.b = vhScalar(b[32:])
	b = b[64:]
	for len(b) > 0 {
		f.L = append(f.L, vhPoint(b))
		f.R = append(f.R, vhPoint(b[32:]))
		b = b[64:]
	}
	return f
}

func vhGens(seed string, n int) []ristretto.Point {
	out := make([]ristretto.Point, n)
	for i := range out {
		if i == 0 {
			out[i].Derive([]byte(seed))
		} else {
			out[i].Derive(out[i-1].Bytes())
		}
	}
	return out
}

func vhBases() (base, blind ristretto.Point) {
	base.Derive([]byte("blindPoint"))
	blind.SetBase()
	return
}

type vhChals struct{ x, y, z, w ristretto.Scalar }

// vhChallenges derives the challenges, each from everything sent before it.
func (f *vhParts) challenges() vhChals {
	var c vhChals
	var tr []byte
	for i := range f.V {
		tr = append(tr, f.V[i].Bytes()...)
	}
	tr = append(tr, f.pts[0].Bytes()...)
	tr = append(tr, f.pts[1].Bytes()...)
	c.y.Derive(tr)
	c.z.Derive(c.y.Bytes())
	tr = append(tr, c.z.Bytes()...)
	tr = append(tr, f.pts[2].Bytes()...)
	tr = append(tr, f.pts[3].Bytes()...)
	c.x.Derive(tr)
	tr = append(tr, c.x.Bytes()...)
	for i := range f.scs {
		tr = append(tr, f.scs[i].Bytes()...)
	}
	c.w.Derive(tr)
	return c
}

// vhFold is the inner-product argument: the generators fold to one pair, the commitment to a*G + b*H + ab*Q.
func vhFold(f *vhParts, G, h []ristretto.Point, Q, P *ristretto.Point) bool {
	g := append([]ristretto.Point{}, G...)
	h = append([]ristretto.Point{}, h...)
	var c, t ristretto.Point
	c.Set(P)
	var tr []byte
	for j := range f.L {
		tr = append(tr, f.L[j].Bytes()...)
		tr = append(tr, f.R[j].Bytes()...)
		var u, v, s ristretto.Scalar
		u.Derive(tr)
		v.Inverse(&u)
		s.Mul(&u, &u)
		c.Add(&c, t.ScalarMult(&f.L[j], &s))
		s.Mul(&v, &v)
		c.Add(&c, t.ScalarMult(&f.R[j], &s))
		n := len(g) / 2
		for i := 0; i < n; i++ {
			g[i].ScalarMult(&g[i], &v)
			g[i].Add(&g[i], t.ScalarMult(&g[i+n], &u))
			h[i].ScalarMult(&h[i], &u)
			h[i].Add(&h[i], t.ScalarMult(&h[i+n], &v))
		}
		g, h = g[:n], h[:n]
	}
	var e ristretto.Point
	var ab ristretto.Scalar
	e.ScalarMult(&g[0], &f.a)
	e.Add(&e, t.ScalarMult(&h[0], &f.b))
	ab.Mul(&f.a, &f.b)
	e.Add(&e, t.ScalarMult(Q, &ab))
	return e.Equals(&c)
}

// vhCheck evaluates the two verification equations of the aggregated range proof.
func vhCheck(f *vhParts) bool {
	m := len(f.V)
	n := vhN * m
	if len(f.L) != vhLog(n) || len(f.R) != len(f.L) {
		return false
	}
	c := f.challenges()
	base, blind := vhBases()
	G, H := vhGens("dusk.BulletProof.vec1", n), vhGens("dusk.BulletProof.vec1\x01", n)
	taux, mu, t := &f.scs[0], &f.scs[1], &f.scs[2]
	var one, two, zz, s, r ristretto.Scalar
	one.SetOne()
	two.Add(&one, &one)
	zz.Mul(&c.z, &c.z)

	// t*B + taux*Bl = sum z^(2+j) V_j + delta*B + x*T1 + x^2*T2
	var delta, sumY, sum2, pw ristretto.Scalar
	sumY.SetZero()
	pw.SetOne()
	for i := 0; i < n; i++ {
		sumY.Add(&sumY, &pw)
		pw.Mul(&pw, &c.y)
	}
	sum2.SetZero()
	pw.SetOne()
	for i := 0; i < vhN; i++ {
		sum2.Add(&sum2, &pw)
		pw.Mul(&pw, &two)
	}
	s.Sub(&c.z, &zz)
	delta.Mul(&s, &sumY)
	var rhs, lhs, tmp ristretto.Point
	rhs.SetZero()
	pw.Set(&zz)
	for j := 0; j < m; j++ {
		rhs.Add(&rhs, tmp.ScalarMult(&f.V[j], &pw))
		pw.Mul(&pw, &c.z)
		s.Mul(&pw, &sum2)
		delta.Sub(&delta, &s)
	}
	rhs.Add(&rhs, tmp.ScalarMult(&base, &delta))
	rhs.Add(&rhs, tmp.ScalarMult(&f.pts[2], &c.x))
	s.Mul(&c.x, &c.x)
	rhs.Add(&rhs, tmp.ScalarMult(&f.pts[3], &s))
	lhs.ScalarMult(&base, t)
	lhs.Add(&lhs, tmp.ScalarMult(&blind, taux))
	if !lhs.Equals(&rhs) {
		return false
	}

	// P = A + x*S - z*G + (z*y^i + z^(2+j)*2^i)*H' - mu*Bl + w*t*B commits to l, r and t
	var P, Q ristretto.Point
	P.Set(&f.pts[0])
	P.Add(&P, tmp.ScalarMult(&f.pts[1], &c.x))
	var nz, yinv, ypow, zp ristretto.Scalar
	nz.Neg(&c.z)
	yinv.Inverse(&c.y)
	ypow.SetOne()
	zp.Set(&zz)
	h := make([]ristretto.Point, n)
	for i := 0; i < n; i++ {
		if i%vhN == 0 {
			if i > 0 {
				zp.Mul(&zp, &c.z)
			}
			pw.SetOne()
		}
		h[i].ScalarMult(&H[i], &ypow)
		P.Add(&P, tmp.ScalarMult(&G[i], &nz))
		s.Mul(&zp, &pw)
		r.Mul(&s, &ypow)
		r.Add(&r, &c.z)
		P.Add(&P, tmp.ScalarMult(&H[i], &r))
		ypow.Mul(&ypow, &yinv)
		pw.Mul(&pw, &two)
	}
	s.Neg(mu)
	P.Add(&P, tmp.ScalarMult(&blind, &s))
	Q.ScalarMult(&base, &c.w)
	P.Add(&P, tmp.ScalarMult(&Q, t))
	return vhFold(f, G, h, &Q, &P)
}

func vhValues(n int) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = nd.U64Scalar("v")
	}
	return out
}

// vhList is a list of n values in range: all symbolic, or (fix=-1) every fourth symbolic and the others constants.
func vhList(n int) []ristretto.Scalar {
	fix := nd.Param("fix")
	nd.FixHashes(fix)
	if fix < -1 {
		nd.FixHashes(-1)
	}
	v := vhValues(n)
	if fix == -1 {
		for i := range v {
			if i%4 != 0 {
				v[i].SetBigInt(new(big.Int).SetUint64(-uint64(i)))
			}
		}
	}
	return v
}

func vhPad(n int) int {
	m := 1
	for m < n {
		m *= 2
	}
	return m
}

func vhVerify(p Proof) bool {
	ok, err := Verify(p)
	nd.Assert(ok == (err == nil), "a verdict or an error")
	return ok
}

// VH_R01_Complete: every list of values in range.
func VH_R01_Complete() {
	n := nd.Param("n")
	v := vhList(n)
	p, err := Prove(v, nd.Param("debug") == 1)
	nd.Assert(err == nil, "proving succeeds")
	nd.Assert(vhVerify(p), "the proof verifies")
	if nd.Param("wire") == 1 {
		buf := &bytes.Buffer{}
		nd.Assert(p.Encode(buf, true) == nil, "encoding succeeds")
		var q Proof
		nd.Assert(q.Decode(buf, true) == nil, "decoding succeeds")
		nd.Assert(vhVerify(q), "the decoded proof verifies")
	}
	nd.Reach("end")
}

// VH_R01_Refused: empty and too long lists.
func VH_R01_Refused() {
	_, err := Prove(vhValues(nd.Param("n")), nd.Param("debug") == 1)
	nd.Assert(err != nil, "refused with an error")
	nd.Reach("end")
}

// VH_R02_Iff: arbitrary proofs are accepted exactly when both equations hold.
func VH_R02_Iff() {
	m := nd.Param("m")
	nd.GenericHashes(false)
	f := vhAny(m, vhLog(vhN*m))
	p := f.proof()
	ok, err := Verify(p)
	nd.Assert(ok == (err == nil), "a verdict or an error")
	nd.Assert(ok == vhCheck(f), "accepted exactly when the verification equations hold")
	nd.Reach("end")
}

// VH_R02_Shapes: malformed proofs are rejected without crashing.
func VH_R02_Shapes() {
	m, l, r := nd.Param("m"), nd.Param("l"), nd.Param("r")
	f := vhAny(m, 0)
	var p Proof
	if nd.Param("nil") == 0 {
		nd.Assert(p.Decode(bytes.NewReader(f.bytes(false)), false) == nil, "decodes")
		p.IPProof = &innerproduct.Proof{L: vhPoints("L", l), R: vhPoints("R", r), A: f.a, B: f.b}
	}
	for i := 0; i < m; i++ {
		p.V = append(p.V, pedersen.Commitment{Value: f.V[i]})
	}
	nd.Assert(!vhVerify(p), "a malformed proof is rejected")
	nd.Reach("end")
}

// VH_R02_Tamper: any altered component of an honest proof makes it fail.
func VH_R02_Tamper() {
	n := nd.Param("n")
	v := vhValues(n)
	p, err := Prove(v, false)
	nd.Assert(err == nil, "proving succeeds")
	f := vhSee(&p)
	m, k := len(f.V), len(f.L)
	which := nd.Param("which")
	var pt *ristretto.Point
	var sc *ristretto.Scalar
	switch {
	case which < m:
		pt = &f.V[which]
	case which < m+4:
		pt = &f.pts[which-m]
	case which < m+7:
		sc = &f.scs[which-m-4]
	case which == m+7:
		sc = &f.a
	case which == m+8:
		sc = &f.b
	case which < m+9+k:
		pt = &f.L[which-m-9]
	default:
		pt = &f.R[which-m-9-k]
	}
	if pt != nil {
		q := nd.Point("alt")
		nd.Assume(!q.Equals(pt))
		*pt = q
	} else {
		q := nd.Scalar("alt")
		nd.Assume(!q.Equals(sc))
		*sc = q
	}
	nd.Assert(!vhVerify(f.proof()), "an altered proof fails")
	nd.Reach("end")
}

// VH_R03_Wide: a value of 2^64 or more at one place.
func VH_R03_Wide() {
	n, at := nd.Param("n"), nd.Param("at")
	v := vhList(n)
	v[at] = nd.WideScalar("w")
	p, err := Prove(v, nd.Param("debug") == 1)
	if err != nil {
		nd.Reach("refused")
		return
	}
	nd.Assert(!vhVerify(p), "no proof for a value out of range verifies")
	nd.Reach("end")
}

// VH_R03_Commitments: the commitments are exactly those of the values, padded with zeros.
func VH_R03_Commitments() {
	n := nd.Param("n")
	v := vhList(n)
	v0 := append([]ristretto.Scalar{}, v...)
	p, err := Prove(v, false)
	nd.Assert(err == nil, "proving succeeds")
	nd.Assert(len(p.V) == vhPad(n), "padded to a power of two")
	base, blind := vhBases()
	for i := range p.V {
		var want, t ristretto.Point
		want.SetZero()
		if i < n {
			want.ScalarMult(&base, &v0[i])
		}
		want.Add(&want, t.ScalarMult(&blind, &p.V[i].BlindingFactor))
		nd.Assert(p.V[i].Value.Equals(&want), "commitment to the value")
	}
	nd.Reach("end")
}

// VH_R04_History: a verdict is not changed by other proofs made or verified before.
func VH_R04_History() {
	m, n, k := nd.Param("m"), nd.Param("n"), nd.Param("k")
	nd.GenericHashes(false)
	f := vhAny(m, vhLog(vhN*m))
	p := f.proof()
	before := vhVerify(p)
	v := vhValues(n)
	q, err := Prove(v, false)
	nd.Assert(err == nil, "proving succeeds")
	after := vhVerify(p)
	nd.Assert(before == after, "the verdict does not depend on proofs made before")
	if k > 0 {
		nd.GenericHashes(true)
		g := &vhParts{V: vhGens("V", k), L: vhGens("L", vhLog(vhN*k)), R: vhGens("R", vhLog(vhN*k))}
		copy(g.pts[:], vhGens("P", 4))
		for i := range g.scs {
			g.scs[i].SetBigInt(big.NewInt(int64(i + 1)))
		}
		g.a.SetOne()
		g.b.SetOne()
		nd.Assert(!vhVerify(g.proof()), "a made-up proof fails")
		_, err := Prove(nil, false)
		nd.Assert(err != nil, "an empty list is refused")
		_, err = Prove(make([]ristretto.Scalar, 17), false)
		nd.Assert(err != nil, "a long list is refused")
		nd.Assert(vhVerify(p) == before, "nor on proofs verified before")
	}
	nd.Assert(vhVerify(q), "a proof stays valid")
	nd.Reach("end")
}

// VH_R04_Honest: a proof is valid whatever is proved between making and verifying it.
func VH_R04_Honest() {
	n, k := nd.Param("n"), nd.Param("k")
	p, err := Prove(vhList(n), false)
	nd.Assert(err == nil, "proving succeeds")
	q, err := Prove(vhList(k), nd.Param("debug") == 1)
	nd.Assert(err == nil, "proving succeeds")
	nd.Assert(vhVerify(p), "the first proof is valid after the second was made")
	nd.Assert(vhVerify(q), "the second proof is valid after the first was verified")
	nd.Assert(vhVerify(p), "the first proof is valid after the second was verified")
	nd.Reach("end")
}

// VH_R05_Proof: the wire format.
func VH_R05_Proof() {
	m, k := nd.Param("m"), nd.Param("k")
	commits := nd.Param("commits") == 1
	f := vhAny(m, k)
	p := f.proof()
	buf := &bytes.Buffer{}
	nd.Assert(p.Encode(buf, commits) == nil, "encoding succeeds")
	nd.Assert(bytes.Equal(buf.Bytes(), f.bytes(commits)), "components in order")
	var q Proof
	if nd.Param("used") == 1 {
		q = vhAny(1, 1).proof()
	}
	nd.Assert(q.Decode(buf, commits) == nil, "decoding succeeds")
	nd.Assert(buf.Len() == 0, "every byte is consumed")
	nd.Assert(p.Equals(q, commits) && q.Equals(p, commits), "an equal proof")
	if !commits {
		q.V = p.V
	}
	g := vhSee(&q)
	nd.Assert(bytes.Equal(g.bytes(true), f.bytes(true)), "the same components")
	nd.Assert(p.Equals(q, true) && q.Equals(p, true), "an equal proof with commitments")
	nd.Reach("end")
}

// VH_R05_Verdict: a decoded proof verifies exactly when the original does.
func VH_R05_Verdict() {
	m := nd.Param("m")
	nd.GenericHashes(false)
	f := vhAny(m, vhLog(vhN*m))
	p := f.proof()
	buf := &bytes.Buffer{}
	nd.Assert(p.Encode(buf, true) == nil, "encoding succeeds")
	var q Proof
	nd.Assert(q.Decode(buf, true) == nil, "decoding succeeds")
	nd.Assert(vhVerify(p) == vhVerify(q), "the same verdict")
	nd.Reach("end")
}

func vhValid(p *ristretto.Point, b []byte) {
	var buf [32]byte
	copy(buf[:], b)
	var q ristretto.Point
	nd.Assert(q.SetBytes(&buf), "only valid points are accepted")
	nd.Assert(bytes.Equal(q.Bytes(), p.Bytes()), "each point is the one encoded")
}

// VH_R06_Proof: hostile bytes.
func VH_R06_Proof() {
	n := nd.Param("n")
	commits := nd.Param("commits") == 1
	b := nd.Bytes("b", n)
	nd.AllocLimit(1 << 20)
	nd.StepLimit(4000000)
	r := bytes.NewReader(b)
	var p Proof
	if err := p.Decode(r, commits); err != nil {
		nd.Reach("error")
		return
	}
	k := 0
	if commits {
		k = 4 + 32*len(p.V)
		want := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		nd.Assert(uint32(len(p.V)) == want, "as many commitments as announced")
		for i := range p.V {
			vhValid(&p.V[i].Value, b[4+32*i:])
		}
	}
	nd.Assert(p.IPProof != nil && len(p.IPProof.L) == len(p.IPProof.R), "an inner product proof")
	nd.Assert(r.Len() == 0 && n == k+9*32+64*len(p.IPProof.L), "accounts for every byte")
	for i, q := range []*ristretto.Point{&p.A, &p.S, &p.T1, &p.T2} {
		vhValid(q, b[k+32*i:])
	}
	for i := range p.IPProof.L {
		vhValid(&p.IPProof.L[i], b[k+9*32+64*i:])
		vhValid(&p.IPProof.R[i], b[k+10*32+64*i:])
	}
	nd.Reach("ok")
}

// VH_R06_Verify: what decodes can be verified without crashing.
func VH_R06_Verify() {
	n := nd.Param("n")
	b := nd.Bytes("b", n)
	var p Proof
	if err := p.Decode(bytes.NewReader(b), true); err != nil {
		return
	}
	Verify(p)
	nd.Reach("end")
}

// VH_R07_Proof: equality.
func VH_R07_Proof() {
	m1, k1, m2, k2 := nd.Param("m1"), nd.Param("k1"), nd.Param("m2"), nd.Param("k2")
	commits := nd.Param("commits") == 1
	f, g := vhAny(m1, k1), vhAny(m2, k2)
	// only one chosen component may differ
	if d := nd.Param("diff"); d >= 0 {
		i := 0
		is := func() bool { i++; return i-1 == d }
		for j := range f.V {
			if j < len(g.V) && !is() {
				g.V[j] = f.V[j]
			}
		}
		for j := range f.pts {
			if !is() {
				g.pts[j] = f.pts[j]
			}
		}
		for j := range f.scs {
			if !is() {
				g.scs[j] = f.scs[j]
			}
		}
		if !is() {
			g.a = f.a
		}
		if !is() {
			g.b = f.b
		}
		for j := range f.L {
			if j < len(g.L) && !is() {
				g.L[j] = f.L[j]
			}
			if j < len(g.L) && !is() {
				g.R[j] = f.R[j]
			}
		}
	}
	p, q := f.proof(), g.proof()
	want := vhSameP(f.pts[:], g.pts[:]) && vhSameS(f.scs[:], g.scs[:]) && f.a.Equals(&g.a) && f.b.Equals(&g.b) &&
		len(f.L) == len(g.L) && vhSameP(f.L, g.L) && vhSameP(f.R, g.R)
	if commits {
		want = want && len(f.V) == len(g.V) && vhSameP(f.V, g.V)
	}
	nd.Assert(p.Equals(q, commits) == want, "equal exactly when every compared component agrees")
	nd.Assert(q.Equals(p, commits) == want, "whichever is the receiver")
	nd.Assert(p.Equals(p, commits), "reflexive")
	nd.Reach("end")
}

// VH_R07_Missing: proofs without inner product proof or commitments.
func VH_R07_Missing() {
	f := vhAny(1, 1)
	p := f.proof()
	q := p
	q.IPProof = nil
	nd.Assert(!p.Equals(q, true) && !q.Equals(p, true) && q.Equals(q, true), "a missing part differs")
	var z Proof
	z = p
	z.V = nil
	nd.Assert(!p.Equals(z, true) && !z.Equals(p, true), "missing commitments differ when compared")
	nd.Assert(p.Equals(z, false) && z.Equals(p, false), "and only then")
	nd.Reach("end")
}

// VH_R11_Transcript: the challenges the prover used are those derived from every value sent before them.
func VH_R11_Transcript() {
	p, err := Prove(vhValues(nd.Param("n")), false)
	nd.Assert(err == nil, "proving succeeds")
	nd.Assert(vhCheck(vhSee(&p)), "every value sent before a challenge influences it")
	nd.Reach("end")
}

// VH_R13_Inputs: the list of values and the memory behind it stay as they were; verifying changes nothing.
func VH_R13_Inputs() {
	n, spare := nd.Param("n"), nd.Param("spare")
	all := vhScalars("x", n+spare)
	copy(all, vhList(n))
	all0 := append([]ristretto.Scalar{}, all...)
	p, err := Prove(all[:n], nd.Param("debug") == 1)
	nd.Assert(err == nil, "proving succeeds")
	nd.Assert(vhSameS(all, all0), "values and spare capacity unchanged")
	b := vhSee(&p).bytes(true)
	m := len(p.V)
	own := append(append([]pedersen.Commitment{}, p.V...), p.V[0], p.V[0])
	own0 := append([]pedersen.Commitment{}, own...)
	p.V = own[:m]
	nd.Assert(vhVerify(p), "verifies")
	nd.Assert(bytes.Equal(b, vhSee(&p).bytes(true)), "verifying changes nothing")
	for i := range own {
		nd.Assert(own[i].Equals(own0[i]), "nor the commitments, their blinding factors and what lies behind them")
	}
	nd.Assert(vhSameS(all, all0), "values unchanged")
	nd.Reach("end")
}

// VH_R13_Blinding: every blinding scalar is a random draw of its own.
func VH_R13_Blinding() {
	n := nd.Param("n")
	v := vhValues(n)
	nd.RecordEntropy()
	p, err := Prove(v, false)
	nd.Assert(err == nil, "proving succeeds")
	d := nd.Draws()
	used := make([]bool, len(d))
	f := vhSee(&p)
	c := f.challenges()
	m := len(f.V)
	take := func(s *ristretto.Scalar, msg string) {
		for k := range d {
			if !used[k] && d[k].Equals(s) {
				used[k] = true
				return
			}
		}
		nd.Assert(false, msg)
	}
	for i := range p.V {
		take(&p.V[i].BlindingFactor, "each commitment has a blinding factor drawn for it alone")
	}
	// A - <aL,G> - <aR,H> = alpha*Bl
	_, blind := vhBases()
	G, H := vhGens("dusk.BulletProof.vec1", vhN*m), vhGens("dusk.BulletProof.vec1\x01", vhN*m)
	A := f.pts[0]
	var one ristretto.Scalar
	one.SetOne()
	for j := 0; j < m; j++ {
		var bits BitCommitment
		if j < n {
			bits = BitCommit(v[j].BigInt())
		} else {
			var zero ristretto.Scalar
			bits = BitCommit(zero.BigInt())
		}
		for i := 0; i < vhN; i++ {
			var t ristretto.Point
			A.Sub(&A, t.ScalarMult(&G[vhN*j+i], &bits.AL[i]))
			A.Sub(&A, t.ScalarMult(&H[vhN*j+i], &bits.AR[i]))
		}
	}
	ai := -1
	for k := range d {
		var t ristretto.Point
		if ai < 0 && !used[k] && t.ScalarMult(&blind, &d[k]).Equals(&A) {
			ai = k
			used[k] = true
		}
	}
	nd.Assert(ai >= 0, "the bit commitment is blinded by a draw of its own")
	var rho, xi ristretto.Scalar
	rho.Sub(&f.scs[1], &d[ai])
	xi.Inverse(&c.x)
	rho.Mul(&rho, &xi)
	take(&rho, "the commitment to the masking vectors is blinded by a draw of its own")
	// taux = tau1*x + tau2*x^2 + sum z^(2+j) gamma_j
	var rest, pw, t ristretto.Scalar
	rest.Set(&f.scs[0])
	pw.Mul(&c.z, &c.z)
	for i := range p.V {
		rest.Sub(&rest, t.Mul(&pw, &p.V[i].BlindingFactor))
		pw.Mul(&pw, &c.z)
	}
	rest.Mul(&rest, &xi)
	found := false
	for k := len(d) - 1; k >= 0 && !found; k-- {
		for l := len(d) - 1; l >= 0 && !found; l-- {
			if k == l || used[k] || used[l] {
				continue
			}
			var s ristretto.Scalar
			s.Mul(&d[l], &c.x)
			s.Add(&s, &d[k])
			if s.Equals(&rest) {
				used[k], used[l] = true, true
				found = true
			}
		}
	}
	nd.Assert(found, "the coefficients of t are blinded by two draws of their own")
	left := 0
	for k := range used {
		if !used[k] {
			left++
		}
	}
	nd.Assert(left >= 2*vhN*m, "each masking scalar has a draw of its own")
	nd.Reach("end")
}

// VH_R13_Masks: each masking scalar multiplies a generator of its own in S.
func VH_R13_Masks() {
	n, lo, hi := nd.Param("n"), nd.Param("lo"), nd.Param("hi")
	v := vhValues(n)
	m := vhPad(n)
	nd.RecordEntropy()
	p, err := Prove(v, false)
	nd.Assert(err == nil, "proving succeeds")
	d := nd.Draws()
	_, blind := vhBases()
	gens := append(vhGens("dusk.BulletProof.vec1", vhN*m), vhGens("dusk.BulletProof.vec1\x01", vhN*m)...)
	gens = append(gens, blind)
	var one ristretto.Scalar
	one.SetOne()
	hit := make([]int, len(gens))
	for k := lo; k < hi && k < len(d); k++ {
		e := append([]ristretto.Scalar{}, d...)
		e[k].Add(&e[k], &one)
		nd.ScriptEntropy(e)
		q, err := Prove(v, false)
		nd.Assert(err == nil, "proving succeeds")
		if q.S.Equals(&p.S) {
			continue
		}
		var diff ristretto.Point
		diff.Sub(&q.S, &p.S)
		g := -1
		for i := range gens {
			if diff.Equals(&gens[i]) {
				g = i
			}
		}
		nd.Assert(g >= 0, "each draw masks one place only")
		hit[g]++
		nd.Assert(hit[g] == 1, "no two draws mask the same place")
	}
	if lo == 0 && hi >= len(d) {
		for i := range hit {
			nd.Assert(hit[i] == 1, "every place is masked by a fresh draw")
		}
	}
	nd.Reach("end")
}

func vhAddTo(p *ristretto.Point, c ristretto.Scalar, b *ristretto.Point) {
	var t ristretto.Point
	p.Add(p, t.ScalarMult(b, &c))
}

// vhShift adds c0 + c1*p1 + c2*p2 ... to s.
func vhShift(name string, on bool, s *ristretto.Scalar, terms ...*ristretto.Scalar) {
	if !on {
		return
	}
	e := nd.Scalar(name)
	s.Add(s, &e)
	for _, t := range terms {
		e := nd.Scalar(name)
		s.MulAdd(&e, t, s)
	}
}

// VH_R02_Forger: a prover that follows the protocol but shifts each message, by an amount that may depend on the challenges
// it has seen by then: what it makes is accepted exactly when both equations hold.
func VH_R02_Forger() {
	set := nd.Param("set")
	on := func(i uint) bool { return set>>i&1 == 1 }
	base, blind := vhBases()
	n := vhN
	G, H := vhGens("dusk.BulletProof.vec1", n), vhGens("dusk.BulletProof.vec1\x01", n)
	num := func(i int) (s ristretto.Scalar) {
		s.SetBigInt(big.NewInt(int64(i)))
		return
	}
	var one, zero ristretto.Scalar
	one.SetOne()
	zero.SetZero()
	value := num(5)
	gamma, alpha, rho, tau1, tau2 := num(11), num(12), num(13), num(14), num(15)
	aL, aR, sL, sR := make([]ristretto.Scalar, n), make([]ristretto.Scalar, n), make([]ristretto.Scalar, n), make([]ristretto.Scalar, n)
	f := &vhParts{V: make([]ristretto.Point, 1)}
	commit := func(p *ristretto.Point, name string, on bool, b ...*ristretto.Point) {
		if !on {
			return
		}
		for i := range b {
			vhAddTo(p, nd.Scalar(name), b[i])
		}
	}
	f.V[0].SetZero()
	vhAddTo(&f.V[0], value, &base)
	vhAddTo(&f.V[0], gamma, &blind)
	commit(&f.V[0], "dV", on(0), &base, &blind)
	A, S := &f.pts[0], &f.pts[1]
	A.ScalarMult(&blind, &alpha)
	S.ScalarMult(&blind, &rho)
	for i := 0; i < n; i++ {
		aL[i], aR[i], sL[i], sR[i] = zero, zero, zero, zero
		if i == 0 || i == 2 {
			aL[i] = one
			vhAddTo(A, aL[i], &G[i])
		} else {
			aR[i].Neg(&one)
			vhAddTo(A, aR[i], &H[i])
		}
		if i == 0 || i == n-1 {
			sL[i], sR[i] = num(i+20), num(i+40)
			vhAddTo(S, sL[i], &G[i])
			vhAddTo(S, sR[i], &H[i])
		}
	}
	commit(A, "dA", on(1), &base, &blind, &G[1], &H[2])
	commit(S, "dS", on(2), &base, &blind, &G[1], &H[2])
	f.scs[0], f.scs[1], f.scs[2] = zero, zero, zero
	c := f.challenges()
	x, y, z := ristretto.Scalar{}, c.y, c.z
	var zz, t0, t1, t2 ristretto.Scalar
	zz.Mul(&z, &z)
	t0.SetZero()
	t1.SetZero()
	t2.SetZero()
	l0, r0, r1 := make([]ristretto.Scalar, n), make([]ristretto.Scalar, n), make([]ristretto.Scalar, n)
	yp, tp := one, one
	var s ristretto.Scalar
	for i := 0; i < n; i++ {
		l0[i].Sub(&aL[i], &z)
		r0[i].Add(&aR[i], &z)
		r0[i].Mul(&r0[i], &yp)
		s.Mul(&zz, &tp)
		r0[i].Add(&r0[i], &s)
		r1[i].Mul(&sR[i], &yp)
		t1.MulAdd(&l0[i], &r1[i], &t1)
		t1.MulAdd(&sL[i], &r0[i], &t1)
		t2.MulAdd(&sL[i], &r1[i], &t2)
		yp.Mul(&yp, &y)
		tp.Add(&tp, &tp)
	}
	T1, T2 := &f.pts[2], &f.pts[3]
	T1.ScalarMult(&base, &t1)
	T2.ScalarMult(&base, &t2)
	vhAddTo(T1, tau1, &blind)
	vhAddTo(T2, tau2, &blind)
	commit(T1, "dT1", on(3), &base, &blind)
	commit(T2, "dT2", on(4), &base, &blind)
	x = f.challenges().x
	var xx, t ristretto.Scalar
	xx.Mul(&x, &x)
	l, r := make([]ristretto.Scalar, n), make([]ristretto.Scalar, n)
	t.SetZero()
	for i := 0; i < n; i++ {
		l[i].MulAdd(&sL[i], &x, &l0[i])
		r[i].MulAdd(&r1[i], &x, &r0[i])
		t.MulAdd(&l[i], &r[i], &t)
	}
	taux, mu := &f.scs[0], &f.scs[1]
	taux.Mul(&gamma, &zz)
	taux.MulAdd(&tau1, &x, taux)
	taux.MulAdd(&tau2, &xx, taux)
	mu.MulAdd(&rho, &x, &alpha)
	vhShift("dtaux", on(5), taux, &x, &xx, &zz)
	vhShift("dmu", on(6), mu, &x, &xx, &zz)
	vhShift("dt", on(7), &t, &x, &xx, &zz)
	f.scs[2] = t
	w := f.challenges().w
	var Q ristretto.Point
	Q.ScalarMult(&base, &w)
	var yinv ristretto.Scalar
	yinv.Inverse(&y)
	pw := make([]ristretto.Scalar, n)
	pw[0] = one
	for i := 1; i < n; i++ {
		pw[i].Mul(&pw[i-1], &yinv)
	}
	ip, err := innerproduct.Generate(G, H, l, r, pw, Q)
	nd.Assert(err == nil, "the argument is made")
	f.a, f.b, f.L, f.R = ip.A, ip.B, ip.L, ip.R
	ok := vhVerify(f.proof())
	nd.Assert(ok == vhCheck(f), "accepted exactly when the verification equations hold")
	if set == 0 {
		nd.Assert(ok, "the honest proof is accepted")
	}
	nd.Reach("end")
}

// vhPieces is a reader that delivers at most a few bytes at a time, as a connection may.
type vhPieces struct {
	b []byte
	n int
}

func (r *vhPieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	k := copy(p, r.b)
	r.b = r.b[k:]
	return k, nil
}

// VH_R05_Pieces: the encoding may arrive in pieces.
func VH_R05_Pieces() {
	m, k := nd.Param("m"), nd.Param("k")
	commits := nd.Param("commits") == 1
	f := vhAny(m, k)
	r := &vhPieces{f.bytes(commits), nd.Param("piece")}
	var q Proof
	nd.Assert(q.Decode(r, commits) == nil, "decoding succeeds")
	nd.Assert(len(r.b) == 0, "every byte is consumed")
	p := f.proof()
	nd.Assert(p.Equals(q, commits) && q.Equals(p, commits), "an equal proof")
	nd.Reach("end")
}

// VH_R06_Pieces: hostile bytes are treated alike in pieces.
func VH_R06_Pieces() {
	commits := nd.Param("commits") == 1
	b := nd.Bytes("b", nd.Param("n"))
	var p, q Proof
	err1 := p.Decode(bytes.NewReader(b), commits)
	err2 := q.Decode(&vhPieces{b, nd.Param("piece")}, commits)
	nd.Assert((err1 == nil) == (err2 == nil), "decoding depends on the bytes alone")
	if err1 != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(p.Equals(q, commits), "as does what is decoded")
	nd.Reach("ok")
}

// VH_R05_Shared: decoding into a copy of a proof leaves the original alone.
func VH_R05_Shared() {
	m, k, m2, k2 := nd.Param("m"), nd.Param("k"), nd.Param("m2"), nd.Param("k2")
	commits := nd.Param("commits") == 1
	f, g := vhAny(m, k), vhAny(m2, k2)
	p := f.proof()
	if nd.Param("wire") == 1 {
		p = Proof{}
		nd.Assert(p.Decode(bytes.NewReader(f.bytes(true)), true) == nil, "decoding succeeds")
	}
	q := p
	nd.Assert(q.Decode(bytes.NewReader(g.bytes(commits)), commits) == nil, "decoding succeeds")
	nd.Assert(bytes.Equal(vhSee(&p).bytes(true), f.bytes(true)), "the original is as it was")
	if commits {
		nd.Assert(bytes.Equal(vhSee(&q).bytes(true), g.bytes(true)), "the copy holds what was decoded")
	}
	b := g.bytes(true)
	var d Proof
	nd.Assert(d.Decode(bytes.NewReader(b), true) == nil, "decoding succeeds")
	for i := range b {
		b[i] = 0
	}
	nd.Assert(bytes.Equal(vhSee(&d).bytes(true), g.bytes(true)), "the proof keeps its own data")
	nd.Reach("end")
}

// VH_R04_Reuse: a verdict is about what the proof holds now.
func VH_R04_Reuse() {
	n := nd.Param("n")
	p, err := Prove(vhList(n), false)
	nd.Assert(err == nil, "proving succeeds")
	q, err := Prove(vhList(n), false)
	nd.Assert(err == nil, "proving succeeds")
	f, g := vhSee(&p), vhSee(&q)
	fb, gb := f.bytes(true), g.bytes(true)
	var v Proof
	nd.Assert(v.Decode(bytes.NewReader(fb), true) == nil, "decoding succeeds")
	nd.Assert(vhVerify(v), "the first proof is valid")
	nd.Assert(v.Decode(bytes.NewReader(gb), true) == nil, "decoding succeeds")
	nd.Assert(vhVerify(v), "the second proof is valid in the same variable")
	at := nd.Param("at")
	b := append([]byte{}, gb...)
	switch nd.Param("how") {
	case 0: // a component is that of the other proof
		copy(b[4+32*at:4+32*at+32], fb[4+32*at:])
		nd.Assume(!bytes.Equal(b, gb))
		nd.Assert(v.Decode(bytes.NewReader(b), true) == nil, "decoding succeeds")
	case 1: // a commitment changes in place
		v.V[at].Value.Add(&v.V[at].Value, &v.A)
		nd.Assume(!v.A.Equals(new(ristretto.Point).SetZero()))
	}
	nd.Assert(!vhVerify(v), "an altered proof fails")
	nd.Assert(v.Decode(bytes.NewReader(fb), true) == nil, "decoding succeeds")
	nd.Assert(vhVerify(v), "the first proof is valid again")
	nd.Reach("end")
}
