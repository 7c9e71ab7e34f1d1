package mlsag

import (
	"bytes"
	"encoding/binary"
	"io"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhSig is a signature as its wire format shows it.
type vhSig struct {
	c   ristretto.Scalar
	r   [][]ristretto.Scalar
	K   [][]ristretto.Point
	msg []byte
}

func vhMul(p *ristretto.Point, s *ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMult(p, s)
	return q
}

func vhG(s *ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMultBase(s)
	return q
}

func vhH(p *ristretto.Point) ristretto.Point {
	var q ristretto.Point
	q.Derive(p.Bytes())
	return q
}

func vhU32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (f *vhSig) bytes(keys bool) []byte {
	buf := &bytes.Buffer{}
	buf.Write(f.c.Bytes())
	buf.Write(vhU32(len(f.r)))
	k := 0
	if len(f.r) > 0 {
		k = len(f.r[0])
	}
	buf.Write(vhU32(k))
	for i := range f.r {
		for j := range f.r[i] {
			buf.Write(f.r[i][j].Bytes())
		}
	}
	if keys {
		for i := range f.K {
			for j := range f.K[i] {
				buf.Write(f.K[i][j].Bytes())
			}
		}
	}
	return buf.Bytes()
}

func vhVec(k []ristretto.Point) PubKeys {
	var p PubKeys
	for i := range k {
		p.AddPubKey(k[i])
	}
	return p
}

// sig makes the real object: responses through the wire format, keys through the public interface.
func (f *vhSig) sig() *Signature {
	s := &Signature{}
	nd.Assert(s.Decode(bytes.NewReader(f.bytes(false)), false) == nil, "a well-formed encoding decodes")
	for i := range f.K {
		s.PubKeys = append(s.PubKeys, vhVec(f.K[i]))
	}
	s.Msg = f.msg
	return s
}

func vhPoint(b []byte) ristretto.Point {
	var p ristretto.Point
	var x [32]byte
	copy(x[:], b)
	nd.Assert(p.SetBytes(&x), "an encoding holds valid points")
	return p
}

func vhScalar(b []byte) ristretto.Scalar {
	var s ristretto.Scalar
	var x [32]byte
	copy(x[:], b)
	s.SetBytes(&x)
	return s
}

func vhKeys(p PubKeys) []ristretto.Point {
	buf := &bytes.Buffer{}
	nd.Assert(p.Encode(buf) == nil, "encoding succeeds")
	var out []ristretto.Point
	for b := buf.Bytes(); len(b) > 0; b = b[32:] {
		out = append(out, vhPoint(b))
	}
	return out
}

// vhSee reads a signature through its wire format.
func vhSee(s *Signature) *vhSig {
	buf := &bytes.Buffer{}
	nd.Assert(s.Encode(buf, false) == nil, "encoding succeeds")
	b := buf.Bytes()
	f := &vhSig{c: vhScalar(b), msg: append([]byte{}, s.Msg...)}
	m := int(binary.BigEndian.Uint32(b[32:]))
	k := int(binary.BigEndian.Uint32(b[36:]))
	b = b[40:]
	nd.Assert(len(b) == 32*m*k, "one scalar for each response counted")
	for i := 0; i < m; i++ {
		var r []ristretto.Scalar
		for j := 0; j < k; j++ {
			r = append(r, vhScalar(b))
			b = b[32:]
		}
		f.r = append(f.r, r)
	}
	nd.Assert(len(b) == 0, "the encoding ends there")
	for i := range s.PubKeys {
		f.K = append(f.K, vhKeys(s.PubKeys[i]))
	}
	return f
}

// vhNext is the challenge after one ring member.
func vhNext(msg []byte, r []ristretto.Scalar, K, images []ristretto.Point, c *ristretto.Scalar) ristretto.Scalar {
	tr := append([]byte{}, msg...)
	for i := range K {
		p, q := vhG(&r[i]), vhMul(&K[i], c)
		p.Add(&p, &q)
		tr = append(tr, p.Bytes()...)
	}
	for i := range images {
		h := vhH(&K[i])
		p, q := vhMul(&h, &r[i]), vhMul(&images[i], c)
		p.Add(&p, &q)
		tr = append(tr, p.Bytes()...)
	}
	var d ristretto.Scalar
	d.Derive(tr)
	return d
}

// vhCloses recomputes the ring.
func vhCloses(f *vhSig, images []ristretto.Point) bool {
	c := f.c
	for i := range f.K {
		c = vhNext(f.msg, f.r[i], f.K[i], images, &c)
	}
	return c.Equals(&f.c)
}

func vhVerify(s *Signature, images []ristretto.Point) bool {
	ok, err := s.Verify(images)
	nd.Assert(ok == (err == nil), "a verdict or an error")
	return ok
}

func vhSecrets(n int) []ristretto.Scalar {
	var out []ristretto.Scalar
	for i := 0; i < n; i++ {
		out = append(out, nd.Scalar("x"))
	}
	return out
}

func vhPoints(name string, n int) []ristretto.Point {
	var out []ristretto.Point
	for i := 0; i < n; i++ {
		out = append(out, nd.Point(name))
	}
	return out
}

func vhRandomKeys(n int) []ristretto.Point {
	var out []ristretto.Point
	for i := 0; i < n; i++ {
		var s ristretto.Scalar
		s.Rand()
		out = append(out, vhG(&s))
	}
	return out
}

func vhSameP(a, b []ristretto.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func vhSameS(a, b []ristretto.Scalar) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

func vhPub(x []ristretto.Scalar) []ristretto.Point {
	var out []ristretto.Point
	for i := range x {
		out = append(out, vhG(&x[i]))
	}
	return out
}

func vhImages(x []ristretto.Scalar) []ristretto.Point {
	var out []ristretto.Point
	for i := range x {
		p := vhG(&x[i])
		h := vhH(&p)
		out = append(out, vhMul(&h, &x[i]))
	}
	return out
}

// vhProof is a proof object for the given secrets and decoys.
func vhProof(x []ristretto.Scalar, decoys [][]ristretto.Point, msg []byte) *Proof {
	p := &Proof{}
	for i := range x {
		p.AddSecret(x[i])
	}
	for i := range decoys {
		p.AddDecoy(vhVec(decoys[i]))
	}
	p.msg = msg
	return p
}

// VH_M01_Complete: any secrets, decoys and message, every position.
func VH_M01_Complete() {
	users, keys := nd.Param("users"), nd.Param("keys")
	nd.LazyHashes()
	nd.RandChoices(nd.Param("picks"))
	x := vhSecrets(keys)
	var decoys [][]ristretto.Point
	for i := 1; i < users; i++ {
		decoys = append(decoys, vhPoints("D", keys))
	}
	msg := nd.Bytes("msg", nd.Param("msg"))
	p := vhProof(x, decoys, msg)
	skip := nd.Param("skip") == 1
	sig, images, err := p.prove(skip)
	nd.Assert(err == nil, "signing succeeds")
	n := keys
	if skip {
		n--
	}
	nd.Assert(len(images) == n, "one key image per key")
	nd.Assert(vhVerify(sig, images), "the signature verifies")
	nd.Assert(vhSameP(images, vhImages(x)[:n]), "the key images are those of the secrets")
	// what arrives over the wire verifies as well
	buf := &bytes.Buffer{}
	nd.Assert(sig.Encode(buf, true) == nil, "encoding succeeds")
	t := &Signature{}
	nd.Assert(t.Decode(buf, true) == nil, "decoding succeeds")
	t.Msg = sig.Msg
	nd.Assert(vhVerify(t, images), "the decoded signature verifies")
	nd.Reach("end")
}

// VH_M01_Dual: the dual-key interface.
func VH_M01_Dual() {
	users := nd.Param("users")
	nd.LazyHashes()
	nd.RandChoices(nd.Param("picks"))
	x := []ristretto.Scalar{nd.NonZero("x"), nd.NonZero("y")}
	d := NewDualKey()
	for i := 1; i < users; i++ {
		d.AddDecoy(vhVec(vhPoints("D", 2)))
	}
	p0, p1 := d.SetPrimaryKey(x[0]), d.SetCommToZero(x[1])
	nd.Assert(vhSameP([]ristretto.Point{p0, p1}, vhPub(x)), "the keys of the secrets")
	if nd.Param("sub") == 1 {
		d.SubCommToZero(nd.Point("C"))
	}
	d.SetMsg(nd.Bytes("msg", nd.Param("msg")))
	sig, image, err := d.Prove()
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(vhVerify(sig, []ristretto.Point{image}), "the signature verifies")
	nd.Assert(vhSameP([]ristretto.Point{image}, vhImages(x[:1])), "the key image is that of the primary key")
	nd.Reach("end")
}

// VH_M01_DualRefused: a key that was not set is refused.
func VH_M01_DualRefused() {
	d := NewDualKey()
	w := nd.Param("which")
	if w&1 == 1 {
		d.SetPrimaryKey(nd.NonZero("x"))
	}
	if w&2 == 2 {
		d.SetCommToZero(nd.NonZero("y"))
	}
	_, _, err := d.Prove()
	nd.Assert((err != nil) == (w != 3), "refused exactly when a key is missing")
	nd.Reach("end")
}

// VH_M01_Mismatch: decoys of another size are refused.
func VH_M01_Mismatch() {
	keys, other := nd.Param("keys"), nd.Param("other")
	nd.LazyHashes()
	p := vhProof(vhSecrets(keys), [][]ristretto.Point{vhPoints("D", keys), vhPoints("E", other)}, nil)
	_, _, err := p.prove(false)
	nd.Assert((err == nil) == (keys == other), "refused exactly when the sizes differ")
	nd.Reach("end")
}

func vhAny(users, keys, msg int) *vhSig {
	f := &vhSig{c: nd.Scalar("c"), msg: nd.Bytes("msg", msg)}
	for i := 0; i < users; i++ {
		var r []ristretto.Scalar
		for j := 0; j < keys; j++ {
			r = append(r, nd.Scalar("r"))
		}
		f.r = append(f.r, r)
		f.K = append(f.K, vhPoints("K", keys))
	}
	return f
}

// VH_M02_Iff: arbitrary signatures are accepted exactly when the ring closes.
func VH_M02_Iff() {
	users, keys, images := nd.Param("users"), nd.Param("keys"), nd.Param("images")
	nd.LazyHashes()
	f := vhAny(users, keys, nd.Param("msg"))
	I := vhPoints("I", images)
	nd.Assert(vhVerify(f.sig(), I) == vhCloses(f, I), "accepted exactly when the ring closes")
	nd.Reach("end")
}

// VH_M02_Shapes: malformed signatures are rejected.
func VH_M02_Shapes() {
	ru, rk, ku, images := nd.Param("ru"), nd.Param("rk"), nd.Param("ku"), nd.Param("images")
	sizes := []int{nd.Param("k0"), nd.Param("k1"), nd.Param("k2")}
	f := vhAny(ru, rk, 3)
	f.K = nil
	bad := ru != ku || ru == 0 || images == 0
	for i := 0; i < ku; i++ {
		f.K = append(f.K, vhPoints("K", sizes[i]))
		bad = bad || sizes[i] != rk
	}
	bad = bad || images > rk
	nd.Assume(bad)
	nd.Assert(!vhVerify(f.sig(), vhPoints("I", images)), "a malformed signature is rejected")
	nd.Reach("end")
}

// vhHonest signs with random decoys; generic hashes.
func vhHonest(users, keys, msg int, skip bool) (*vhSig, []ristretto.Point, []ristretto.Scalar) {
	var x []ristretto.Scalar
	for i := 0; i < keys; i++ {
		x = append(x, nd.NonZero("x"))
	}
	var decoys [][]ristretto.Point
	for i := 1; i < users; i++ {
		decoys = append(decoys, vhRandomKeys(keys))
	}
	p := vhProof(x, decoys, nd.Bytes("msg", msg))
	sig, images, err := p.prove(skip)
	nd.Assert(err == nil, "signing succeeds")
	return vhSee(sig), images, x
}

// VH_M02_Tamper: an altered component makes an honest signature fail.
func VH_M02_Tamper() {
	users, keys, msg := nd.Param("users"), nd.Param("keys"), nd.Param("msg")
	nd.RandChoices(nd.Param("picks"))
	skip := nd.Param("skip") == 1
	f, images, _ := vhHonest(users, keys, msg, skip)
	nd.Assert(vhVerify(f.sig(), images), "the honest signature verifies")
	at := nd.Param("at")
	var pt *ristretto.Point
	var sc *ristretto.Scalar
	i, j := at/keys, at%keys
	switch nd.Param("what") {
	case 0:
		sc = &f.c
	case 1:
		sc = &f.r[i][j]
	case 2:
		pt = &f.K[i][j]
	case 3:
		if at >= len(images) {
			return
		}
		pt = &images[at]
	case 4:
		m := nd.Bytes("other", nd.Param("len"))
		nd.Assume(!bytes.Equal(m, f.msg))
		f.msg = m
	}
	if pt != nil {
		q := nd.Point("alt")
		nd.Assume(!q.Equals(pt))
		*pt = q
	}
	if sc != nil {
		q := nd.Scalar("alt")
		nd.Assume(!q.Equals(sc))
		*sc = q
	}
	nd.Assert(!vhVerify(f.sig(), images), "an altered signature fails")
	nd.Reach("end")
}

// VH_M02_Rearranged: members exchanged, left out or repeated, key images exchanged or left out.
func VH_M02_Rearranged() {
	users, keys := nd.Param("users"), nd.Param("keys")
	nd.RandChoices(nd.Param("picks"))
	x := []ristretto.Scalar{}
	for i := 0; i < keys; i++ {
		var s ristretto.Scalar
		s.Rand()
		x = append(x, s)
	}
	var decoys [][]ristretto.Point
	for i := 1; i < users; i++ {
		decoys = append(decoys, vhRandomKeys(keys))
	}
	sig, images, err := vhProof(x, decoys, nd.Bytes("msg", 4)).prove(false)
	nd.Assert(err == nil, "signing succeeds")
	f := vhSee(sig)
	switch nd.Param("how") {
	case 0: // two members' keys exchanged
		f.K[0], f.K[users-1] = f.K[users-1], f.K[0]
	case 1: // two members exchanged entirely
		f.K[0], f.K[users-1] = f.K[users-1], f.K[0]
		f.r[0], f.r[users-1] = f.r[users-1], f.r[0]
	case 2: // a member left out
		f.K, f.r = f.K[1:], f.r[1:]
	case 3:
		f.K, f.r = f.K[:users-1], f.r[:users-1]
	case 4: // a member repeated
		f.K, f.r = append(f.K, f.K[0]), append(f.r, f.r[0])
	case 5: // key images exchanged
		images[0], images[keys-1] = images[keys-1], images[0]
	case 6: // a key image left out
		images = images[1:]
	case 7:
		images = images[:keys-1]
	case 8: // the keys of one member exchanged
		k := f.K[0]
		k[0], k[keys-1] = k[keys-1], k[0]
	case 9: // rotated
		f.K, f.r = append(f.K[1:], f.K[0]), append(f.r[1:], f.r[0])
	}
	nd.Assert(!vhVerify(f.sig(), images), "a rearranged signature fails")
	nd.Reach("end")
}

// VH_M03_Function: images are a function of the key and different for different keys.
func VH_M03_Function() {
	x, y := nd.Scalar("x"), nd.Scalar("y")
	p, q := vhG(&x), vhG(&y)
	i, j := CalculateKeyImage(x, p), CalculateKeyImage(y, q)
	h := vhH(&p)
	want := vhMul(&h, &x)
	nd.Assert(i.Equals(&want), "x*H(xG)")
	nd.Assert(i.Equals(&j) == x.Equals(&y), "equal exactly for the same key")
	o := vhG(&x)
	nd.Assert(p.Equals(&o), "the public key is unchanged")
	nd.Reach("end")
}

// VH_M03_Same: two signatures by the same keys in different rings over different messages carry the same images.
func VH_M03_Same() {
	keys := nd.Param("keys")
	nd.LazyHashes()
	x := vhSecrets(keys)
	skip := nd.Param("skip") == 1
	var all [][]ristretto.Point
	for s := 0; s < 2; s++ {
		users := nd.Param([]string{"u0", "u1"}[s])
		var decoys [][]ristretto.Point
		for i := 1; i < users; i++ {
			decoys = append(decoys, vhPoints("D", keys))
		}
		_, images, err := vhProof(x, decoys, nd.Bytes("msg", 3+s)).prove(skip)
		nd.Assert(err == nil, "signing succeeds")
		all = append(all, images)
	}
	nd.Assert(vhSameP(all[0], all[1]), "the same key images")
	nd.Assert(vhSameP(all[0], vhImages(x)[:len(all[0])]), "which are those of the keys")
	nd.Reach("end")
}

// VH_M03_Forge: the owner of a key cannot sign under an image of their choice. The signer commits to a*G and b*H(K)
// for one of the keys, whose challenge then fixes the response.
func VH_M03_Forge() {
	users, keys, at := nd.Param("users"), nd.Param("keys"), nd.Param("at")
	x := vhSecrets(keys)
	images := vhImages(x)
	if nd.Param("skip") == 1 {
		images = images[:keys-1]
	}
	fake := nd.Point("I")
	nd.Assume(!fake.Equals(&images[at]))
	images[at] = fake
	f := &vhSig{msg: nd.Bytes("msg", 3)}
	for i := 1; i < users; i++ {
		f.K = append(f.K, vhRandomKeys(keys))
		var r []ristretto.Scalar
		for j := 0; j < keys; j++ {
			var s ristretto.Scalar
			s.Rand()
			r = append(r, s)
		}
		f.r = append(f.r, r)
	}
	f.K = append(f.K, vhPub(x))
	// the commitments
	tr := append([]byte{}, f.msg...)
	var a []ristretto.Scalar
	for i := range x {
		a = append(a, nd.Scalar("a"))
		p := vhG(&a[i])
		tr = append(tr, p.Bytes()...)
	}
	for i := range images {
		b := a[i]
		if i == at {
			b = nd.Scalar("b")
		}
		p := vhG(&x[i])
		h := vhH(&p)
		p = vhMul(&h, &b)
		tr = append(tr, p.Bytes()...)
	}
	var c ristretto.Scalar
	c.Derive(tr)
	f.c = c
	for i := 0; i+1 < users; i++ {
		c = vhNext(f.msg, f.r[i], f.K[i], images, &c)
	}
	var r []ristretto.Scalar
	for i := range x {
		var s ristretto.Scalar
		s.Mul(&c, &x[i])
		s.Sub(&a[i], &s)
		r = append(r, s)
	}
	f.r = append(f.r, r)
	nd.Assert(!vhVerify(f.sig(), images), "no signature under another image")
	nd.Reach("end")
}

// VH_M04_Signature: the wire format.
func VH_M04_Signature() {
	users, keys := nd.Param("users"), nd.Param("keys")
	with := nd.Param("with") == 1
	f := vhAny(users, keys, 3)
	s := f.sig()
	buf := &bytes.Buffer{}
	nd.Assert(s.Encode(buf, with) == nil, "encoding succeeds")
	nd.Assert(bytes.Equal(buf.Bytes(), f.bytes(with)), "components in order")
	if nd.Param("trail") == 1 {
		buf.WriteByte(7)
	}
	t := &Signature{}
	if nd.Param("used") == 1 {
		t = vhAny(2, 1, 1).sig()
	}
	nd.Assert(t.Decode(buf, with) == nil, "decoding succeeds")
	nd.Assert(buf.Len() == nd.Param("trail"), "exactly the signature is consumed")
	nd.Assert(t.Equals(*s, with) && s.Equals(*t, with), "an equal signature")
	if !with {
		t.PubKeys = s.PubKeys
	}
	g := vhSee(t)
	nd.Assert(bytes.Equal(g.bytes(true), f.bytes(true)), "the same components")
	nd.Reach("end")
}

func vhValid(p *ristretto.Point, b []byte) {
	var buf [32]byte
	copy(buf[:], b)
	var q ristretto.Point
	nd.Assert(q.SetBytes(&buf), "only valid points are accepted")
	nd.Assert(bytes.Equal(q.Bytes(), p.Bytes()), "each point is the one encoded")
}

// VH_M04_Hostile: arbitrary bytes.
func VH_M04_Hostile() {
	n := nd.Param("n")
	with := nd.Param("with") == 1
	b := nd.Bytes("b", n)
	nd.AllocLimit(1 << 20)
	nd.StepLimit(2000000)
	s := &Signature{}
	r := bytes.NewReader(b)
	if err := s.Decode(r, with); err != nil {
		nd.Reach("error")
		return
	}
	lr := uint32(b[32])<<24 | uint32(b[33])<<16 | uint32(b[34])<<8 | uint32(b[35])
	lk := uint32(b[36])<<24 | uint32(b[37])<<16 | uint32(b[38])<<8 | uint32(b[39])
	size := 40 + 32*int(lr)*int(lk)
	buf := &bytes.Buffer{}
	nd.Assert(s.Encode(buf, false) == nil, "encoding succeeds")
	nd.Assert(buf.Len() == size, "as many responses as announced")
	nd.Assert(bytes.Equal(buf.Bytes()[32:36], b[32:36]), "the announced number of members")
	for i := 0; i < size; i += 32 {
		if i == 32 {
			i += 8
		}
		if i == size {
			break
		}
		x, y := vhScalar(b[i:]), vhScalar(buf.Bytes()[i:])
		nd.Assert(x.Equals(&y), "each scalar is the one encoded")
	}
	if with {
		nd.Assert(len(s.PubKeys) == int(lr), "as many keys as members")
		for i := range s.PubKeys {
			nd.Assert(s.PubKeys[i].Len() == int(lk), "as many keys as responses")
			e := &bytes.Buffer{}
			nd.Assert(s.PubKeys[i].Encode(e) == nil, "encoding succeeds")
			for j := 0; j < int(lk); j++ {
				p := vhPoint(e.Bytes()[32*j:])
				vhValid(&p, b[size+32*(i*int(lk)+j):])
			}
		}
		size *= 2
		size -= 40
	}
	nd.Assert(n-r.Len() == size, "exactly the signature is consumed")
	nd.Reach("ok")
}

// VH_M04_Vectors: key and response vectors on their own.
func VH_M04_Vectors() {
	n, k := nd.Param("n"), nd.Param("k")
	b := nd.Bytes("b", n)
	nd.AllocLimit(1 << 20)
	nd.StepLimit(2000000)
	if nd.Param("keys") == 1 {
		var p PubKeys
		r := bytes.NewReader(b)
		err := p.Decode(r, uint32(k))
		if err == nil {
			nd.Assert(p.Len() == k && n-r.Len() == 32*k, "the keys asked for")
			for i, q := range vhKeys(p) {
				vhValid(&q, b[32*i:])
			}
			nd.Reach("ok")
		} else {
			nd.Reach("error")
		}
		return
	}
	var s Responses
	r := bytes.NewReader(b)
	err := s.Decode(r, uint32(k))
	nd.Assert((err == nil) == (n >= 32*k), "decodes exactly when there is enough")
	if err == nil {
		nd.Assert(s.Len() == k && n-r.Len() == 32*k, "the responses asked for")
		for i := range s {
			x := vhScalar(b[32*i:])
			nd.Assert(x.Equals(&s[i]), "each response is the one encoded")
		}
		nd.Reach("ok")
	}
}

// VH_M07_Signature: equality.
func VH_M07_Signature() {
	u1, k1, u2, k2 := nd.Param("u1"), nd.Param("k1"), nd.Param("u2"), nd.Param("k2")
	with := nd.Param("with") == 1
	f, g := vhAny(u1, k1, 1), vhAny(u2, k2, 1)
	if d := nd.Param("diff"); d >= 0 && u1 == u2 && k1 == k2 {
		// only one chosen component may differ
		n := 0
		is := func() bool { n++; return n-1 == d }
		if !is() {
			g.c = f.c
		}
		for i := range f.r {
			for j := range f.r[i] {
				if !is() {
					g.r[i][j] = f.r[i][j]
				}
				if !is() {
					g.K[i][j] = f.K[i][j]
				}
			}
		}
	}
	s, t := f.sig(), g.sig()
	want := f.c.Equals(&g.c) && len(f.r) == len(g.r)
	for i := 0; want && i < len(f.r); i++ {
		want = vhSameS(f.r[i], g.r[i])
	}
	if with {
		want = want && len(f.K) == len(g.K)
		for i := 0; want && i < len(f.K); i++ {
			want = vhSameP(f.K[i], g.K[i])
		}
	}
	nd.Assert(s.Equals(*t, with) == want, "equal exactly when every compared component agrees")
	nd.Assert(t.Equals(*s, with) == want, "whichever is the receiver")
	nd.Assert(s.Equals(*s, with), "reflexive")
	nd.Reach("end")
}

// VH_M07_Rings: signatures whose rings differ in shape.
func VH_M07_Rings() {
	f := vhAny(2, 2, 1)
	s, t := f.sig(), f.sig()
	var K [][]ristretto.Point
	sizes := []int{nd.Param("k0"), nd.Param("k1"), nd.Param("k2")}
	for i := 0; i < nd.Param("ku"); i++ {
		var v []ristretto.Point
		for j := 0; j < sizes[i]; j++ {
			v = append(v, f.K[i%2][j%2])
		}
		K = append(K, v)
	}
	t.PubKeys = nil
	for i := range K {
		t.PubKeys = append(t.PubKeys, vhVec(K[i]))
	}
	want := nd.Param("ku") == 2 && sizes[0] == 2 && sizes[1] == 2
	nd.Assert(s.Equals(*t, true) == want && t.Equals(*s, true) == want, "equal exactly when the rings agree")
	nd.Assert(s.Equals(*t, false) && t.Equals(*s, false), "without keys only the responses count")
	nd.Reach("end")
}

// VH_M07_Vectors: key and response vectors.
func VH_M07_Vectors() {
	n, k := nd.Param("n"), nd.Param("k")
	a, b := vhPoints("a", n), vhPoints("b", k)
	p, q := vhVec(a), vhVec(b)
	want := vhSameP(a, b)
	nd.Assert(p.Equals(q) == want && q.Equals(p) == want, "keys")
	var x, y Responses
	var xs, ys []ristretto.Scalar
	for i := 0; i < n; i++ {
		s := nd.Scalar("s")
		xs = append(xs, s)
		x.AddResponse(s)
	}
	for i := 0; i < k; i++ {
		s := nd.Scalar("t")
		ys = append(ys, s)
		y.AddResponse(s)
	}
	want = vhSameS(xs, ys)
	nd.Assert(x.Equals(y) == want && y.Equals(x) == want, "responses")
	nd.Reach("end")
}

// vhPieces is a reader that delivers at most a few bytes at a time, as a connection may.
type vhPieces struct {
	b []byte
	n int
}

func (r *vhPieces) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	k := copy(p, r.b)
	r.b = r.b[k:]
	return k, nil
}

// VH_M04_Pieces: signatures, and hostile bytes, are treated alike in pieces.
func VH_M04_Pieces() {
	with := nd.Param("with") == 1
	var b []byte
	if n := nd.Param("n"); n >= 0 {
		b = nd.Bytes("b", n)
	} else {
		b = vhAny(nd.Param("users"), nd.Param("keys"), 1).bytes(with)
	}
	p, q := &Signature{}, &Signature{}
	err1 := p.Decode(bytes.NewReader(b), with)
	err2 := q.Decode(&vhPieces{b, nd.Param("piece")}, with)
	nd.Assert((err1 == nil) == (err2 == nil), "decoding depends on the bytes alone")
	if err1 != nil {
		nd.Reach("error")
		return
	}
	nd.Assert(p.Equals(*q, with), "as does what is decoded")
	nd.Reach("ok")
}

// VH_M02_Made: whoever has the secret keys of one member can sign with any responses for the others.
func VH_M02_Made() {
	users, keys, at := nd.Param("users"), nd.Param("keys"), nd.Param("at")
	var x, a []ristretto.Scalar
	for i := 0; i < keys; i++ {
		x = append(x, nd.Scalar("x"))
		a = append(a, nd.Scalar("a"))
	}
	images := vhImages(x)[:nd.Param("images")]
	f := vhAny(users, keys, nd.Param("msg"))
	f.K[at] = vhPub(x)
	var zero ristretto.Scalar
	zero.SetZero()
	c := vhNext(f.msg, a, f.K[at], images, &zero)
	for i := 1; i < users; i++ {
		j := (at + i) % users
		if j == 0 {
			f.c = c
		}
		c = vhNext(f.msg, f.r[j], f.K[j], images, &c)
	}
	if at == 0 {
		f.c = c
	}
	for i := range x {
		var r ristretto.Scalar
		r.Mul(&c, &x[i])
		f.r[at][i].Sub(&a[i], &r)
	}
	nd.Assert(vhVerify(f.sig(), images), "a signature made by the rules is accepted")
	nd.Reach("end")
}
