package blsag

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

func vhMul(p *ristretto.Point, s *ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMult(p, s)
	return q
}

func vhG(s *ristretto.Scalar) ristretto.Point {
	var q ristretto.Point
	q.ScalarMultBase(s)
	return q
}

func vhH(p *ristretto.Point) ristretto.Point {
	var q ristretto.Point
	q.Derive(p.Bytes())
	return q
}

func vhImage(x *ristretto.Scalar) ristretto.Point {
	p := vhG(x)
	h := vhH(&p)
	return vhMul(&h, x)
}

// vhNext is the challenge after one ring member.
func vhNext(msg []byte, s *ristretto.Scalar, K, I *ristretto.Point, c *ristretto.Scalar) ristretto.Scalar {
	tr := append([]byte{}, msg...)
	p, q := vhG(s), vhMul(K, c)
	p.Add(&p, &q)
	tr = append(tr, p.Bytes()...)
	h := vhH(K)
	p, q = vhMul(&h, s), vhMul(I, c)
	p.Add(&p, &q)
	tr = append(tr, p.Bytes()...)
	var d ristretto.Scalar
	d.Derive(tr)
	return d
}

func vhCloses(msg []byte, f *RingSignature) bool {
	c := f.C
	for i := range f.PubKeys {
		c = vhNext(msg, &f.S[i], &f.PubKeys[i], &f.I, &c)
	}
	return c.Equals(&f.C)
}

func vhPoints(name string, n int) []ristretto.Point {
	var out []ristretto.Point
	for i := 0; i < n; i++ {
		out = append(out, nd.Point(name))
	}
	return out
}

func vhRandomKeys(n int) []ristretto.Point {
	var out []ristretto.Point
	for i := 0; i < n; i++ {
		var s ristretto.Scalar
		s.Rand()
		out = append(out, vhG(&s))
	}
	return out
}

func vhSame(a, b []ristretto.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}

// vhCopy shares nothing with the original.
func vhCopy(f RingSignature) RingSignature {
	f.S = append([]ristretto.Scalar{}, f.S...)
	f.PubKeys = append([]ristretto.Point{}, f.PubKeys...)
	return f
}

func vhEqual(f, g *RingSignature) bool {
	ok := f.I.Equals(&g.I) && f.C.Equals(&g.C) && vhSame(f.PubKeys, g.PubKeys) && len(f.S) == len(g.S)
	for i := 0; ok && i < len(f.S); i++ {
		ok = f.S[i].Equals(&g.S[i])
	}
	return ok
}

// vhRing: every decoy once, the signer once.
func vhRing(ring, mixin []ristretto.Point, own *ristretto.Point) bool {
	want := append(append([]ristretto.Point{}, mixin...), *own)
	if len(ring) != len(want) {
		return false
	}
	used := make([]bool, len(want))
	for i := range ring {
		found := false
		for j := range want {
			if !used[j] && !found && ring[i].Equals(&want[j]) {
				used[j], found = true, true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// VH_S01_Complete: any message, key and decoys, every position.
func VH_S01_Complete() {
	nd.LazyHashes()
	nd.RandChoices(nd.Param("picks"))
	x := nd.Scalar("x")
	mixin := vhPoints("D", nd.Param("n"))
	msg := nd.Bytes("msg", nd.Param("msg"))
	sig := Sign(msg, mixin, x)
	nd.Assert(Verify(msg, sig), "the signature verifies")
	nd.Assert(len(sig.S) == len(mixin)+1 && len(sig.PubKeys) == len(mixin)+1, "one response and key per member")
	I := vhImage(&x)
	nd.Assert(sig.I.Equals(&I), "the key image is that of the key")
	nd.Reach("end")
}

// VH_S01_Ring: the ring is the given keys and the signer's own; nothing of the caller's changes, and a second signature
// over the same inputs leaves the first one alone.
func VH_S01_Ring() {
	n, spare := nd.Param("n"), nd.Param("spare")
	nd.RandChoices(nd.Param("picks"))
	x := nd.Scalar("x")
	all := vhRandomKeys(n + spare)
	if nd.Param("dup") == 1 && n > 1 {
		all[n-1] = all[0]
	}
	keep := append([]ristretto.Point{}, all...)
	msg := nd.Bytes("msg", 4)
	msg0 := append([]byte{}, msg...)
	sig := Sign(msg, all[:n], x)
	own := vhG(&x)
	nd.Assert(vhRing(sig.PubKeys, keep[:n], &own), "the ring is the given keys and the signer's own")
	first := vhCopy(sig)
	sig2 := Sign(msg, all[:n], x)
	nd.Assert(vhRing(sig2.PubKeys, keep[:n], &own), "the ring is the given keys and the signer's own")
	nd.Assert(vhEqual(&first, &sig), "the first signature is unchanged")
	nd.Assert(vhSame(all, keep), "the caller's keys are as they were")
	nd.Assert(Verify(msg, sig) && Verify(msg, sig2), "both verify")
	nd.Assert(vhEqual(&first, &sig), "verifying changes nothing")
	nd.Assert(bytes.Equal(msg, msg0), "the message is as it was")
	// later changes of the caller's list do not reach the signature
	for i := range all {
		all[i].SetBase()
	}
	nd.Assert(vhEqual(&first, &sig), "the signature keeps its own keys")
	nd.Reach("end")
}

func vhAny(n, s int) RingSignature {
	f := RingSignature{I: nd.Point("I"), C: nd.Scalar("c"), PubKeys: vhPoints("K", n)}
	for i := 0; i < s; i++ {
		f.S = append(f.S, nd.Scalar("s"))
	}
	return f
}

// VH_S02_Iff: arbitrary signatures.
func VH_S02_Iff() {
	n := nd.Param("n")
	nd.LazyHashes()
	f := vhAny(n, n)
	g := vhCopy(f)
	msg := nd.Bytes("msg", nd.Param("msg"))
	nd.Assert(Verify(msg, f) == vhCloses(msg, &g), "accepted exactly when the ring closes")
	nd.Assert(vhEqual(&f, &g), "verifying changes nothing")
	nd.Reach("end")
}

// VH_S02_Shapes: malformed signatures.
func VH_S02_Shapes() {
	n, s := nd.Param("n"), nd.Param("s")
	nd.Assume(n != s || n == 0)
	nd.LazyHashes()
	nd.Assert(!Verify(nd.Bytes("msg", 3), vhAny(n, s)), "a malformed signature is rejected")
	nd.Reach("end")
}

// VH_S02_Empty: the signature that was never made.
func VH_S02_Empty() {
	nd.Assert(!Verify(nd.Bytes("msg", nd.Param("msg")), RingSignature{}), "an empty signature is rejected")
	nd.Reach("end")
}

// VH_S02_Tamper: an altered component makes an honest signature fail.
func VH_S02_Tamper() {
	n, at := nd.Param("n"), nd.Param("at")
	nd.RandChoices(nd.Param("picks"))
	x := nd.NonZero("x")
	msg := nd.Bytes("msg", nd.Param("msg"))
	f := Sign(msg, vhRandomKeys(n), x)
	nd.Assert(Verify(msg, f), "the honest signature verifies")
	var pt *ristretto.Point
	var sc *ristretto.Scalar
	switch nd.Param("what") {
	case 0:
		sc = &f.C
	case 1:
		sc = &f.S[at]
	case 2:
		pt = &f.PubKeys[at]
	case 3:
		pt = &f.I
	case 4:
		m := nd.Bytes("other", nd.Param("len"))
		nd.Assume(!bytes.Equal(m, msg))
		msg = m
	}
	if pt != nil {
		q := nd.Point("alt")
		nd.Assume(!q.Equals(pt))
		*pt = q
	}
	if sc != nil {
		q := nd.Scalar("alt")
		nd.Assume(!q.Equals(sc))
		*sc = q
	}
	nd.Assert(!Verify(msg, f), "an altered signature fails")
	nd.Reach("end")
}

// VH_S02_Rearranged: members exchanged, left out, added.
func VH_S02_Rearranged() {
	n := nd.Param("n")
	nd.RandChoices(nd.Param("picks"))
	var x ristretto.Scalar
	x.Rand()
	msg := nd.Bytes("msg", 4)
	f := Sign(msg, vhRandomKeys(n), x)
	k, s := f.PubKeys, f.S
	switch nd.Param("how") {
	case 0:
		k[0], k[n] = k[n], k[0]
	case 1:
		k[0], k[n] = k[n], k[0]
		s[0], s[n] = s[n], s[0]
	case 2:
		s[0], s[n] = s[n], s[0]
	case 3:
		f.PubKeys, f.S = k[1:], s[1:]
	case 4:
		f.PubKeys, f.S = k[:n], s[:n]
	case 5:
		f.PubKeys, f.S = append(k, k[0]), append(s, s[0])
	case 6:
		f.PubKeys, f.S = append(k[1:], k[0]), append(s[1:], s[0])
	case 7:
		f.PubKeys, f.S = append(k, vhRandomKeys(1)[0]), append(s, s[0])
	}
	nd.Assert(!Verify(msg, f), "a rearranged signature fails")
	nd.Reach("end")
}

// VH_S02_Forge: the owner of a key cannot sign under another image.
func VH_S02_Forge() {
	n := nd.Param("n")
	x := nd.Scalar("x")
	own := vhG(&x)
	h := vhH(&own)
	I := vhMul(&h, &x)
	fake := nd.Point("I")
	nd.Assume(!fake.Equals(&I))
	msg := nd.Bytes("msg", 3)
	f := RingSignature{I: fake, PubKeys: append(vhRandomKeys(n), own)}
	for i := 0; i < n; i++ {
		var s ristretto.Scalar
		s.Rand()
		f.S = append(f.S, s)
	}
	a, b := nd.Scalar("a"), nd.Scalar("b")
	p, q := vhG(&a), vhMul(&h, &b)
	tr := append(append(append([]byte{}, msg...), p.Bytes()...), q.Bytes()...)
	var c ristretto.Scalar
	c.Derive(tr)
	f.C = c
	for i := 0; i < n; i++ {
		c = vhNext(msg, &f.S[i], &f.PubKeys[i], &fake, &c)
	}
	var r ristretto.Scalar
	r.Mul(&c, &x)
	r.Sub(&a, &r)
	f.S = append(f.S, r)
	nd.Assert(!Verify(msg, f), "no signature under another image")
	nd.Reach("end")
}

// VH_S03_Same: the image does not depend on ring, message or randomness.
func VH_S03_Same() {
	x, y := nd.Scalar("x"), nd.Scalar("y")
	f := Sign(nd.Bytes("msg", 3), vhRandomKeys(nd.Param("n")), x)
	g := Sign(nd.Bytes("msg", 4), vhRandomKeys(nd.Param("m")), y)
	I := vhImage(&x)
	nd.Assert(f.I.Equals(&I), "x*H(xG)")
	if x.Equals(&y) {
		nd.Assert(f.I.Equals(&g.I), "the same key, the same image")
		nd.Reach("same")
	} else {
		nd.Assert(!f.I.Equals(&g.I), "another key, another image")
		nd.Reach("other")
	}
}

// vhWhere finds the signer.
func vhWhere(f *RingSignature, own *ristretto.Point) int {
	at := -1
	for i := range f.PubKeys {
		if f.PubKeys[i].Equals(own) {
			nd.Assert(at < 0, "the signer is there once")
			at = i
		}
	}
	nd.Assert(at >= 0, "the signer is there")
	return at
}

// VH_M06_bDraws: the nonce and each decoy response is a random draw of its own.
func VH_M06_bDraws() {
	nd.RandChoices(nd.Param("picks"))
	x := nd.Scalar("x")
	own := vhG(&x)
	mixin := vhRandomKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 3)
	nd.RecordEntropy()
	var vals []ristretto.Scalar
	for s := 0; s < nd.Param("sigs"); s++ {
		f := Sign(msg, mixin, x)
		at := vhWhere(&f, &own)
		c := f.C
		for i := range f.PubKeys {
			if i == at {
				var t ristretto.Scalar
				t.Mul(&c, &x)
				t.Add(&t, &f.S[i])
				vals = append(vals, t)
			} else {
				vals = append(vals, f.S[i])
			}
			c = vhNext(msg, &f.S[i], &f.PubKeys[i], &f.I, &c)
		}
	}
	draws := nd.Draws()
	for i := range draws {
		for j := 0; j < i; j++ {
			nd.Assume(!draws[i].Equals(&draws[j])) // as they are, but for luck
		}
	}
	used := make([]bool, len(draws))
	for i := range vals {
		found := false
		for j := range draws {
			if !found && !used[j] && vals[i].Equals(&draws[j]) {
				used[j], found = true, true
			}
		}
		nd.Assert(found, "a random draw of its own")
	}
	nd.Reach("end")
}

// VH_M06_bPosition: every position is possible and the clock does not decide it.
func VH_M06_bPosition() {
	n := nd.Param("n")
	nd.FreezeClock()
	mixin := vhRandomKeys(n)
	x := nd.Scalar("x")
	own := vhG(&x)
	pos := [2]int{}
	for s := range pos {
		f := Sign([]byte("m"), mixin, x)
		pos[s] = vhWhere(&f, &own)
		if s == 0 {
			for i := 0; i <= n; i++ {
				if pos[0] == i {
					nd.MustReach([]string{"p0", "p1", "p2", "p3"}[i])
				}
			}
			if nd.Param("two") == 0 {
				nd.Reach("end")
				return
			}
		}
	}
	if pos[0] != pos[1] {
		nd.MustReach("differ")
	} else {
		nd.MustReach("same")
	}
	nd.Reach("end")
}

// VH_S02_Made: whoever has the secret key of one member can sign with any responses for the others.
func VH_S02_Made() {
	n, at := nd.Param("n"), nd.Param("at")
	x, a := nd.Scalar("x"), nd.Scalar("a")
	msg := nd.Bytes("msg", nd.Param("msg"))
	f := vhAny(n, n)
	f.PubKeys[at] = vhG(&x)
	f.I = vhImage(&x)
	var zero ristretto.Scalar
	zero.SetZero()
	c := vhNext(msg, &a, &f.PubKeys[at], &f.I, &zero)
	for i := 1; i < n; i++ {
		j := (at + i) % n
		if j == 0 {
			f.C = c
		}
		c = vhNext(msg, &f.S[j], &f.PubKeys[j], &f.I, &c)
	}
	if at == 0 {
		f.C = c
	}
	var r ristretto.Scalar
	r.Mul(&c, &x)
	f.S[at].Sub(&a, &r)
	nd.Assert(Verify(msg, f), "a signature made by the rules is accepted")
	nd.Reach("end")
}

// VH_S02_Reuse: a verdict is about what message and signature hold now.
func VH_S02_Reuse() {
	n, at := nd.Param("n"), nd.Param("at")
	nd.RandChoices(1)
	x := nd.NonZero("x")
	msg := nd.Bytes("msg", 5)
	f := Sign(msg, vhRandomKeys(n), x)
	g := vhCopy(f)
	nd.Assert(Verify(msg, f), "the signature verifies")
	switch nd.Param("how") {
	case 0:
		c, old := nd.Byte("c"), msg[at]
		nd.Assume(c != old)
		msg[at] = c
		nd.Assert(!Verify(msg, f), "not for another message")
		msg[at] = old
	case 1:
		f.PubKeys[at] = vhRandomKeys(1)[0]
		nd.Assert(!Verify(msg, f), "not for another ring")
		f.PubKeys[at] = g.PubKeys[at]
	case 2:
		f.S[at].Rand()
		nd.Assert(!Verify(msg, f), "not with another response")
		f.S[at] = g.S[at]
	case 3:
		f.I = vhRandomKeys(1)[0]
		nd.Assert(!Verify(msg, f), "not under another image")
		f.I = g.I
	case 4:
		f.C.Rand()
		nd.Assert(!Verify(msg, f), "not with another challenge")
		f.C = g.C
	}
	nd.Assert(Verify(msg, f), "the signature still verifies")
	nd.Assert(vhEqual(&f, &g), "verifying changes nothing")
	nd.Reach("end")
}
