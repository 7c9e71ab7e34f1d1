package mlsag

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_M05_Coincide: decoys that equal each other or the signer, possibly in the same memory.
func VH_M05_Coincide() {
	n, pat, keys := nd.Param("n"), nd.Param("pat"), nd.Param("keys")
	nd.RandChoices(nd.Param("picks"))
	var x []ristretto.Scalar
	for i := 0; i < keys; i++ {
		var s ristretto.Scalar
		s.Rand()
		x = append(x, s)
	}
	neutral := make([]ristretto.Point, keys)
	for i := range neutral {
		neutral[i].SetZero()
	}
	same := vhRandomKeys(1)
	for len(same) < keys {
		same = append(same, same[0])
	}
	pool := [][]ristretto.Point{vhRandomKeys(keys), vhPub(x), neutral, same}
	vecs := vhVecs(pool)
	var list []PubKeys
	var d [][]ristretto.Point
	for i := 0; i < n; i++ {
		k := pat % 4
		pat /= 4
		d = append(d, pool[k])
		list = append(list, vecs[k])
	}
	p := &Proof{}
	for i := range x {
		p.AddSecret(x[i])
	}
	if nd.Param("one") == 1 {
		for i := range list {
			p.AddDecoy(list[i])
		}
	} else {
		p.AddDecoys(list)
	}
	nd.Assert(p.LenMembers() == n, "one member per decoy so far")
	p.msg = nd.Bytes("msg", 3)
	want := append(vhCopy(d), vhPub(x))
	for i := 0; i < 2; i++ {
		sig, images, err := p.prove(false)
		nd.Assert(err == nil, "signing succeeds")
		nd.Assert(vhIsRing(sig.PubKeys, want), "the ring is the decoys and the signer")
		nd.Assert(vhVerify(sig, images), "the signature verifies")
		nd.Assert(vhSameP(images, vhImages(x)), "the key images are those of the secrets")
		nd.Assert(vhSameVecs(vecs, pool), "the caller's keys are as they were")
	}
	nd.Reach("end")
}

// VH_M05_SubCoincide: the commitment subtracted equals keys of the ring.
func VH_M05_SubCoincide() {
	n := nd.Param("n")
	nd.RandChoices(1)
	x := []ristretto.Scalar{nd.NonZero("x"), nd.NonZero("y")}
	d := vhDecoys(n, 2)
	if nd.Param("dup") == 1 {
		d[n-1] = d[0]
	}
	var c ristretto.Point
	switch nd.Param("what") {
	case 0:
		c = d[0][1]
	case 1:
		c = d[0][0]
	case 2:
		c.SetZero()
	case 3:
		c = vhG(&x[1])
	case 4:
		c.SetBase()
	case 5:
		c.Neg(&d[n-1][1])
	case 6:
		c = d[n-1][1]
	}
	vecs := vhVecs(d)
	k := NewDualKey()
	k.SetPrimaryKey(x[0])
	k.SetCommToZero(x[1])
	k.AddDecoys(vecs)
	k.SetMsg(nd.Bytes("msg", 3))
	want := vhCopy(d)
	for i := 0; i < nd.Param("times"); i++ {
		k.SubCommToZero(c)
		for i := range want {
			want[i][1].Sub(&want[i][1], &c)
		}
	}
	sig, image, err := k.Prove()
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(vhIsRing(sig.PubKeys, append(vhCopy(want), vhPub(x))), "the ring is the adjusted decoys and the signer")
	nd.Assert(vhVerify(sig, []ristretto.Point{image}), "the signature verifies")
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	nd.Reach("end")
}

// VH_M05_Many: a ring of many members is complete.
func VH_M05_Many() {
	n, keys := nd.Param("n"), nd.Param("keys")
	nd.RandChoices(1)
	var x []ristretto.Scalar
	for i := 0; i < keys; i++ {
		var s ristretto.Scalar
		s.Rand()
		x = append(x, s)
	}
	d := vhDecoys(n, keys)
	vecs := vhVecs(d)
	p := &Proof{}
	p.AddDecoys(vecs)
	for i := range x {
		p.AddSecret(x[i])
	}
	p.msg = nd.Bytes("msg", 3)
	nd.Assert(p.LenMembers() == n, "one member per decoy so far")
	sig, images, err := p.prove(false)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(vhIsRing(sig.PubKeys, append(vhCopy(d), vhPub(x))), "the ring is the decoys and the signer")
	nd.Assert(vhVerify(sig, images), "the signature verifies")
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	nd.Reach("end")
}

// VH_M07_Wide: signatures that differ in one component only, anywhere.
func VH_M07_Wide() {
	u, k, at := nd.Param("u"), nd.Param("k"), nd.Param("at")
	f := vhAny(u, k, 2)
	g := &vhSig{c: f.c, msg: f.msg}
	for i := range f.r {
		g.r = append(g.r, append([]ristretto.Scalar{}, f.r[i]...))
		g.K = append(g.K, append([]ristretto.Point{}, f.K[i]...))
	}
	s, t := f.sig(), g.sig()
	nd.Assert(s.Equals(*t, true) && t.Equals(*s, true), "equal components, equal signatures")
	key := nd.Param("key") == 1
	if key {
		q := nd.Point("alt")
		nd.Assume(!q.Equals(&g.K[at/k][at%k]))
		g.K[at/k][at%k] = q
	} else {
		q := nd.Scalar("alt")
		nd.Assume(!q.Equals(&g.r[at/k][at%k]))
		g.r[at/k][at%k] = q
	}
	t = g.sig()
	nd.Assert(!s.Equals(*t, true) && !t.Equals(*s, true), "a component differs")
	nd.Assert(s.Equals(*t, false) == key && t.Equals(*s, false) == key, "keys are compared when asked for")
	nd.Reach("end")
}

// VH_M04_Long: an encoding holds each component, whatever the counts.
func VH_M04_Long() {
	users, keys := nd.Param("users"), nd.Param("keys")
	f := &vhSig{c: nd.Scalar("c"), msg: nd.Bytes("msg", 1)}
	r, k := vhSecrets(keys), vhRandomKeys(keys)
	for i := 0; i < users; i++ {
		f.r = append(f.r, r)
		f.K = append(f.K, k)
	}
	s := f.sig()
	buf := &bytes.Buffer{}
	nd.Assert(s.Encode(buf, true) == nil, "encoding succeeds")
	t := &Signature{}
	nd.Assert(t.Decode(buf, true) == nil, "decoding succeeds")
	nd.Assert(buf.Len() == 0, "exactly the signature is consumed")
	nd.Assert(t.Equals(*s, true) && s.Equals(*t, true), "an equal signature")
	nd.Assert(len(t.PubKeys) == users, "every member")
	nd.Reach("end")
}
