package mlsag

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhIsRing: the ring holds every one of the given vectors exactly once.
func vhIsRing(ring []PubKeys, want [][]ristretto.Point) bool {
	if len(ring) != len(want) {
		return false
	}
	used := make([]bool, len(want))
	for i := range ring {
		k := vhKeys(ring[i])
		found := false
		for j := range want {
			if !used[j] && !found && vhSameP(k, want[j]) {
				used[j], found = true, true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// vhCopy is a copy that shares nothing.
func vhCopy(k [][]ristretto.Point) [][]ristretto.Point {
	var out [][]ristretto.Point
	for i := range k {
		out = append(out, append([]ristretto.Point{}, k[i]...))
	}
	return out
}

func vhDecoys(n, keys int) [][]ristretto.Point {
	var out [][]ristretto.Point
	for i := 0; i < n; i++ {
		out = append(out, vhRandomKeys(keys))
	}
	return out
}

func vhVecs(k [][]ristretto.Point) []PubKeys {
	var out []PubKeys
	for i := range k {
		out = append(out, vhVec(k[i]))
	}
	return out
}

func vhSameVecs(a []PubKeys, b [][]ristretto.Point) bool {
	for i := range a {
		if !vhSameP(vhKeys(a[i]), b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

// vhFirst: out is what comes first when the keys are encoded.
func vhFirst(p PubKeys, out ristretto.Point) bool {
	buf := new(bytes.Buffer)
	if p.Encode(buf) != nil || buf.Len() < 32 {
		return false
	}
	return bytes.Equal(buf.Bytes()[:32], out.Bytes())
}

// VH_M05_Ring: the ring is decoys plus signer; the caller's keys, list and message stay as they are, and signing again
// (after adding more decoys) gives a ring of that kind again and leaves the first signature alone.
func VH_M05_Ring() {
	n, more, keys := nd.Param("n"), nd.Param("more"), nd.Param("keys")
	nd.RandChoices(nd.Param("picks"))
	skip := nd.Param("skip") == 1
	x := vhSecrets(keys)
	d := vhDecoys(n+more, keys)
	vecs := vhVecs(d)
	msg := nd.Bytes("msg", 5)
	msg0 := append([]byte{}, msg...)
	p := &Proof{}
	order := nd.Param("order")
	add := func(from, to int) {
		if order&1 == 1 {
			p.AddDecoys(vecs[from:to])
			return
		}
		for i := from; i < to; i++ {
			p.AddDecoy(vecs[i])
		}
	}
	if order&2 == 2 {
		add(0, n)
	}
	for i := range x {
		p.AddSecret(x[i])
	}
	if order&2 == 0 {
		add(0, n)
	}
	p.msg = msg
	nd.Assert(p.LenMembers() == n, "one member per decoy so far")
	sig, images, err := p.prove(skip)
	nd.Assert(err == nil, "signing succeeds")
	want := append(vhCopy(d[:n]), vhPub(x))
	nd.Assert(vhIsRing(sig.PubKeys, want), "the ring is the decoys and the signer")
	for i := range sig.PubKeys {
		if keys > 0 {
			out := sig.PubKeys[i].OutputKey()
			nd.Assert(vhFirst(sig.PubKeys[i], out), "the output key is the first")
		}
	}
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	nd.Assert(bytes.Equal(msg, msg0) && bytes.Equal(sig.Msg, msg0), "the message is as it was")
	first := vhSee(sig)

	add(n, n+more)
	sig2, images2, err := p.prove(skip)
	nd.Assert(err == nil, "signing again succeeds")
	want = append(vhCopy(d), vhPub(x))
	nd.Assert(vhIsRing(sig2.PubKeys, want), "the second ring is the decoys and the signer")
	nd.Assert(vhSameP(images, images2), "the same key images")
	nd.Assert(vhVerify(sig2, images2), "the second signature verifies")
	nd.Assert(vhVerify(sig, images), "the first signature still verifies")
	again := vhSee(sig)
	nd.Assert(bytes.Equal(first.bytes(true), again.bytes(true)), "the first signature is unchanged")
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	nd.Assert(bytes.Equal(msg, msg0), "the message is as it was")
	nd.Reach("end")
}

// VH_M05_Verify: verifying changes nothing.
func VH_M05_Verify() {
	users, keys, n := nd.Param("users"), nd.Param("keys"), nd.Param("images")
	nd.LazyHashes()
	f := vhAny(users, keys, 4)
	s := f.sig()
	images := vhPoints("I", n)
	images0 := append([]ristretto.Point{}, images...)
	vhVerify(s, images)
	g := vhSee(s)
	nd.Assert(bytes.Equal(f.bytes(true), g.bytes(true)) && bytes.Equal(f.msg, g.msg), "the signature is as it was")
	nd.Assert(vhSameP(images, images0), "the key images are as they were")
	nd.Reach("end")
}

// VH_M05_Sub: subtracting a commitment changes the second key of each decoy and nothing else, before and after signing.
func VH_M05_Sub() {
	n, times := nd.Param("n"), nd.Param("times")
	nd.RandChoices(nd.Param("picks"))
	x := []ristretto.Scalar{nd.NonZero("x"), nd.NonZero("y")}
	d := vhDecoys(n, 2)
	vecs := vhVecs(d)
	k := NewDualKey()
	k.SetPrimaryKey(x[0])
	k.SetCommToZero(x[1])
	k.AddDecoys(vecs)
	msg := nd.Bytes("msg", 3)
	k.SetMsg(msg)
	want := vhCopy(d)
	sub := func() {
		c := nd.Point("C")
		k.SubCommToZero(c)
		for i := range want {
			want[i][1].Sub(&want[i][1], &c)
		}
	}
	for i := 0; i < times; i++ {
		sub()
	}
	sig, image, err := k.Prove()
	nd.Assert(err == nil, "signing succeeds")
	ring := append(vhCopy(want), vhPub(x))
	nd.Assert(vhIsRing(sig.PubKeys, ring), "the ring is the adjusted decoys and the signer")
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	first := vhSee(sig)
	if nd.Param("again") == 1 {
		sub()
		sig2, image2, err := k.Prove()
		nd.Assert(err == nil, "signing again succeeds")
		nd.Assert(vhIsRing(sig2.PubKeys, append(vhCopy(want), vhPub(x))), "the second ring is the adjusted decoys and the signer")
		nd.Assert(vhVerify(sig2, []ristretto.Point{image2}), "the second signature verifies")
		nd.Assert(image2.Equals(&image), "the same key image")
		again := vhSee(sig)
		nd.Assert(bytes.Equal(first.bytes(true), again.bytes(true)), "the first signature is unchanged")
		nd.Assert(vhVerify(sig, []ristretto.Point{image}), "the first signature still verifies")
		nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	}
	nd.Reach("end")
}

// VH_M05_Spare: adding keys to the vectors given as decoys afterwards, or to the same memory, does not reach the ring.
func VH_M05_Spare() {
	keys := nd.Param("keys")
	nd.RandChoices(1)
	x := vhSecrets(keys)
	d := vhDecoys(2, keys)
	vecs := vhVecs(d)
	p := vhProof(x, nil, []byte("m"))
	p.AddDecoys(vecs)
	vecs[0].AddPubKey(nd.Point("E"))
	vecs[0], vecs[1] = vhVec(vhRandomKeys(keys)), vhVec(vhRandomKeys(keys))
	xs := append([]ristretto.Scalar{}, x...)
	for i := range x {
		x[i].SetOne()
	}
	sig, images, err := p.prove(false)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(vhIsRing(sig.PubKeys, append(vhCopy(d), vhPub(xs))), "the ring is what was added")
	nd.Assert(vhVerify(sig, images), "the signature verifies")
	nd.Reach("end")
}

// vhWhere finds the signer.
func vhWhere(f *vhSig, pub []ristretto.Point) int {
	at := -1
	for i := range f.K {
		if vhSameP(f.K[i], pub) {
			nd.Assert(at < 0, "the signer is there once")
			at = i
		}
	}
	nd.Assert(at >= 0, "the signer is there")
	return at
}

// VH_M06_Draws: each nonce and each decoy response is a random draw of its own, in two signatures in a row.
func VH_M06_Draws() {
	users, keys := nd.Param("users"), nd.Param("keys")
	nd.RandChoices(nd.Param("picks"))
	x := vhSecrets(keys)
	if keys > 3 { // no coincidences
		for i := range x {
			x[i].Rand()
		}
	}
	d := vhDecoys(users-1, keys)
	p := vhProof(x, d, nd.Bytes("msg", 3))
	nd.RecordEntropy()
	var vals []ristretto.Scalar
	for s := 0; s < nd.Param("sigs"); s++ {
		sig, images, err := p.prove(nd.Param("skip") == 1)
		nd.Assert(err == nil, "signing succeeds")
		f := vhSee(sig)
		at := vhWhere(f, vhPub(x))
		c := f.c
		for i := range f.K {
			if i == at {
				for j := range x {
					var t ristretto.Scalar
					t.Mul(&c, &x[j])
					t.Add(&t, &f.r[i][j])
					vals = append(vals, t)
				}
			} else {
				vals = append(vals, f.r[i]...)
			}
			c = vhNext(f.msg, f.r[i], f.K[i], images, &c)
		}
	}
	draws := nd.Draws()
	for i := range draws {
		for j := 0; j < i; j++ {
			nd.Assume(!draws[i].Equals(&draws[j])) // as they are, but for luck
		}
	}
	used := make([]bool, len(draws))
	for i := range vals {
		found := false
		for j := range draws {
			if !found && !used[j] && vals[i].Equals(&draws[j]) {
				used[j], found = true, true
			}
		}
		nd.Assert(found, "a random draw of its own")
	}
	nd.Reach("end")
}

// VH_M06_Position: every position is possible and the clock does not decide it.
func VH_M06_Position() {
	users := nd.Param("users")
	nd.FreezeClock()
	d := vhDecoys(users-1, 1)
	x := vhSecrets(1)
	pos := [2]int{}
	for s := range pos {
		sig, _, err := vhProof(x, d, []byte("m")).prove(false)
		nd.Assert(err == nil, "signing succeeds")
		pos[s] = vhWhere(vhSee(sig), vhPub(x))
		if s == 0 {
			for i := 0; i < users; i++ {
				if pos[0] == i {
					nd.MustReach([]string{"p0", "p1", "p2", "p3"}[i])
				}
			}
			if nd.Param("two") == 0 {
				nd.Reach("end")
				return
			}
		}
	}
	if pos[0] != pos[1] {
		nd.MustReach("differ")
	} else {
		nd.MustReach("same")
	}
	nd.Reach("end")
}

// VH_M05_Wide: subtracting from decoys that have further keys, signed with as many.
func VH_M05_Wide() {
	n, keys := nd.Param("n"), nd.Param("keys")
	nd.RandChoices(nd.Param("picks"))
	var x []ristretto.Scalar
	for i := 0; i < keys; i++ {
		x = append(x, nd.NonZero("x"))
	}
	d := vhDecoys(n, keys)
	vecs := vhVecs(d)
	k := NewDualKey()
	k.SetMsg(nd.Bytes("msg", 3))
	k.AddDecoys(vecs[:n/2])
	for i := n / 2; i < n; i++ {
		k.AddDecoy(vecs[i])
	}
	c := nd.Point("C")
	k.SubCommToZero(c)
	want := vhCopy(d)
	for i := range want {
		want[i][1].Sub(&want[i][1], &c)
	}
	for i := range x {
		k.AddSecret(x[i])
	}
	nd.Assert(k.LenMembers() == n, "as many members as decoys")
	sig, _, err := k.Proof.prove(false)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(vhIsRing(sig.PubKeys, append(want, vhPub(x))), "the ring is the adjusted decoys and the signer")
	nd.Assert(vhSameVecs(vecs, d), "the caller's keys are as they were")
	nd.Reach("end")
}
