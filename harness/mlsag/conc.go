package mlsag

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhRead: something that only reads the signature.
func vhRead(op int, s *Signature, images []ristretto.Point) bool {
	switch op {
	case 0:
		return vhVerify(s, images)
	case 1:
		return s.Encode(&bytes.Buffer{}, true) == nil
	case 2:
		return s.Equals(*s, true)
	}
	b := &bytes.Buffer{}
	err := s.Encode(b, true)
	var t Signature
	return err == nil && t.Decode(b, true) == nil && s.Equals(t, true)
}

// VH_C01_Prove: two signers at the same time, with the same decoys and message.
func VH_C01_Prove() {
	users, keys := nd.Param("users"), nd.Param("keys")
	nd.RandChoices(0)
	x, y := vhSecrets(keys), vhSecrets(keys)
	decoys := vhVecs(vhDecoys(users-1, keys))
	msg := nd.Bytes("msg", 4)
	p, q := &Proof{msg: msg}, &Proof{msg: msg}
	for i := range x {
		p.AddSecret(x[i])
		q.AddSecret(y[i])
	}
	p.AddDecoys(decoys)
	q.AddDecoys(decoys)
	var s, t *Signature
	var I, J []ristretto.Point
	var e, f error
	nd.Concurrently(func() { s, I, e = p.prove(false) }, func() { t, J, f = q.prove(false) })
	nd.Assert(e == nil && f == nil, "both succeed")
	nd.Assert(vhVerify(s, I) && vhVerify(t, J), "both verify")
	nd.Assert(vhSameP(I, vhImages(x)) && vhSameP(J, vhImages(y)), "each has the key images of its keys")
	nd.Reach("end")
}

// VH_C01_Dual: two dual-key proofs, from the first call on, with the same decoys.
func VH_C01_Dual() {
	nd.RandChoices(0)
	x := []ristretto.Scalar{nd.NonZero("x"), nd.NonZero("x")}
	y := []ristretto.Scalar{nd.NonZero("y"), nd.NonZero("y")}
	decoys := vhVecs(vhDecoys(nd.Param("users")-1, 2))
	msg := nd.Bytes("msg", 4)
	C := nd.Point("C")
	run := func(x []ristretto.Scalar) (*Signature, ristretto.Point, error) {
		d := NewDualKey()
		d.SetPrimaryKey(x[0])
		d.SetCommToZero(x[1])
		d.AddDecoys(decoys)
		if nd.Param("sub") == 1 {
			d.SubCommToZero(C)
		}
		d.SetMsg(msg)
		return d.Prove()
	}
	var s, t *Signature
	var I, J ristretto.Point
	var e, f error
	nd.Concurrently(func() { s, I, e = run(x) }, func() { t, J, f = run(y) })
	nd.Assert(e == nil && f == nil, "both succeed")
	nd.Assert(vhVerify(s, []ristretto.Point{I}) && vhVerify(t, []ristretto.Point{J}), "both verify")
	nd.Reach("end")
}

// VH_C01_Read: a signature read by two callers.
func VH_C01_Read() {
	users, keys := nd.Param("users"), nd.Param("keys")
	op, other := nd.Param("op"), nd.Param("other")
	nd.RandChoices(0)
	s, I, err := vhProof(vhSecrets(keys), vhDecoys(users-1, keys), nd.Bytes("msg", 4)).prove(false)
	nd.Assert(err == nil, "signing succeeds")
	t, J := s, I
	if nd.Param("same") == 0 {
		t, J, err = vhProof(vhSecrets(keys), vhDecoys(users-1, keys), nd.Bytes("msg", 4)).prove(false)
		nd.Assert(err == nil, "signing succeeds")
	}
	var a, b bool
	nd.Concurrently(func() { a = vhRead(op, s, I) }, func() { b = vhRead(other, t, J) })
	nd.Assert(a && b, "both hold")
	nd.Reach("end")
}

// VH_C01_Mixed: signing while another signature is verified.
func VH_C01_Mixed() {
	users, keys := nd.Param("users"), nd.Param("keys")
	nd.RandChoices(0)
	x := vhSecrets(keys)
	s, I, err := vhProof(x, vhDecoys(users-1, keys), nd.Bytes("msg", 4)).prove(false)
	nd.Assert(err == nil, "signing succeeds")
	p := vhProof(vhSecrets(keys), vhDecoys(users-1, keys), nd.Bytes("msg", 4))
	var t *Signature
	var J []ristretto.Point
	var a bool
	nd.Concurrently(func() { t, J, err = p.prove(false) }, func() { a = vhVerify(s, I) })
	nd.Assert(err == nil && a, "both succeed")
	nd.Assert(vhVerify(t, J), "the new signature verifies")
	nd.Reach("end")
}
