package mlsag

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_M02_Ragged: response vectors of different sizes.
func VH_M02_Ragged() {
	users, keys := nd.Param("users"), nd.Param("keys")
	sizes := []int{nd.Param("r0"), nd.Param("r1"), nd.Param("r2")}
	s := &Signature{c: nd.Scalar("c"), Msg: nd.Bytes("msg", 2)}
	bad := false
	for i := 0; i < users; i++ {
		var r Responses
		for j := 0; j < sizes[i]; j++ {
			r.AddResponse(nd.Scalar("r"))
		}
		s.r = append(s.r, r)
		s.PubKeys = append(s.PubKeys, vhVec(vhPoints("K", keys)))
		bad = bad || sizes[i] != keys
	}
	nd.Assume(bad)
	nd.Assert(!vhVerify(s, vhPoints("I", nd.Param("images"))), "a malformed signature is rejected")
	nd.Reach("end")
}

// VH_M07_Ragged: equality of signatures with response vectors of different sizes.
func VH_M07_Ragged() {
	mk := func(a, b, n int) (Signature, [][]ristretto.Scalar) {
		s := Signature{}
		var all [][]ristretto.Scalar
		for i := 0; i < n; i++ {
			k := []int{a, b}[i]
			var r Responses
			var v []ristretto.Scalar
			for j := 0; j < k; j++ {
				x := nd.Scalar("r")
				r.AddResponse(x)
				v = append(v, x)
			}
			s.r = append(s.r, r)
			all = append(all, v)
		}
		return s, all
	}
	s, x := mk(nd.Param("a"), nd.Param("b"), nd.Param("n"))
	t, y := mk(nd.Param("c"), nd.Param("d"), nd.Param("m"))
	want := len(x) == len(y)
	for i := 0; want && i < len(x); i++ {
		want = vhSameS(x[i], y[i])
	}
	nd.Assert(s.Equals(t, true) == want && t.Equals(s, true) == want, "equal exactly when the responses agree")
	nd.Reach("end")
}

// VH_M02_Framing: nobody turns a signature into one over another message, under other keys. The signature of a single
// signer with two keys and one key image is read as one with the second key only, the first commitment being taken for
// part of the message.
func VH_M02_Framing() {
	x := []ristretto.Scalar{nd.NonZero("x"), nd.NonZero("y")}
	sig, images, err := vhProof(x, nil, nd.Bytes("msg", nd.Param("msg"))).prove(true)
	nd.Assert(err == nil, "signing succeeds")
	f := vhSee(sig)
	p, q := vhG(&f.r[0][0]), vhMul(&f.K[0][0], &f.c)
	p.Add(&p, &q)
	h0, h1 := vhH(&f.K[0][0]), vhH(&f.K[0][1])
	i0, t := vhMul(&h0, &f.r[0][0]), vhMul(&images[0], &f.c)
	i0.Add(&i0, &t)
	t = vhMul(&h1, &f.r[0][1])
	i0.Sub(&i0, &t)
	var inv ristretto.Scalar
	inv.Inverse(&f.c)
	image := vhMul(&i0, &inv)
	g := &vhSig{c: f.c, msg: append(f.msg, p.Bytes()...)}
	g.r = [][]ristretto.Scalar{{f.r[0][1]}}
	g.K = [][]ristretto.Point{{f.K[0][1]}}
	nd.Assert(!vhVerify(g.sig(), []ristretto.Point{image}), "a signature over one message is none over another")
	nd.Reach("end")
}

// VH_M02_Surplus: an honest signature with something missing or too much.
func VH_M02_Surplus() {
	users, keys, at := nd.Param("users"), nd.Param("keys"), nd.Param("at")
	nd.RandChoices(1)
	f, images, _ := vhHonest(users, keys, 4, nd.Param("skip") == 1)
	s := f.sig()
	nd.Assert(vhVerify(s, images), "the honest signature verifies")
	p := vhRandomKeys(1)[0]
	var x, zero ristretto.Scalar
	x.Rand()
	zero.SetZero()
	switch nd.Param("how") {
	case 0:
		s.r[at].AddResponse(x)
	case 1:
		s.r[at].AddResponse(zero)
	case 2:
		s.r[at] = s.r[at][:keys-1]
	case 3:
		s.r = append(s.r, s.r[at])
	case 4:
		s.r = append(s.r, Responses{})
	case 5:
		s.r = s.r[:users-1]
	case 6:
		s.PubKeys[at].AddPubKey(p)
	case 7:
		s.PubKeys = append(s.PubKeys, s.PubKeys[at])
	case 8:
		s.PubKeys = append(s.PubKeys, PubKeys{})
	case 9:
		s.PubKeys = s.PubKeys[:users-1]
	case 10:
		s.PubKeys[at] = vhVec(f.K[at][:keys-1])
	case 11:
		images = append(images, p)
	case 12:
		p.SetZero()
		images = append(images, p)
	case 13:
		images = append(images, images[0])
	case 14:
		images = images[:len(images)-1]
	case 15:
		images = append([]ristretto.Point{p}, images...)
	case 16: // every member has a key that no response belongs to
		for i := range s.PubKeys {
			s.PubKeys[i].AddPubKey(p)
		}
	case 17: // and a response that no key belongs to
		for i := range s.r {
			s.r[i].AddResponse(x)
		}
	case 18:
		s.r = nil
	case 19:
		s.PubKeys = nil
	case 20:
		images = nil
	case 21:
		s.r[at] = nil
	case 22:
		s.PubKeys[at] = PubKeys{}
	}
	nd.Assert(!vhVerify(s, images), "a malformed signature is rejected")
	nd.Reach("end")
}
