package mlsag

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_M02_Reuse: a verdict is about what signature and images hold now.
func VH_M02_Reuse() {
	users, keys, at := nd.Param("users"), nd.Param("keys"), nd.Param("at")
	nd.RandChoices(1)
	f, fi, _ := vhHonest(users, keys, 4, nd.Param("skip") == 1)
	g, gi, _ := vhHonest(users, keys, 4, nd.Param("skip") == 1)
	nd.Assume(!vhSameP(fi, gi))
	s := f.sig()
	images := append([]ristretto.Point{}, fi...)
	nd.Assert(vhVerify(s, images), "the first signature verifies")
	switch nd.Param("how") {
	case 0: // decoded into
		nd.Assert(s.Decode(bytes.NewReader(g.bytes(true)), true) == nil, "decoding succeeds")
		s.Msg = g.msg
		nd.Assert(!vhVerify(s, images), "not under the images of the first")
		nd.Assert(vhVerify(s, gi), "but under its own")
		copy(images, gi)
		nd.Assert(vhVerify(s, images), "but under its own")
		nd.Assert(s.Decode(bytes.NewReader(f.bytes(true)), true) == nil, "decoding succeeds")
		s.Msg = f.msg
	case 1: // the message changes in place
		c, old := nd.Byte("c"), s.Msg[at]
		nd.Assume(c != old)
		s.Msg[at] = c
		nd.Assert(!vhVerify(s, images), "not for another message")
		s.Msg[at] = old
	case 2: // a member's keys change
		old := s.PubKeys[at]
		s.PubKeys[at] = vhVec(vhRandomKeys(keys))
		nd.Assert(!vhVerify(s, images), "not for another ring")
		s.PubKeys[at] = old
	case 3: // the images change in place
		copy(images, gi)
		nd.Assert(!vhVerify(s, images), "not under other images")
	case 4: // the responses and the challenge alone
		nd.Assert(s.Decode(bytes.NewReader(g.bytes(false)), false) == nil, "decoding succeeds")
		nd.Assert(!vhVerify(s, images), "not with other responses")
		nd.Assert(s.Decode(bytes.NewReader(f.bytes(false)), false) == nil, "decoding succeeds")
	}
	copy(images, fi)
	nd.Assert(vhVerify(s, images), "the first signature still verifies")
	nd.Reach("end")
}

// VH_M04_Shared: decoding into a copy of a signature leaves the original alone.
func VH_M04_Shared() {
	u, k, u2, k2 := nd.Param("u"), nd.Param("k"), nd.Param("u2"), nd.Param("k2")
	with := nd.Param("with") == 1
	f, g := vhAny(u, k, 2), vhAny(u2, k2, 2)
	s := f.sig()
	if nd.Param("wire") == 1 {
		s = &Signature{}
		nd.Assert(s.Decode(bytes.NewReader(f.bytes(true)), true) == nil, "decoding succeeds")
		s.Msg = f.msg
	}
	c := *s
	nd.Assert(c.Decode(bytes.NewReader(g.bytes(with)), with) == nil, "decoding succeeds")
	nd.Assert(bytes.Equal(vhSee(s).bytes(true), f.bytes(true)), "the original is as it was")
	if with {
		nd.Assert(bytes.Equal(vhSee(&c).bytes(true), g.bytes(true)), "the copy holds what was decoded")
	}
	// what was read belongs to the signature
	b := g.bytes(true)
	var d Signature
	nd.Assert(d.Decode(bytes.NewReader(b), true) == nil, "decoding succeeds")
	for i := range b {
		b[i] = 0
	}
	nd.Assert(bytes.Equal(vhSee(&d).bytes(true), g.bytes(true)), "the signature keeps its own data")
	nd.Reach("end")
}
