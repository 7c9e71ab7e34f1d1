package fiatshamir

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_R11_Cache: appends of lengths a, b, c in one or several calls, a clear in between.
func VH_R11_Cache() {
	a, b, c := nd.Param("a"), nd.Param("b"), nd.Param("c")
	x, y, z := nd.Bytes("x", a), nd.Bytes("y", b), nd.Bytes("z", c)
	spare := make([]byte, a+4)
	copy(spare, x)
	for i := a; i < a+4; i++ {
		spare[i] = 0xA5
	}
	xs := spare[:a]
	x0, y0, z0 := append([]byte{}, x...), append([]byte{}, y...), append([]byte{}, z...)
	want := append(append(append([]byte{}, x0...), y0...), z0...)
	var h HashCacher
	switch nd.Choose("route", 4) {
	case 0:
		h.Append(xs, y, z)
	case 1:
		h.Append(xs)
		h.Append(y)
		h.Append(z)
	case 2:
		h.Append(xs)
		h.Append()
		h.Append(y, z)
	case 3:
		h.Append(z, y)
		h.Derive()
		h.Clear()
		nd.Assert(len(h.Result()) == 0, "clear empties the transcript")
		h.Append(xs, y)
		h.Append(z)
	}
	nd.Assert(bytes.Equal(h.Result(), want), "transcript is the concatenation")
	d1 := h.Derive()
	// later changes by the caller do not matter
	for i := range xs {
		xs[i] ^= 0x5A
	}
	for i := range y {
		y[i] ^= 0x5A
	}
	d2 := h.Derive()
	nd.Assert(d1.Equals(&d2), "the challenge is a function of the transcript")
	nd.Assert(bytes.Equal(h.Result(), want), "transcript does not share memory with what was appended")
	for i := a; i < a+4; i++ {
		nd.Assert(spare[i] == 0xA5, "the caller's memory is not written")
	}
	nd.Assert(bytes.Equal(z, z0), "the caller's data is not written")
	var e ristretto.Scalar
	e.Derive(want)
	nd.Assert(d1.Equals(&e), "the challenge is the hash of the whole transcript")
	nd.Reach("end")
}

// VH_R11_Binding: transcripts that differ give different challenges.
func VH_R11_Binding() {
	a, b := nd.Param("a"), nd.Param("b")
	x, y := nd.Bytes("x", a), nd.Bytes("y", b)
	nd.Assume(!bytes.Equal(x, y))
	var h, g HashCacher
	h.Append(x)
	g.Append(y)
	d, e := h.Derive(), g.Derive()
	nd.Assert(!d.Equals(&e), "different transcripts give different challenges")
	nd.Reach("end")
}

// VH_R11_Copies: two transcripts started from a common prefix do not influence each other.
func VH_R11_Copies() {
	a, b := nd.Param("a"), nd.Param("b")
	x, y, z := nd.Bytes("x", a), nd.Bytes("y", b), nd.Bytes("z", b)
	var h, g HashCacher
	h.Append(x)
	g.Append(h.Result())
	h.Append(y)
	g.Append(z)
	nd.Assert(bytes.Equal(h.Result(), append(append([]byte{}, x...), y...)), "first transcript")
	nd.Assert(bytes.Equal(g.Result(), append(append([]byte{}, x...), z...)), "second transcript")
	nd.Reach("end")
}
