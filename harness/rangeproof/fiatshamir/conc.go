package fiatshamir

import (
	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Transcripts: two transcripts at the same time.
func VH_C01_Transcripts() {
	x, y := nd.Bytes("x", nd.Param("n")), nd.Bytes("y", nd.Param("m"))
	run := func(b []byte) (ristretto.Scalar, ristretto.Scalar) {
		var h HashCacher
		h.Append(b)
		first := h.Derive()
		h.Append(first.Bytes(), b)
		return first, h.Derive()
	}
	var a, b, c, d ristretto.Scalar
	nd.Concurrently(func() { a, b = run(x) }, func() { c, d = run(y) })
	var e, f ristretto.Scalar
	e.Derive(x)
	f.Derive(append(append(append([]byte{}, x...), e.Bytes()...), x...))
	nd.Assert(a.Equals(&e) && b.Equals(&f), "the first's challenges")
	e.Derive(y)
	f.Derive(append(append(append([]byte{}, y...), e.Bytes()...), y...))
	nd.Assert(c.Equals(&e) && d.Equals(&f), "the second's challenges")
	nd.Reach("end")
}

// VH_C01_Read: one transcript read by two callers.
func VH_C01_Read() {
	x := nd.Bytes("x", nd.Param("n"))
	h := &HashCacher{}
	h.Append(x)
	var a, b, e ristretto.Scalar
	nd.Concurrently(func() { a = h.Derive() }, func() { b = h.Derive() })
	e.Derive(x)
	nd.Assert(a.Equals(&e) && b.Equals(&e), "both get the challenge")
	nd.Reach("end")
}
