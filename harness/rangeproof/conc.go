package rangeproof

import (
	"bytes"

	ristretto "github.com/bwesterb/go-ristretto"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

func vhSome(n int, from int64) []ristretto.Scalar {
	out := make([]ristretto.Scalar, n)
	for i := range out {
		out[i] = vhSmall(from + int64(i))
	}
	return out
}

func vhSmall(k int64) (s ristretto.Scalar) {
	var b [32]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(k >> (8 * uint(i)))
	}
	s.SetBytes(&b)
	return
}

// VH_C01_Prove: two provers at the same time.
func VH_C01_Prove() {
	nd.FixHashes(-1)
	v, w := vhSome(nd.Param("n"), 5), vhSome(nd.Param("m"), 77)
	if nd.Param("same") == 1 {
		w = v
	}
	var p, q Proof
	var e, f error
	nd.Concurrently(func() { p, e = Prove(v, nd.Param("debug") == 1) }, func() { q, f = Prove(w, nd.Param("debug") == 1) })
	nd.Assert(e == nil && f == nil, "both succeed")
	nd.Assert(vhVerify(p) && vhVerify(q), "both verify")
	nd.Reach("end")
}

func vhRead(op int, p Proof) bool {
	switch op {
	case 0:
		return vhVerify(p)
	case 1:
		return p.Encode(&bytes.Buffer{}, true) == nil
	case 2:
		return p.Equals(p, true)
	}
	return p.Equals(p, false)
}

// VH_C01_Read: proofs checked or encoded by two callers.
func VH_C01_Read() {
	nd.FixHashes(-1)
	op, other := nd.Param("op"), nd.Param("other")
	p, err := Prove(vhSome(nd.Param("n"), 5), false)
	nd.Assert(err == nil, "proving succeeds")
	q := p
	if nd.Param("same") == 0 {
		q, err = Prove(vhSome(nd.Param("n"), 77), false)
		nd.Assert(err == nil, "proving succeeds")
	}
	var a, b bool
	nd.Concurrently(func() { a = vhRead(op, p) }, func() { b = vhRead(other, q) })
	nd.Assert(a && b, "both hold")
	nd.Reach("end")
}

// VH_C01_Mixed: proving while another proof is verified.
func VH_C01_Mixed() {
	nd.FixHashes(-1)
	p, err := Prove(vhSome(nd.Param("n"), 5), false)
	nd.Assert(err == nil, "proving succeeds")
	v := vhSome(nd.Param("m"), 77)
	var q Proof
	var a bool
	nd.Concurrently(func() { q, err = Prove(v, false) }, func() { a = vhVerify(p) })
	nd.Assert(err == nil && a, "both succeed")
	nd.Assert(vhVerify(q), "the new proof verifies")
	nd.Reach("end")
}

// VH_C01_Wire: proofs encoded and decoded by two callers.
func VH_C01_Wire() {
	m, k := nd.Param("m"), nd.Param("k")
	f, g := vhAny(m, k), vhAny(m, k)
	if nd.Param("same") == 1 {
		g = f
	}
	u, v := f.bytes(true), g.bytes(true)
	if nd.Param("same") == 1 {
		v = u
	}
	run := func(b []byte) (p Proof, w []byte, err error) {
		if err = p.Decode(bytes.NewReader(b), true); err == nil {
			buf := &bytes.Buffer{}
			err = p.Encode(buf, true)
			w = buf.Bytes()
		}
		return
	}
	var p, q Proof
	var x, y []byte
	var d, e error
	nd.Concurrently(func() { p, x, d = run(u) }, func() { q, y, e = run(v) })
	nd.Assert(d == nil && e == nil, "no error")
	nd.Assert(bytes.Equal(x, u) && bytes.Equal(y, v), "each gets its own proof")
	nd.Assert(bytes.Equal(vhSee(&p).bytes(true), u) && bytes.Equal(vhSee(&q).bytes(true), v), "with its components")
	nd.Reach("end")
}
