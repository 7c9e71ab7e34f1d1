package merkletree

import (
	"bytes"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_C01_Trees: trees built at the same time, also from the same payloads.
func VH_C01_Trees() {
	size := nd.Param("size")
	d, e := vhDistinct(nd.Param("n"), size), vhDistinct(nd.Param("m"), size)
	if nd.Param("same") == 1 {
		e = d
	}
	l, k := vhList(d), vhList(e)
	if nd.Param("same") == 1 {
		k = l
	}
	var s, t *Tree
	var f, g error
	nd.Concurrently(func() { s, f = NewTree(l) }, func() { t, g = NewTree(k) })
	nd.Assert(f == nil && g == nil, "no error")
	nd.Assert(bytes.Equal(s.MerkleRoot, vhRoot(vhHashes(d))) && bytes.Equal(t.MerkleRoot, vhRoot(vhHashes(e))), "each root is that of its payloads")
	nd.Assert(vhVerify(s) && vhVerify(t), "both trees verify")
	nd.Reach("end")
}

func vhReadOp(op int, t *Tree, p Payload) bool {
	switch op {
	case 0:
		return vhVerify(t)
	case 1:
		return vhContains(t, p)
	}
	h, err := VerifyNode(t.Root)
	return err == nil && bytes.Equal(h, t.MerkleRoot)
}

// VH_C01_Read: a tree checked by two callers.
func VH_C01_Read() {
	d := vhDistinct(nd.Param("n"), nd.Param("size"))
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "no error")
	var a, b bool
	op, other := nd.Param("op"), nd.Param("other")
	nd.Concurrently(func() { a = vhReadOp(op, t, d[0]) }, func() { b = vhReadOp(other, t, d[len(d)-1]) })
	nd.Assert(a && b, "both hold")
	nd.Reach("end")
}

// VH_C01_Rebuild: a tree rebuilt while another is checked.
func VH_C01_Rebuild() {
	size := nd.Param("size")
	d, e := vhDistinct(nd.Param("n"), size), vhDistinct(nd.Param("m"), size)
	s, err := NewTree(vhList(d))
	nd.Assert(err == nil, "no error")
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "no error")
	var a bool
	nd.Concurrently(func() { err = t.RebuildTreeUsing(vhList(e)) }, func() { a = vhVerify(s) && vhContains(s, d[0]) })
	nd.Assert(err == nil && a, "both succeed")
	nd.Assert(bytes.Equal(s.MerkleRoot, vhRoot(vhHashes(d))) && bytes.Equal(t.MerkleRoot, vhRoot(vhHashes(e))), "each root is that of its payloads")
	nd.Reach("end")
}
