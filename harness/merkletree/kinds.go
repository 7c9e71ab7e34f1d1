package merkletree

import (
	"bytes"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// Payloads of types that cannot be compared, are compared by value, or hold a pointer.
type vhSlice []byte

func (d vhSlice) CalculateHash() ([]byte, error) { return d, nil }

type vhArray [32]byte

func (d vhArray) CalculateHash() ([]byte, error) { return d[:], nil }

type vhFunc func() ([]byte, error)

func (d vhFunc) CalculateHash() ([]byte, error) { return d() }

type vhTagged struct {
	tag  []byte
	hash [32]byte
}

func (d vhTagged) CalculateHash() ([]byte, error) {
	return append([]byte{}, d.hash[:]...), nil
}

func vhKind(kind int, h []byte) Payload {
	var a [32]byte
	copy(a[:], h)
	switch kind {
	case 0:
		return vhSlice(h)
	case 1:
		return vhArray(a)
	case 2:
		return vhFunc(func() ([]byte, error) { return append([]byte{}, h...), nil })
	case 3:
		return vhTagged{tag: nd.Bytes("tag", 1), hash: a}
	}
	return &vhData{mem: h, n: 32}
}

// VH_T02_Kinds: what counts is the hash of a payload, not its type or identity.
func VH_T02_Kinds() {
	n, k1, k2 := nd.Param("n"), nd.Param("k1"), nd.Param("k2")
	var pl []Payload
	var hs [][]byte
	for i := 0; i < n; i++ {
		h := nd.Bytes("h", 32)
		k := k1
		if i%2 == 1 {
			k = k2
		}
		pl = append(pl, vhKind(k, h))
		hs = append(hs, h)
	}
	t, err := NewTree(pl)
	nd.Assert(err == nil && bytes.Equal(t.MerkleRoot, vhRoot(hs)), "the root")
	nd.Assert(vhVerify(t), "the tree is consistent")
	x := nd.Bytes("x", 32)
	want := false
	for i := range hs {
		want = want || bytes.Equal(hs[i], x)
	}
	nd.Assert(vhContains(t, vhKind(k1, x)) == want, "true exactly for contained data")
	for i := range pl {
		nd.Assert(vhContains(t, pl[i]), "every payload is contained")
		nd.Assert(vhContains(t, vhKind(k2, hs[i])), "and so is one of another type with its hash")
	}
	nd.Assert(t.RebuildTree() == nil && bytes.Equal(t.MerkleRoot, vhRoot(hs)), "rebuilding gives the same root")
	// a changed leaf of an equal type
	t.Leaves[0].Data = vhKind(k1, x)
	if n > 1 {
		nd.Assert(vhVerify(t) == bytes.Equal(x, hs[0]), "a changed leaf is noticed")
	}
	nd.Reach("end")
}
