package merkletree

import (
	"bytes"
	"errors"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	"golang.org/x/crypto/sha3"
)

// vhData is a payload with a hash of its own, which lies in memory with room behind it.
type vhData struct {
	mem  []byte
	n    int
	fail bool
}

var errVh = errors.New("no hash")

func (d *vhData) CalculateHash() ([]byte, error) {
	if d.fail {
		return nil, errVh
	}
	return d.mem[:d.n], nil
}

func vhPayload(n, spare int) *vhData {
	return &vhData{mem: nd.Bytes("h", n+spare), n: n}
}

func vhPair(a, b []byte) []byte {
	s := sha3.Sum256(append(append([]byte{}, a...), b...))
	return s[:]
}

// vhRoot is the root of the hashes.
func vhRoot(h [][]byte) []byte {
	if len(h) == 1 {
		return vhPair(h[0], h[0])
	}
	for len(h) > 1 {
		var up [][]byte
		for i := 0; i < len(h); i += 2 {
			j := i + 1
			if j == len(h) {
				j = i
			}
			up = append(up, vhPair(h[i], h[j]))
		}
		h = up
	}
	return h[0]
}

func vhHashes(d []*vhData) [][]byte {
	var out [][]byte
	for i := range d {
		out = append(out, d[i].mem[:d[i].n])
	}
	return out
}

// vhDistinct has no two equal hashes: different last bytes.
func vhDistinct(n, size int) []*vhData {
	var out []*vhData
	for i := 0; i < n; i++ {
		d := vhPayload(size, 0)
		d.mem[size-1] = byte(i)
		out = append(out, d)
	}
	return out
}

func vhList(d []*vhData) []Payload {
	var out []Payload
	for i := range d {
		out = append(out, d[i])
	}
	return out
}

func vhVerify(t *Tree) bool {
	ok, err := VerifyTree(t)
	nd.Assert(err == nil, "tree verification succeeds")
	return ok
}

func vhContains(t *Tree, p Payload) bool {
	ok, err := t.VerifyContent(p)
	nd.Assert(err == nil, "content verification succeeds")
	return ok
}

// VH_T01_Root: the root of payloads with arbitrary hashes of any lengths.
func VH_T01_Root() {
	n, size, last := nd.Param("n"), nd.Param("size"), nd.Param("last")
	var d []*vhData
	for i := 0; i < n; i++ {
		k := size
		if i == n-1 {
			k = last
		}
		d = append(d, vhPayload(k, 0))
	}
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	want := vhRoot(vhHashes(d))
	nd.Assert(bytes.Equal(t.MerkleRoot, want), "the root is the hash tree's")
	nd.Assert(t.Root != nil && bytes.Equal(t.Root.Hash, want), "the root node has it too")
	h, err := VerifyNode(t.Root)
	nd.Assert(err == nil && bytes.Equal(h, want), "so has the recomputation")
	nd.Assert(vhVerify(t), "the tree verifies")
	h, err = CalculateNodeHash(t.Root)
	nd.Assert(err == nil && bytes.Equal(h, want), "and the node hash")
	nd.Assert(len(t.Leaves) == n+n%2, "a leaf per payload, the odd one twice")
	for i := range t.Leaves {
		k := i
		if k == n {
			k--
		}
		l := t.Leaves[i]
		nd.Assert(l.Data == Payload(d[k]) && l.IsLeaf && l.IsDup == (i == n), "leaves in order")
		nd.Assert(bytes.Equal(l.Hash, d[k].mem[:d[k].n]), "leaf hashes")
		h, err = VerifyNode(l)
		nd.Assert(err == nil && bytes.Equal(h, l.Hash), "a leaf's hash is its data's")
	}
	nd.Reach("end")
}

// VH_T01_Again: the same payloads give the same root, whatever else was built before.
func VH_T01_Again() {
	n, m := nd.Param("n"), nd.Param("m")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	root := append([]byte{}, t.MerkleRoot...)
	_, err = NewTree(vhList(vhDistinct(m, 32)))
	nd.Assert(err == nil, "building succeeds")
	u, err := NewTree(vhList(d))
	nd.Assert(err == nil && bytes.Equal(u.MerkleRoot, root), "the same root")
	nd.Assert(bytes.Equal(t.MerkleRoot, root), "the first tree is as it was")
	nd.Reach("end")
}

// VH_T01_Differ: lists that differ anywhere have different roots.
func VH_T01_Differ() {
	n, size, at := nd.Param("n"), nd.Param("size"), nd.Param("at")
	var d, e []*vhData
	for i := 0; i < n; i++ {
		d, e = append(d, vhPayload(size, 0)), append(e, vhPayload(size, 0))
	}
	nd.Assume(!bytes.Equal(d[at].mem, e[at].mem))
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	u, err := NewTree(vhList(e))
	nd.Assert(err == nil, "building succeeds")
	nd.Assert(!bytes.Equal(t.MerkleRoot, u.MerkleRoot), "different payloads, different roots")
	nd.Reach("end")
}

// VH_T01_Moved: exchanged payloads change the root.
func VH_T01_Moved() {
	n, i, j := nd.Param("n"), nd.Param("i"), nd.Param("j")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	d[i], d[j] = d[j], d[i]
	u, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	nd.Assert(!bytes.Equal(t.MerkleRoot, u.MerkleRoot), "the order counts")
	nd.Reach("end")
}

// VH_T01_Refused: no payloads, and payloads without a hash.
func VH_T01_Refused() {
	n, at := nd.Param("n"), nd.Param("at")
	d := vhDistinct(n, 32)
	if at < n {
		d[at].fail = true
	}
	t, err := NewTree(vhList(d))
	if n == 0 {
		nd.Assert(err != nil && t == nil, "no payloads are refused")
	} else if at < n {
		nd.Assert(err == errVh && t == nil, "a failing payload is reported")
	} else {
		nd.Assert(err == nil, "building succeeds")
	}
	nd.Reach("end")
}

// VH_T02_Tree: with arbitrary recorded root and later changed data the verdict is whether the root is that of the data.
func VH_T02_Tree() {
	n := nd.Param("n")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	if at := nd.Param("at"); at < n {
		// the data of a leaf changes, the hashes in the tree do not
		d[at].mem = nd.Bytes("new", 32)
		if nd.Param("swap") == 1 {
			t.Leaves[at].Data = &vhData{mem: d[at].mem, n: 32}
			d[at] = t.Leaves[at].Data.(*vhData)
			if at == n-1 && n%2 == 1 {
				t.Leaves[n].Data = d[at]
			}
		}
	}
	switch nd.Param("root") {
	case 0:
	case 1:
		t.MerkleRoot = nd.Bytes("root", 32)
	case 2:
		t.MerkleRoot = append([]byte{}, t.MerkleRoot[:nd.Param("len")]...)
	case 3:
		t.MerkleRoot = append(append([]byte{}, t.MerkleRoot...), nd.Bytes("more", nd.Param("len"))...)
	}
	want := bytes.Equal(t.MerkleRoot, vhRoot(vhHashes(d)))
	nd.Assert(vhVerify(t) == want, "true exactly when the recorded root is that of the data")
	if want {
		nd.Reach("true")
	} else {
		nd.Reach("false")
	}
}

// VH_T02_Dup: a changed duplicate leaf is noticed.
func VH_T02_Dup() {
	n := nd.Param("n")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	x := vhPayload(32, 0)
	nd.Assume(!bytes.Equal(x.mem, d[n-1].mem))
	t.Leaves[n].Data = x
	nd.Assert(!vhVerify(t), "a changed leaf is noticed")
	nd.Assert(!vhContains(t, d[n-1]), "and so is the path beside it")
	nd.Reach("end")
}

// VH_T02_Fail: failing payloads are reported.
func VH_T02_Fail() {
	n, at := nd.Param("n"), nd.Param("at")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	d[at].fail = true
	ok, err := VerifyTree(t)
	nd.Assert(!ok && err != nil, "tree verification reports the payload")
	x := vhPayload(32, 0)
	x.fail = true
	ok, err = t.VerifyContent(x)
	nd.Assert(!ok && err != nil, "content verification reports the payload")
	nd.Reach("end")
}

// VH_T02_Content: contained data, and data that is not.
func VH_T02_Content() {
	n := nd.Param("n")
	d := vhDistinct(n, 32)
	if nd.Param("any") == 1 {
		// payloads may be equal, and their hashes of different lengths
		for i := range d {
			d[i] = vhPayload(32+i%2, 0)
		}
	}
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	x := vhPayload(nd.Param("size"), 0)
	want := false
	for i := range d {
		want = want || bytes.Equal(d[i].mem, x.mem)
	}
	nd.Assert(vhContains(t, x) == want, "true exactly for contained data")
	for i := range d {
		nd.Assert(vhContains(t, d[i]), "every payload is contained")
	}
	nd.Reach("end")
}

// vhChain are the nodes above a leaf, by the levels of the tree.
func vhChain(t *Tree, leaf int) []*Node {
	// number the nodes by walking down from the root
	path := []*Node{}
	n := len(t.Leaves)
	depth := 0
	for k := n; k > 1; k = (k + 1) / 2 {
		depth++
	}
	node := t.Root
	for l := depth - 1; l >= 0; l-- {
		path = append([]*Node{node}, path...)
		if (leaf>>uint(l))&1 == 0 {
			node = node.Left
		} else {
			node = node.Right
		}
	}
	nd.Assert(node == t.Leaves[leaf], "the path leads to the leaf")
	return path
}

// VH_T02_Path: a changed hash of an inner node is noticed by every content below it, and only a changed one.
func VH_T02_Path() {
	n, leaf, level := nd.Param("n"), nd.Param("leaf"), nd.Param("level")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	path := vhChain(t, leaf)
	nd.Assume(level < len(path))
	node := path[level]
	old := append([]byte{}, node.Hash...)
	node.Hash = nd.Bytes("node", nd.Param("size"))
	same := bytes.Equal(old, node.Hash)
	for i := range d {
		below := false
		for _, p := range vhChain(t, i) {
			below = below || p == node
		}
		if below {
			nd.Assert(vhContains(t, d[i]) == same, "true exactly when the path is consistent")
		} else if same {
			nd.Assert(vhContains(t, d[i]), "true when the path is consistent")
		}
	}
	nd.Assert(vhVerify(t), "the recorded root is still that of the data")
	nd.Reach("end")
}

// VH_T02_Leaf: with changed data of one leaf, the contents whose path it touches are no longer verified.
func VH_T02_Leaf() {
	n, at := nd.Param("n"), nd.Param("at")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	x := vhPayload(32, 0)
	x.mem[31] = 77
	t.Leaves[at].Data = x
	nd.Assert(!vhVerify(t), "the tree is no longer that of the data")
	nd.Assert(!vhContains(t, x), "the new content is not vouched for")
	for i := range d {
		if i == at {
			if at != n-1 || n%2 == 0 {
				nd.Assert(!vhContains(t, d[i]), "the old content is gone")
			}
			continue
		}
		nd.Assert(vhContains(t, d[i]) == (i/2 != at/2), "the neighbour is not vouched for, the others are")
	}
	nd.Reach("end")
}

// vhShape lists a tree's nodes in order.
func vhSameNode(a, b *Node, depth int) bool {
	if a == nil || b == nil {
		return a == b
	}
	if depth > 12 || a.IsLeaf != b.IsLeaf || a.IsDup != b.IsDup || a.Data != b.Data || !bytes.Equal(a.Hash, b.Hash) {
		return false
	}
	return vhSameNode(a.Left, b.Left, depth+1) && vhSameNode(a.Right, b.Right, depth+1)
}

func vhSameTree(a, b *Tree) bool {
	if !vhSameNode(a.Root, b.Root, 0) || !bytes.Equal(a.MerkleRoot, b.MerkleRoot) || len(a.Leaves) != len(b.Leaves) {
		return false
	}
	for i := range a.Leaves {
		if !vhSameNode(a.Leaves[i], b.Leaves[i], 0) {
			return false
		}
	}
	return true
}

func vhConsistent(t *Tree, d []*vhData) {
	nd.Assert(vhVerify(t), "the tree verifies")
	for i := range d {
		nd.Assert(vhContains(t, d[i]), "every payload is contained")
	}
}

// VH_T03_Own: rebuilding from its own payloads.
func VH_T03_Own() {
	n := nd.Param("n")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	if at := nd.Param("at"); at < n {
		d[at].mem = append(append([]byte{}, nd.Bytes("new", 31)...), byte(100))
	}
	for k := 0; k < nd.Param("times"); k++ {
		nd.Assert(t.RebuildTree() == nil, "rebuilding succeeds")
	}
	u, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	nd.Assert(vhSameTree(t, u), "the same tree as from scratch")
	vhConsistent(t, d)
	nd.Reach("end")
}

// VH_T03_Other: rebuilding with other payloads.
func VH_T03_Other() {
	n, m := nd.Param("n"), nd.Param("m")
	d, e := vhDistinct(n, 32), vhDistinct(m, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	old := *t
	keep, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	nd.Assert(t.RebuildTreeUsing(vhList(e)) == nil, "rebuilding succeeds")
	u, err := NewTree(vhList(e))
	nd.Assert(err == nil, "building succeeds")
	nd.Assert(vhSameTree(t, u), "the same tree as from scratch")
	vhConsistent(t, e)
	nd.Assert(vhSameTree(&old, keep), "the old nodes are as they were")
	vhConsistent(&old, d)
	nd.Reach("end")
}

// VH_T03_Failed: a rebuild that fails leaves the tree as it was.
func VH_T03_Failed() {
	n, m, at := nd.Param("n"), nd.Param("m"), nd.Param("at")
	d, e := vhDistinct(n, 32), vhDistinct(m, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	old := *t
	keep, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	if nd.Param("own") == 1 {
		d[at%n].fail = true
		nd.Assert(t.RebuildTree() != nil, "the failing payload is reported")
		d[at%n].fail = false
	} else {
		if m > 0 {
			e[at].fail = true
		}
		nd.Assert(t.RebuildTreeUsing(vhList(e)) != nil, "the failing payload is reported")
	}
	nd.Assert(t.Root == old.Root && len(t.Leaves) == len(old.Leaves) && vhSameTree(t, keep), "the tree is as it was")
	for i := range t.Leaves {
		nd.Assert(t.Leaves[i] == old.Leaves[i], "the leaves are as they were")
	}
	vhConsistent(t, d)
	nd.Reach("end")
}

// VH_T03_Memory: no operation writes to the payloads' hashes, the room behind them, or the caller's list.
func VH_T03_Memory() {
	n, spare, size := nd.Param("n"), nd.Param("spare"), nd.Param("size")
	var d []*vhData
	var mem [][]byte
	for i := 0; i < n+2; i++ {
		d = append(d, vhPayload(size, spare))
		mem = append(mem, append([]byte{}, d[i].mem...))
	}
	list := vhList(d)
	same := func(what string) {
		for i := range d {
			nd.Assert(bytes.Equal(d[i].mem, mem[i]), "payload memory is as it was after "+what)
			nd.Assert(list[i] == Payload(d[i]), "the list is as it was after "+what)
		}
	}
	t, err := NewTree(list[:n])
	nd.Assert(err == nil, "building succeeds")
	same("building")
	vhVerify(t)
	same("verifying the tree")
	vhContains(t, d[n-1])
	same("verifying content")
	nd.Assert(t.RebuildTree() == nil, "rebuilding succeeds")
	same("rebuilding")
	nd.Assert(t.RebuildTreeUsing(list[1:n+1]) == nil, "rebuilding succeeds")
	same("rebuilding with others")
	_, err = CalculateNodeHash(t.Root)
	nd.Assert(err == nil, "hashing succeeds")
	_, err = VerifyNode(t.Root)
	nd.Assert(err == nil, "hashing succeeds")
	same("hashing")
	nd.Reach("end")
}

// VH_T03_ReadOnly: verification leaves the tree as it was, whatever its state.
func VH_T03_ReadOnly() {
	n := nd.Param("n")
	d := vhDistinct(n, 32)
	t, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	u, err := NewTree(vhList(d))
	nd.Assert(err == nil, "building succeeds")
	bad := nd.Bytes("node", 32)
	t.Root.Hash, u.Root.Hash = bad, append([]byte{}, bad...)
	t.Root.Left.Hash, u.Root.Left.Hash = bad, append([]byte{}, bad...)
	vhVerify(t)
	for i := range d {
		vhContains(t, d[i])
	}
	nd.Assert(vhSameTree(t, u), "the tree is as it was")
	nd.Reach("end")
}
