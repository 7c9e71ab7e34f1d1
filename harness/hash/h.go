package hash

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"errors"

	"github.com/OneOfOne/xxhash"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

func vhClone(b []byte) []byte {
	out := make([]byte, len(b))
	copy(out, b)
	return out
}

// VH_H01_Digests: every helper, twice in a row with another input in between.
func VH_H01_Digests() {
	n, k := nd.Param("n"), nd.Param("k")
	in := nd.Bytes("in", n)
	other := nd.Bytes("other", k)
	in0 := vhClone(in)
	w256 := sha3.Sum256(in0)
	w512 := sha3.Sum512(in0)
	b256 := blake2b.Sum256(in0)
	b512 := blake2b.Sum512(in0)
	var xx [8]byte
	binary.BigEndian.PutUint64(xx[:], xxhash.Checksum64(in0))
	for round := 0; round < 2; round++ {
		d, err := Sha3256(in)
		nd.Assert(err == nil && len(d) == 32 && bytes.Equal(d, w256[:]), "SHA3-256")
		d, err = Sha3512(in)
		nd.Assert(err == nil && len(d) == 64 && bytes.Equal(d, w512[:]), "SHA3-512")
		d, err = Blake2b256(in)
		nd.Assert(err == nil && len(d) == 32 && bytes.Equal(d, b256[:]), "BLAKE2b-256")
		d, err = Blake2b512(in)
		nd.Assert(err == nil && len(d) == 64 && bytes.Equal(d, b512[:]), "BLAKE2b-512")
		d, err = Xxhash(in)
		nd.Assert(err == nil && len(d) == 8 && bytes.Equal(d, xx[:]), "xxhash64")
		d, err = PerformHash(sha3.New256(), in)
		nd.Assert(err == nil && len(d) == 32 && bytes.Equal(d, w256[:]), "PerformHash SHA3-256")
		d, err = PerformHash(sha3.New512(), in)
		nd.Assert(err == nil && len(d) == 64 && bytes.Equal(d, w512[:]), "PerformHash SHA3-512")
		Sha3256(other)
		Sha3512(other)
		Blake2b256(other)
		Blake2b512(other)
		Xxhash(other)
		PerformHash(sha3.New256(), other)
	}
	nd.Assert(bytes.Equal(in, in0), "input unchanged")
	nd.Reach("end")
}

// VH_H01_Independent: results do not share memory with each other or with the input.
func VH_H01_Independent() {
	n := nd.Param("n")
	in := nd.Bytes("in", n)
	in0 := vhClone(in)
	fs := []func([]byte) ([]byte, error){Sha3256, Sha3512, Blake2b256, Blake2b512, Xxhash}
	f := fs[nd.Choose("f", len(fs))]
	a, _ := f(in)
	a0 := vhClone(a)
	b, _ := f(in)
	nd.Assert(bytes.Equal(b, a), "the same input, the same digest")
	for i := range b {
		b[i] ^= 0xff
	}
	nd.Assert(bytes.Equal(a, a0), "digests are independent")
	nd.Assert(bytes.Equal(in, in0), "input unchanged")
	for i := range in {
		in[i] ^= 0xff
	}
	nd.Assert(bytes.Equal(a, a0), "digest independent of the input's memory")
	nd.Reach("end")
}

// VH_H01_History: digests do not depend on what was hashed before.
func VH_H01_History() {
	fs := []func([]byte) ([]byte, error){Sha3256, Sha3512, Blake2b256, Blake2b512, Xxhash}
	f, g := fs[nd.Choose("f", len(fs))], fs[nd.Choose("g", len(fs))]
	x, y := nd.Bytes("x", nd.Param("n")), nd.Bytes("y", nd.Param("m"))
	a, err := f(x)
	nd.Assert(err == nil, "no error")
	b, err := g(y)
	nd.Assert(err == nil, "no error")
	for i := 0; i < 2; i++ {
		c, err := f(vhClone(x))
		nd.Assert(err == nil && bytes.Equal(a, c), "the same input, the same digest")
		d, err := g(vhClone(y))
		nd.Assert(err == nil && bytes.Equal(b, d), "the same input, the same digest")
	}
	nd.Reach("end")
}

type vhSource struct {
	data   []byte
	pos    int
	chunks int
	failAt int
	over   bool
}

var errVH = errors.New("entropy source failed")

func (s *vhSource) Read(p []byte) (int, error) {
	if s.failAt >= 0 && s.pos >= s.failAt {
		return 0, errVH
	}
	n := len(p)
	if s.chunks > 0 && n > s.chunks {
		n = s.chunks
	}
	if s.failAt >= 0 && n > s.failAt-s.pos {
		n = s.failAt - s.pos
	}
	if n > len(s.data)-s.pos {
		s.over = true
		n = len(s.data) - s.pos
		if n == 0 {
			return 0, errVH
		}
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// VH_H01_Entropy: the bytes returned are the bytes of the source, whatever pieces it delivers them in.
func VH_H01_Entropy() {
	n := nd.Param("n")
	chunk := nd.Param("chunk")
	fail := nd.Param("fail")
	src := &vhSource{data: nd.Bytes("entropy", 2*n+8), chunks: chunk, failAt: fail}
	old := rand.Reader
	rand.Reader = src
	b, err := RandEntropy(uint32(n))
	rand.Reader = old
	if fail >= 0 && fail < n {
		nd.Assert(err != nil, "a failing entropy source is an error")
		return
	}
	if err != nil {
		nd.Assert(chunk > 0 && chunk < n, "entropy is available")
		nd.Reach("short")
		return
	}
	nd.Assert(len(b) == n, "as many bytes as asked for")
	nd.Assert(bytes.Equal(b, src.data[:n]), "the bytes come from the source")
	nd.Reach("full")
}

// VH_H01_Fresh: two requests of at least 16 bytes never agree by construction.
func VH_H01_Fresh() {
	n := nd.Param("n")
	a, err1 := RandEntropy(uint32(n))
	b, err2 := RandEntropy(uint32(n))
	nd.Assert(err1 == nil && err2 == nil && len(a) == n && len(b) == n, "entropy of the size asked for")
	if !bytes.Equal(a, b) {
		nd.MustReach("different")
	}
	nd.Reach("end")
}

// VH_H02: the checksum, and its comparison.
func VH_H02() {
	n := nd.Param("n")
	in := nd.Bytes("in", n)
	want := nd.U32("want")
	in0 := vhClone(in)
	var xx [8]byte
	binary.BigEndian.PutUint64(xx[:], xxhash.Checksum64(in0))
	sum := uint32(xx[0])<<24 | uint32(xx[1])<<16 | uint32(xx[2])<<8 | uint32(xx[3])
	got, err := Checksum(in)
	nd.Assert(err == nil && got == sum, "checksum is the first four bytes of xxhash64")
	nd.Assert(CompareChecksum(in, want) == (want == sum), "comparison accepts exactly the checksum")
	nd.Assert(CompareChecksum(in, sum), "the checksum is accepted")
	bit := nd.Int("bit", 0, 31)
	nd.Assert(!CompareChecksum(in, sum^(uint32(1)<<uint(bit))), "a flipped bit is rejected")
	nd.Assert(bytes.Equal(in, in0), "input unchanged")
	nd.Reach("end")
}
