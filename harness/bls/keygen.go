package bls

import (
	"bytes"
	"errors"
	"io"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

var vhBroken = errors.New("broken source")

// vhSource hands out data in pieces of at most chunk bytes, and fails after limit bytes.
type vhSource struct {
	data              []byte
	off, chunk, limit int
	reads             int
	short             bool // reports the end of the data rather than a failure
}

func (s *vhSource) Read(p []byte) (int, error) {
	s.reads++
	n := len(p)
	if n > s.chunk {
		n = s.chunk
	}
	if n > s.limit-s.off {
		n = s.limit - s.off
	}
	if n <= 0 && len(p) > 0 {
		if s.short {
			return 0, io.EOF
		}
		return 0, vhBroken
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	return n, nil
}

func vhSrc(data []byte, chunk int) *vhSource {
	return &vhSource{data: data, chunk: chunk, limit: len(data)}
}

// VH_B06_Source: the pair depends on the bytes drawn and on nothing else.
func VH_B06_Source() {
	d := nd.Bytes("entropy", 32*nd.Param("draws"))
	for i := 0; i < 64; i++ {
		d = append(d, byte(i+1)) // whatever it rejects, there is enough
	}
	src := vhSrc(d, nd.Param("chunk"))
	pk, sk, err := GenKeyPair(src)
	nd.Assert(err == nil, "a good source gives a pair")
	nd.Assert(pk != nil && sk != nil && pk.gx != nil && sk.x != nil, "a good source gives both keys")
	nd.Assert(sk.x.Sign() > 0, "the secret is not zero")
	msg := nd.Bytes("msg", 3)
	us, err := UnsafeSign(sk, msg)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(VerifyUnsafe(pk, msg, us) == nil, "the keys belong together")
	sig, err := Sign(sk, pk, msg)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(Verify(NewApk(pk), msg, sig) == nil, "the keys belong together")
	again, sk2, err := GenKeyPair(vhSrc(append([]byte(nil), d...), nd.Param("other")))
	nd.Assert(err == nil, "a good source gives a pair")
	nd.Assert(bytes.Equal(pk.Marshal(), again.Marshal()), "the same entropy gives the same public key")
	nd.Assert(sk.x.Cmp(sk2.x) == 0, "the same entropy gives the same secret")
	nd.Assert(pk != again && sk != sk2 && sk.x != sk2.x, "two pairs share nothing")
	nd.Reach("end")
}

// VH_B06_Distinct: other entropy gives other keys (the source is used in full).
func VH_B06_Distinct() {
	d, e := nd.Bytes("entropy", 32), nd.Bytes("entropy2", 32)
	// in range with the first draw: the order begins with 8f
	nd.Assume(d[0] >= 1 && d[0] < 0x8f && e[0] >= 1 && e[0] < 0x8f)
	_, sk, err := GenKeyPair(vhSrc(d, 32))
	nd.Assert(err == nil, "a good source gives a pair")
	_, sk2, err := GenKeyPair(vhSrc(e, 32))
	nd.Assert(err == nil, "a good source gives a pair")
	same := bytes.Equal(d, e)
	nd.Assert((sk.x.Cmp(sk2.x) == 0) == same, "different entropy gives different secrets")
	if same {
		nd.Reach("same")
	} else {
		nd.Reach("other")
	}
}

// VH_B06_Broken: a source that fails is reported, and no key comes out of it.
func VH_B06_Broken() {
	d := nd.Bytes("entropy", 32)
	src := vhSrc(d, nd.Param("chunk"))
	src.limit, src.short = nd.Param("limit"), nd.Param("short") == 1
	pk, sk, err := GenKeyPair(src)
	nd.Assert(err != nil, "a failing source is reported")
	nd.Assert(pk == nil && sk == nil, "no keys come with an error")
	nd.Reach("end")
}

// VH_B06_System: with no source the keys come from the system's, afresh every time.
func VH_B06_System() {
	n := nd.Param("n")
	pks, sks := make([]*PublicKey, n), make([]*SecretKey, n)
	for i := 0; i < n; i++ {
		var err error
		pks[i], sks[i], err = GenKeyPair(nil)
		nd.Assert(err == nil, "the system's source gives a pair")
		msg := nd.Bytes("msg", 2)
		us, err := UnsafeSign(sks[i], msg)
		nd.Assert(err == nil && VerifyUnsafe(pks[i], msg, us) == nil, "the keys belong together")
	}
	for i := 1; i < n; i++ {
		nd.Assert(sks[i].x != sks[i-1].x && pks[i] != pks[i-1], "two pairs share nothing")
		nd.Assert(!bytes.Equal(pks[i].Marshal(), pks[i-1].Marshal()), "every pair is fresh")
	}
	nd.Reach("end")
}
