package bls

import (
	"bytes"

	"github.com/dusk-network/bn256"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_B01_Reuse: a variable that held another key or signature before behaves as a fresh one.
func VH_B01_Reuse() {
	a, b := vhKey(), vhKey()
	msg := nd.Bytes("msg", 5)
	text := nd.Param("how") == 1
	v, err := UnmarshalPk(a.pk.Marshal())
	nd.Assert(err == nil, "decoding succeeds")
	// the variable is used for the first key
	sa, err := Sign(a.sk, v, msg)
	nd.Assert(err == nil, "signing succeeds")
	nd.Assert(Verify(NewApk(v), msg, sa) == nil, "the signature verifies")
	apk := NewApk(v)
	nd.Assert(apk.Aggregate(v) == nil, "aggregating succeeds")
	nd.Assert(VerifyUnsafe(v, msg, vhUnsafe(a, msg)) == nil, "the plain signature verifies")
	// and for the second
	if text {
		t, err := b.pk.MarshalText()
		nd.Assert(err == nil && v.UnmarshalText(t) == nil, "decoding succeeds")
	} else {
		nd.Assert(v.Unmarshal(b.pk.Marshal()) == nil, "decoding succeeds")
	}
	nd.Assert(bytes.Equal(NewApk(v).Marshal(), NewApk(b.pk).Marshal()), "the same aggregate key as from a fresh variable")
	nd.Assert(vhSame(vhSign(vhSigner{v, b.sk}, msg).Marshal(), vhSign(b, msg).Marshal()), "the same signature")
	nd.Assert(Verify(NewApk(v), msg, vhSign(b, msg)) == nil, "the signature verifies")
	nd.Assert(VerifyUnsafe(v, msg, vhUnsafe(b, msg)) == nil, "the plain signature verifies")
	two, err := AggregateApk([]*PublicKey{a.pk, v})
	nd.Assert(err == nil, "aggregating succeeds")
	sum := vhSign(a, msg)
	nd.Assert(sum.Add(v, vhUnsafe(b, msg)) == nil, "aggregating succeeds")
	nd.Assert(Verify(two, msg, sum) == nil, "the aggregate verifies")
	// an aggregate key and signatures decoded into
	nd.Assert(apk.Unmarshal(two.Marshal()) == nil, "decoding succeeds")
	nd.Assert(sa.Unmarshal(sum.Marshal()) == nil, "decoding succeeds")
	nd.Assert(Verify(apk, msg, sa) == nil, "the aggregate verifies")
	nd.Assert(VerifyBatch([]*Apk{apk}, [][]byte{msg}, sa) == nil, "the aggregate verifies")
	nd.Reach("end")
}

// VH_B02_Reuse: a verdict is about what the arguments hold now.
func VH_B02_Reuse() {
	a, b := vhKey(), vhKey()
	nd.Assume(!bytes.Equal(a.pk.Marshal(), b.pk.Marshal()))
	msg, other := nd.Bytes("msg", 5), nd.Bytes("other", 5)
	nd.Assume(!bytes.Equal(msg, other))
	keep := append([]byte{}, msg...)
	sig, usig := vhSign(a, msg), vhUnsafe(a, msg)
	apk := NewApk(a.pk)
	pk, err := UnmarshalPk(a.pk.Marshal())
	nd.Assert(err == nil, "decoding succeeds")
	g2 := vhG2(apk.PublicKey)
	good := func(want bool) {
		nd.Assert((Verify(apk, msg, sig) == nil) == want, "the verdict is about what is there now")
		nd.Assert((VerifyUnsafe(pk, msg, usig) == nil) == want, "plain: the verdict is about what is there now")
		nd.Assert((VerifyBatch([]*Apk{apk}, [][]byte{msg}, sig) == nil) == want, "batch: the verdict is about what is there now")
		nd.Assert((VerifyUnsafeBatch([]*PublicKey{pk}, [][]byte{msg}, usig) == nil) == want, "plain batch: the verdict is about what is there now")
		nd.Assert((VerifyCompressed([]*bn256.G2{g2}, [][]byte{msg}, sig.Compress(), false) == nil) == want, "compressed: the verdict is about what is there now")
	}
	good(true)
	switch nd.Param("how") {
	case 0: // the message
		copy(msg, other)
		good(false)
		copy(msg, keep)
	case 1: // the signature
		s, u := sig.Marshal(), usig.Marshal()
		nd.Assert(sig.Unmarshal(vhSign(b, msg).Marshal()) == nil, "decoding succeeds")
		nd.Assert(usig.Unmarshal(vhUnsafe(b, msg).Marshal()) == nil, "decoding succeeds")
		good(false)
		nd.Assert(sig.Unmarshal(s) == nil && usig.Unmarshal(u) == nil, "decoding succeeds")
	case 2: // the same, compressed
		s, u := sig.Compress(), usig.Compress()
		nd.Assert(sig.Decompress(vhSign(b, msg).Compress()) == nil, "decoding succeeds")
		nd.Assert(usig.Decompress(vhUnsafe(b, msg).Compress()) == nil, "decoding succeeds")
		good(false)
		nd.Assert(sig.Decompress(s) == nil && usig.Decompress(u) == nil, "decoding succeeds")
	case 3: // the keys
		p, k := pk.Marshal(), apk.Marshal()
		nd.Assert(pk.Unmarshal(b.pk.Marshal()) == nil, "decoding succeeds")
		nd.Assert(apk.Unmarshal(NewApk(b.pk).Marshal()) == nil, "decoding succeeds")
		keep := vhG2(NewApk(a.pk).PublicKey)
		g2.Set(vhG2(apk.PublicKey))
		good(false)
		nd.Assert(pk.Unmarshal(p) == nil && apk.Unmarshal(k) == nil, "decoding succeeds")
		g2.Set(keep)
	}
	good(true)
	nd.Reach("end")
}

// VH_B03_Reuse: the same for batches.
func VH_B03_Reuse() {
	n := nd.Param("n")
	s := vhKeys(n)
	msgs := vhMessages(n, 4)
	var us []*UnsafeSignature
	var g2s []*bn256.G2
	var sum *Signature
	var apks []*Apk
	for i := range s {
		us = append(us, vhUnsafe(s[i], msgs[i]))
		apks = append(apks, NewApk(s[i].pk))
		g2s = append(g2s, vhG2(apks[i].PublicKey))
		if i == 0 {
			sum = vhSign(s[i], msgs[i])
		} else {
			sum.Aggregate(vhSign(s[i], msgs[i]))
		}
	}
	u, err := UnsafeBatch(us...)
	nd.Assert(err == nil, "aggregating succeeds")
	pks := vhPks(s)
	check := func(want bool) {
		nd.Assert((VerifyUnsafeBatch(pks, msgs, u) == nil) == want, "plain: the verdict is about what is there now")
		nd.Assert((VerifyBatch(apks, msgs, sum) == nil) == want, "the verdict is about what is there now")
		nd.Assert((VerifyCompressed(g2s, msgs, sum.Compress(), false) == nil) == want, "compressed: the verdict is about what is there now")
	}
	check(true)
	at := nd.Param("at")
	switch nd.Param("how") {
	case 0: // a message changes
		old := msgs[at][1]
		c := nd.Byte("c")
		nd.Assume(c != old)
		msgs[at][1] = c
		check(false)
		msgs[at][1] = old
	case 1: // a message becomes that of another
		keep := append([]byte{}, msgs[at]...)
		copy(msgs[at], msgs[(at+1)%n])
		check(false)
		copy(msgs[at], keep)
	case 2: // a signature is left out
		k := vhKey()
		keep, ukeep := sum.Marshal(), u.Marshal()
		sum.Aggregate(vhSign(k, msgs[at]))
		u2 := UnsafeAggregate(u, vhUnsafe(k, msgs[at]))
		nd.Assert(u.Unmarshal(u2.Marshal()) == nil, "decoding succeeds")
		check(false)
		nd.Assert(sum.Unmarshal(keep) == nil && u.Unmarshal(ukeep) == nil, "decoding succeeds")
	}
	check(true)
	nd.Reach("end")
}
