package bls

import (
	"bytes"

	"github.com/dusk-network/bn256"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// VH_B01_Repeat: signers who take part more than once, with the very same objects.
func VH_B01_Repeat() {
	n, pat := nd.Param("n"), nd.Param("pat")
	two := vhKeys(2)
	var s []vhSigner
	for i := 0; i < n; i++ {
		s = append(s, two[pat%2])
		pat /= 2
	}
	msg := nd.Bytes("msg", 5)
	apk := vhApk(s, nd.Param("kroute"))
	sig := vhSigs(s, msg, nd.Param("sroute"))
	nd.Assert(Verify(apk, msg, sig) == nil, "the aggregate verifies")
	// the same signature objects again and again
	own := []*Signature{vhSign(two[0], msg), vhSign(two[1], msg)}
	plain := []*UnsafeSignature{vhUnsafe(two[0], msg), vhUnsafe(two[1], msg)}
	keep := [][]byte{own[0].Marshal(), own[1].Marshal(), plain[0].Marshal(), plain[1].Marshal()}
	sum := vhSign(s[0], msg)
	usigs := []*UnsafeSignature{}
	pk := s[0].pk
	for i := range s {
		k := 0
		if s[i].pk == two[1].pk {
			k = 1
		}
		usigs = append(usigs, plain[k])
		if i > 0 {
			sum.Aggregate(own[k])
			pk = pk.Aggregate(s[i].pk)
		}
	}
	nd.Assert(Verify(apk, msg, sum) == nil, "the aggregate of repeated signatures verifies")
	u, err := UnsafeBatch(usigs...)
	nd.Assert(err == nil, "aggregating succeeds")
	nd.Assert(VerifyUnsafe(pk, msg, u) == nil, "the plain sum verifies under the plain sum of the keys")
	nd.Assert(vhSame(own[0].Marshal(), keep[0]) && vhSame(own[1].Marshal(), keep[1]), "the signatures are as they were")
	nd.Assert(vhSame(plain[0].Marshal(), keep[2]) && vhSame(plain[1].Marshal(), keep[3]), "the plain signatures are as they were")
	// one object added to itself
	sum.Aggregate(sum)
	nd.Assert(apk.Aggregate(s[0].pk) == nil, "aggregating succeeds")
	for _, k := range s[1:] {
		nd.Assert(apk.Aggregate(k.pk) == nil, "aggregating succeeds")
	}
	nd.Assert(Verify(apk, msg, sum) == nil, "the doubled aggregate verifies")
	u = UnsafeAggregate(u, u)
	pk = pk.Aggregate(pk)
	nd.Assert(VerifyUnsafe(pk, msg, u) == nil, "the doubled plain sum verifies")
	nd.Reach("end")
}

// VH_B03_OneKey: the same key object for several messages, and messages in shared memory.
func VH_B03_OneKey() {
	n, pat := nd.Param("n"), nd.Param("pat")
	two := vhKeys(2)
	mem := nd.Bytes("msg", 2*n+2)
	var msgs [][]byte
	for i := 0; i < n; i++ {
		mem[2*i] = byte(i)
		msgs = append(msgs, mem[2*i:2*i+2])
	}
	apks := []*Apk{NewApk(two[0].pk), NewApk(two[1].pk)}
	var ak []*Apk
	var pk []*PublicKey
	var g2s []*bn256.G2
	var sum *Signature
	var usum *UnsafeSignature
	g2 := []*bn256.G2{vhG2(apks[0].PublicKey), vhG2(apks[1].PublicKey)}
	for i := range msgs {
		k := pat % 2
		pat /= 2
		ak, pk, g2s = append(ak, apks[k]), append(pk, two[k].pk), append(g2s, g2[k])
		if i == 0 {
			sum, usum = vhSign(two[k], msgs[i]), vhUnsafe(two[k], msgs[i])
		} else {
			sum.Aggregate(vhSign(two[k], msgs[i]))
			usum = UnsafeAggregate(usum, vhUnsafe(two[k], msgs[i]))
		}
	}
	keep := append([]byte{}, mem...)
	nd.Assert(VerifyBatch(ak, msgs, sum) == nil, "the batch verifies")
	nd.Assert(VerifyUnsafeBatch(pk, msgs, usum) == nil, "the plain batch verifies")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), false) == nil, "the compressed batch verifies")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), true) == nil, "the compressed batch verifies")
	nd.Assert(bytes.Equal(mem, keep), "the messages are as they were")
	// a message twice, in the same memory
	sum.Aggregate(vhSign(two[0], msgs[0]))
	usum = UnsafeAggregate(usum, vhUnsafe(two[0], msgs[0]))
	ak, pk, g2s, msgs = append(ak, apks[0]), append(pk, two[0].pk), append(g2s, g2[0]), append(msgs, msgs[0])
	nd.Assert(VerifyBatch(ak, msgs, sum) != nil, "a repeated message is rejected")
	nd.Assert(VerifyUnsafeBatch(pk, msgs, usum) != nil, "a repeated message is rejected")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), false) != nil, "a repeated message is rejected")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), true) == nil, "unless that was waived")
	nd.Reach("end")
}

// VH_B03_Long: many messages, two of them possibly the same, or one signed by somebody else.
func VH_B03_Long() {
	n, i, j := nd.Param("n"), nd.Param("i"), nd.Param("j")
	s := vhKey()
	o := vhKey()
	nd.Assume(!bytes.Equal(s.pk.Marshal(), o.pk.Marshal()))
	apk := NewApk(s.pk)
	var msgs [][]byte
	for k := 0; k < n; k++ {
		m := nd.Bytes("msg", 3)
		m[0], m[1] = byte(k>>8), byte(k)
		msgs = append(msgs, m)
	}
	dup := nd.Param("how") == 1
	if dup {
		copy(msgs[j], msgs[i])
	}
	var ak []*Apk
	var pk []*PublicKey
	var sum *Signature
	var usum *UnsafeSignature
	for k := range msgs {
		a := s
		if nd.Param("how") == 2 && k == j {
			a = o
		}
		ak, pk = append(ak, apk), append(pk, s.pk)
		sig := vhUnsafe(a, msgs[k])
		if k == 0 {
			sum, usum = vhSign(a, msgs[k]), sig
		} else {
			sum.Aggregate(vhSign(a, msgs[k]))
			usum = UnsafeAggregate(usum, sig)
		}
	}
	want := nd.Param("how") == 0
	nd.Assert((VerifyBatch(ak, msgs, sum) == nil) == want, "accepted exactly when well-formed and correct")
	nd.Assert((VerifyUnsafeBatch(pk, msgs, usum) == nil) == want, "plain: accepted exactly when well-formed and correct")
	nd.Reach("end")
}

// VH_B01_Crowd: many signatures of two signers, in runs of the given length.
func VH_B01_Crowd() {
	n, run := nd.Param("n"), nd.Param("run")
	two := vhKeys(2)
	var s []vhSigner
	for i := 0; i < n; i++ {
		s = append(s, two[i/run%2])
	}
	msg := nd.Bytes("msg", 5)
	apk := vhApk(s, nd.Param("route"))
	nd.Assert(Verify(apk, msg, vhSigs(s, msg, nd.Param("route"))) == nil, "the aggregate verifies")
	var usigs []*UnsafeSignature
	pk := s[0].pk
	for i := range s {
		usigs = append(usigs, vhUnsafe(s[i], msg))
		if i > 0 {
			pk = pk.Aggregate(s[i].pk)
		}
	}
	u, err := UnsafeBatch(usigs...)
	nd.Assert(err == nil && VerifyUnsafe(pk, msg, u) == nil, "the plain sum verifies")
	nd.Assert(Verify(apk, msg, vhSigs(s[1:], msg, 0)) != nil, "one signature short")
	nd.Reach("end")
}

// VH_B03_Distinct: a long batch of given, distinct messages.
func VH_B03_Distinct() {
	s := vhKey()
	apk := NewApk(s.pk)
	var msgs [][]byte
	var ak []*Apk
	var pk []*PublicKey
	var sum *Signature
	var usum *UnsafeSignature
	for k := 0; k < nd.Param("n"); k++ {
		m := []byte{byte(k), byte(k >> 8), 7}
		msgs, ak, pk = append(msgs, m), append(ak, apk), append(pk, s.pk)
		if k == 0 {
			sum, usum = vhSign(s, m), vhUnsafe(s, m)
		} else {
			sum.Aggregate(vhSign(s, m))
			usum = UnsafeAggregate(usum, vhUnsafe(s, m))
		}
	}
	nd.Assert(VerifyBatch(ak, msgs, sum) == nil, "the batch verifies")
	nd.Assert(VerifyUnsafeBatch(pk, msgs, usum) == nil, "the plain batch verifies")
	nd.Reach("end")
}
