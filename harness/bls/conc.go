package bls

import (
	"bytes"

	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

type vhOut struct {
	b   []byte
	err error
}

// vhDo: an operation that only reads its key, signature and message.
func vhDo(op int, s vhSigner, apk *Apk, sig *Signature, us *UnsafeSignature, msg []byte) (o vhOut) {
	switch op {
	case 0:
		var t *Signature
		t, o.err = Sign(s.sk, s.pk, msg)
		if o.err == nil {
			o.b = t.Marshal()
		}
	case 1:
		var t *UnsafeSignature
		t, o.err = UnsafeSign(s.sk, msg)
		if o.err == nil {
			o.b = t.Marshal()
		}
	case 2:
		o.err = Verify(apk, msg, sig)
	case 3:
		o.err = VerifyUnsafe(s.pk, msg, us)
	case 4:
		var a *Apk
		a, o.err = AggregateApk([]*PublicKey{s.pk, s.pk})
		if o.err == nil {
			o.b = a.Marshal()
		}
	case 5:
		o.b = NewApk(s.pk).Marshal()
	case 6:
		o.b = s.pk.Marshal()
	case 7:
		o.b, o.err = s.pk.MarshalText()
	case 8:
		o.b = sig.Compress()
	case 9:
		o.b = sig.Marshal()
	case 10:
		o.b = us.Compress()
	case 11:
		o.b = us.Marshal()
	case 12:
		o.b = sig.Copy().Marshal()
	case 13:
		o.b = apk.Copy().Marshal()
	case 14:
		o.b = UnsafeAggregate(us, us).Marshal()
	case 15:
		o.err = VerifyBatch([]*Apk{apk}, [][]byte{msg}, sig)
	case 16:
		t := sig.Copy()
		o.err = t.Add(s.pk, us)
		o.b = t.Marshal()
	case 17:
		t := sig.Copy()
		t.Aggregate(sig)
		o.b = t.Marshal()
	case 18:
		var a *Apk
		a, o.err = UnmarshalApk(apk.Copy().Marshal())
		if o.err == nil {
			o.err = a.Aggregate(s.pk)
			o.b = a.Marshal()
		}
	case 19:
		o.err = VerifyUnsafeBatch([]*PublicKey{s.pk}, [][]byte{msg}, us)
	case 20:
		o.b = apk.Marshal()
	case 21:
		o.b, o.err = apk.MarshalText()
	case 22:
		a := apk.Copy()
		o.err = a.AggregateBytes(apk.Marshal())
		o.b = a.Marshal()
	case 23:
		t := sig.Copy()
		o.err = t.AggregateBytes(sig.Marshal())
		o.b = t.Compress()
	}
	return
}

func vhSameOut(a, b vhOut) bool { return (a.err == nil) == (b.err == nil) && bytes.Equal(a.b, b.b) }

// vhMade leaves the signer's key as it was generated.
func vhMade(s vhSigner, msg []byte) (*Apk, *Signature, *UnsafeSignature) {
	s.pk = &PublicKey{gx: newG2().Set(s.pk.gx)}
	return NewApk(s.pk), vhSign(s, msg), vhUnsafe(s, msg)
}

// VH_C01_Bls: two operations at the same time, on separate objects or reading the same ones.
func VH_C01_Bls() {
	op, other := nd.Param("op"), nd.Param("other")
	s, t := vhKey(), vhKey()
	m, n := nd.Bytes("m", 4), nd.Bytes("n", 4)
	if nd.Param("same") == 1 {
		t, n = s, m
	}
	apk, sig, us := vhMade(s, m)
	apk2, sig2, us2 := apk, sig, us
	if nd.Param("same") == 0 {
		apk2, sig2, us2 = vhMade(t, n)
	}
	var a, b vhOut
	nd.Concurrently(func() { a = vhDo(op, s, apk, sig, us, m) }, func() { b = vhDo(other, t, apk2, sig2, us2, n) })
	nd.Assert(vhSameOut(a, vhDo(op, s, apk, sig, us, m)), "the first gives what it gives alone")
	nd.Assert(vhSameOut(b, vhDo(other, t, apk2, sig2, us2, n)), "the second gives what it gives alone")
	nd.Reach("end")
}
