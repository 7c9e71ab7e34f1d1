package bls

import (
	"bytes"
	"encoding/base64"

	"github.com/dusk-network/bn256"
	nd "github.com/dusk-network/dusk-crypto/internal/verifnd"
)

// vhSigner is a key pair: any non-zero secret.
type vhSigner struct {
	pk *PublicKey
	sk *SecretKey
}

func vhKey() vhSigner {
	pk, sk, err := GenKeyPair(nd.Reader("x"))
	nd.Assert(err == nil && pk != nil && sk != nil, "key generation succeeds")
	return vhSigner{pk, sk}
}

func vhKeys(n int) []vhSigner {
	var out []vhSigner
	for i := 0; i < n; i++ {
		out = append(out, vhKey())
	}
	return out
}

func vhPks(s []vhSigner) []*PublicKey {
	var out []*PublicKey
	for i := range s {
		out = append(out, s[i].pk)
	}
	return out
}

func vhSign(s vhSigner, msg []byte) *Signature {
	sig, err := Sign(s.sk, s.pk, msg)
	nd.Assert(err == nil, "signing succeeds")
	return sig
}

func vhUnsafe(s vhSigner, msg []byte) *UnsafeSignature {
	sig, err := UnsafeSign(s.sk, msg)
	nd.Assert(err == nil, "signing succeeds")
	return sig
}

// vhSame compares signatures by their encoding.
func vhSame(a, b []byte) bool { return bytes.Equal(a, b) }

// vhAnySig is an arbitrary signature point.
func vhAnySig() *Signature {
	s, err := UnmarshalSignature(nd.G1Bytes("sig"))
	nd.Assert(err == nil, "a valid point decodes")
	return s
}

func vhAnyUnsafe() *UnsafeSignature {
	s := &UnsafeSignature{}
	nd.Assert(s.Unmarshal(nd.G1Bytes("sig")) == nil, "a valid point decodes")
	return s
}

// vhG2 is the group element of a key.
func vhG2(pk *PublicKey) *bn256.G2 {
	g := new(bn256.G2)
	_, err := g.Unmarshal(pk.Marshal())
	nd.Assert(err == nil, "a key's encoding decodes")
	return g
}

// vhApk aggregates keys by one of the routes.
func vhApk(s []vhSigner, route int) *Apk {
	pks := vhPks(s)
	if route == 0 {
		apk, err := AggregateApk(pks)
		nd.Assert(err == nil, "aggregating keys succeeds")
		return apk
	}
	apk := NewApk(pks[0])
	for _, pk := range pks[1:] {
		switch route {
		case 1:
			nd.Assert(apk.Aggregate(pk) == nil, "aggregating keys succeeds")
		case 2:
			nd.Assert(apk.AggregateBytes(pk.Marshal()) == nil, "aggregating keys succeeds")
		case 3:
			c := apk.Copy()
			nd.Assert(c.Aggregate(pk) == nil, "aggregating keys succeeds")
			apk = c
		case 4: // through the wire
			a, err := UnmarshalApk(apk.Marshal())
			nd.Assert(err == nil, "decoding succeeds")
			nd.Assert(a.Aggregate(pk) == nil, "aggregating keys succeeds")
			apk = a
		}
	}
	return apk
}

// vhSigs aggregates signatures by one of the routes.
func vhSigs(s []vhSigner, msg []byte, route int) *Signature {
	sum := vhSign(s[0], msg)
	for _, k := range s[1:] {
		switch route {
		case 0:
			sum = sum.Aggregate(vhSign(k, msg))
		case 1:
			nd.Assert(sum.AggregateBytes(vhSign(k, msg).Marshal()) == nil, "aggregating signatures succeeds")
		case 2:
			nd.Assert(sum.AggregateBytes(vhSign(k, msg).Compress()) == nil, "aggregating signatures succeeds")
		case 3:
			nd.Assert(sum.Add(k.pk, vhUnsafe(k, msg)) == nil, "aggregating signatures succeeds")
		case 4:
			c := sum.Copy()
			c.Aggregate(vhSign(k, msg))
			sum = c
		}
	}
	return sum
}

func vhOrder(s []vhSigner, how int) []vhSigner {
	out := append([]vhSigner{}, s...)
	n := len(s)
	switch how {
	case 1: // reversed
		for i := range s {
			out[i] = s[n-1-i]
		}
	case 2: // rotated
		for i := range s {
			out[i] = s[(i+1)%n]
		}
	}
	return out
}

// VH_B01_Single: one signer.
func VH_B01_Single() {
	s := vhKey()
	msg := nd.Bytes("msg", nd.Param("msg"))
	msg0 := append([]byte{}, msg...)
	pk0 := s.pk.Marshal()
	sig, usig := vhSign(s, msg), vhUnsafe(s, msg)
	nd.Assert(Verify(NewApk(s.pk), msg, sig) == nil, "the signature verifies")
	nd.Assert(VerifyUnsafe(s.pk, msg, usig) == nil, "the plain signature verifies")
	nd.Assert(VerifyUnsafeBatch([]*PublicKey{s.pk}, [][]byte{msg}, usig) == nil, "also as a batch of one")
	nd.Assert(VerifyBatch([]*Apk{NewApk(s.pk)}, [][]byte{msg}, sig) == nil, "also as a batch of one")
	nd.Assert(bytes.Equal(msg, msg0), "the message is as it was")
	nd.Assert(bytes.Equal(pk0, s.pk.Marshal()), "the key is as it was")
	again := vhSign(s, msg)
	nd.Assert(vhSame(again.Marshal(), sig.Marshal()), "signing is deterministic")
	nd.Reach("end")
}

// VH_B01_Aggregate: several signers of one message.
func VH_B01_Aggregate() {
	s := vhKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 5)
	sig := vhSigs(vhOrder(s, nd.Param("order")), msg, nd.Param("sroute"))
	apk := vhApk(s, nd.Param("kroute"))
	nd.Assert(Verify(apk, msg, sig) == nil, "the aggregate verifies")
	nd.Assert(VerifyBatch([]*Apk{apk}, [][]byte{msg}, sig) == nil, "also as a batch of one")
	nd.Assert(VerifyCompressed([]*bn256.G2{vhG2(apk.PublicKey)}, [][]byte{msg}, sig.Compress(), false) == nil, "also compressed")
	// the plain sums
	sum, usum := s[0].pk, vhUnsafe(s[0], msg)
	for _, k := range s[1:] {
		before, ubefore := sum.Marshal(), usum.Marshal()
		sum2, usum2 := sum.Aggregate(k.pk), UnsafeAggregate(usum, vhUnsafe(k, msg))
		nd.Assert(bytes.Equal(before, sum.Marshal()) && bytes.Equal(ubefore, usum.Marshal()), "plain aggregation changes no operand")
		sum, usum = sum2, usum2
	}
	nd.Assert(VerifyUnsafe(sum, msg, usum) == nil, "the plain sum verifies under the plain sum of the keys")
	nd.Assert(Verify(apk, msg, sig) == nil, "the aggregate still verifies")
	nd.Reach("end")
}

// VH_B01_Cancel: the aggregate of the same signers is the same, whatever the routes and the order.
func VH_B01_Same() {
	s := vhKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 5)
	a, b := vhSigs(s, msg, 0), vhSigs(vhOrder(s, nd.Param("order")), msg, nd.Param("route"))
	nd.Assert(vhSame(a.Marshal(), b.Marshal()), "the same signature")
	k, l := vhApk(s, 0), vhApk(vhOrder(s, nd.Param("order")), nd.Param("route"))
	nd.Assert(bytes.Equal(k.Marshal(), l.Marshal()), "the same key")
	nd.Reach("end")
}

func vhMessages(n, size int) [][]byte {
	var out [][]byte
	for i := 0; i < n; i++ {
		m := nd.Bytes("msg", size)
		m[0] = byte(i) // distinct
		out = append(out, m)
	}
	return out
}

// VH_B01_Batch: distinct messages, each by several signers.
func VH_B01_Batch() {
	n, each := nd.Param("n"), nd.Param("each")
	msgs := vhMessages(n, nd.Param("size"))
	var apks []*Apk
	var sum *Signature
	var pks []*PublicKey
	var g2s []*bn256.G2
	var usigs []*UnsafeSignature
	for i := range msgs {
		s := vhKeys(each)
		apks = append(apks, vhApk(s, 0))
		sig := vhSigs(s, msgs[i], 0)
		if i == 0 {
			sum = sig
		} else {
			sum.Aggregate(sig)
		}
		pks = append(pks, s[0].pk)
		usigs = append(usigs, vhUnsafe(s[0], msgs[i]))
		g2s = append(g2s, vhG2(apks[i].PublicKey))
	}
	nd.Assert(VerifyBatch(apks, msgs, sum) == nil, "the batch verifies")
	u, err := UnsafeBatch(usigs...)
	nd.Assert(err == nil, "aggregating succeeds")
	nd.Assert(VerifyUnsafeBatch(pks, msgs, u) == nil, "the plain batch verifies")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), false) == nil, "the compressed batch verifies")
	nd.Assert(VerifyCompressed(g2s, msgs, sum.Compress(), true) == nil, "the compressed batch verifies")
	for i := range usigs {
		nd.Assert(VerifyUnsafe(pks[i], msgs[i], usigs[i]) == nil, "the single signatures still verify")
	}
	nd.Reach("end")
}

// VH_B02_Unsafe: an arbitrary point is accepted exactly when it is the signature.
func VH_B02_Unsafe() {
	nd.GenericHashes(false)
	s := vhKey()
	msg := nd.Bytes("msg", nd.Param("msg"))
	sig := vhAnyUnsafe()
	before, kb := sig.Marshal(), s.pk.Marshal()
	want := vhSame(sig.Marshal(), vhUnsafe(s, msg).Marshal())
	nd.Assert((VerifyUnsafe(s.pk, msg, sig) == nil) == want, "accepted exactly when it is the signature")
	nd.Assert(bytes.Equal(before, sig.Marshal()) && bytes.Equal(kb, s.pk.Marshal()), "verifying changes nothing")
	if want {
		nd.Reach("accepted")
	} else {
		nd.Reach("rejected")
	}
}

// VH_B02_Apk: the same under an aggregate key.
func VH_B02_Apk() {
	nd.GenericHashes(false)
	s := vhKeys(nd.Param("n"))
	msg := nd.Bytes("msg", nd.Param("msg"))
	sig := vhAnySig()
	apk := vhApk(s, nd.Param("route"))
	before, kb := sig.Marshal(), apk.Marshal()
	want := vhSame(sig.Marshal(), vhSigs(s, msg, 0).Marshal())
	nd.Assert((Verify(apk, msg, sig) == nil) == want, "accepted exactly when it is the signature")
	nd.Assert(bytes.Equal(before, sig.Marshal()) && bytes.Equal(kb, apk.Marshal()), "verifying changes nothing")
	if want {
		nd.Reach("accepted")
	} else {
		nd.Reach("rejected")
	}
}

// VH_B02_Message: another message is rejected.
func VH_B02_Message() {
	s := vhKeys(nd.Param("n"))
	a, b := nd.Bytes("msg", nd.Param("a")), nd.Bytes("other", nd.Param("b"))
	same := bytes.Equal(a, b)
	nd.Assert((VerifyUnsafe(s[0].pk, b, vhUnsafe(s[0], a)) == nil) == same, "plain: accepted for the message signed and no other")
	nd.Assert((Verify(vhApk(s, 0), b, vhSigs(s, a, 0)) == nil) == same, "accepted for the message signed and no other")
	if same {
		nd.Reach("same")
	} else {
		nd.Reach("other")
	}
}

// VH_B02_Key: another key is rejected.
func VH_B02_Key() {
	s, o := vhKey(), vhKey()
	msg := nd.Bytes("msg", 4)
	same := bytes.Equal(s.pk.Marshal(), o.pk.Marshal())
	nd.Assert((VerifyUnsafe(o.pk, msg, vhUnsafe(s, msg)) == nil) == same, "plain: accepted under the signer's key and no other")
	nd.Assert((Verify(NewApk(o.pk), msg, vhSign(s, msg)) == nil) == same, "accepted under the signer's key and no other")
	nd.Reach("end")
}

// VH_B02_Members: keys added or left out.
func VH_B02_Members() {
	n, m := nd.Param("n"), nd.Param("m")
	k := n
	if m > k {
		k = m
	}
	s := vhKeys(k)
	msg := nd.Bytes("msg", 4)
	nd.Assert((Verify(vhApk(s[:m], 0), msg, vhSigs(s[:n], msg, 0)) == nil) == (n == m), "accepted for exactly the signers")
	nd.Reach("end")
}

// VH_B02_Swapped: a plain signature where an aggregated one is expected, and the reverse.
func VH_B02_Swapped() {
	s := vhKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 4)
	sum, usum := s[0].pk, vhUnsafe(s[0], msg)
	for _, k := range s[1:] {
		sum, usum = sum.Aggregate(k.pk), UnsafeAggregate(usum, vhUnsafe(k, msg))
	}
	sig, err := UnmarshalSignature(usum.Marshal())
	nd.Assert(err == nil, "decoding succeeds")
	nd.Assert(VerifyUnsafe(sum, msg, usum) == nil, "the plain sum verifies as such")
	nd.Assert(Verify(vhApk(s, nd.Param("route")), msg, sig) != nil, "but not under the aggregate key")
	agg := &UnsafeSignature{}
	nd.Assert(agg.Unmarshal(vhSigs(s, msg, 0).Marshal()) == nil, "decoding succeeds")
	nd.Assert(VerifyUnsafe(sum, msg, agg) != nil, "an aggregate does not verify under the plain sum")
	nd.Reach("end")
}

// VH_B02_Rogue: the owner of beta publishes beta*G2 - victim as key.
func VH_B02_Rogue() {
	victim, own := vhKey(), vhKey()
	msg := nd.Bytes("msg", 4)
	neg := new(bn256.G2)
	neg.Neg(vhG2(victim.pk))
	neg.Add(vhG2(own.pk), neg)
	enc := neg.Marshal()
	nd.Assume(len(enc) == 129)
	nd.Assume(!bytes.Equal(enc, victim.pk.Marshal())) // who owns half of the victim's key knows it all
	rogue, err := UnmarshalPk(enc)
	nd.Assert(err == nil, "decoding succeeds")
	sum := victim.pk.Aggregate(rogue)
	nd.Assert(VerifyUnsafe(sum, msg, vhUnsafe(own, msg)) == nil, "the plain sum is open to the attack")
	keys := []*PublicKey{victim.pk, rogue}
	if nd.Param("order") == 1 {
		keys[0], keys[1] = keys[1], keys[0]
	}
	apk, err := AggregateApk(keys)
	nd.Assert(err == nil, "aggregating keys succeeds")
	for i, as := range []*PublicKey{victim.pk, rogue, own.pk} {
		sig, err := Sign(own.sk, as, msg)
		nd.Assert(err == nil, "signing succeeds")
		nd.Assert(Verify(apk, msg, sig) != nil, "the aggregate key is not")
		if i == nd.Param("plus") {
			o, err := Sign(own.sk, rogue, msg)
			nd.Assert(err == nil, "signing succeeds")
			nd.Assert(Verify(apk, msg, sig.Aggregate(o)) != nil, "the aggregate key is not")
		}
	}
	plain, err := UnmarshalSignature(vhUnsafe(own, msg).Marshal())
	nd.Assert(err == nil && Verify(apk, msg, plain) != nil, "the aggregate key is not")
	nd.Reach("end")
}

// VH_B02_Alter: a signature with something added is rejected.
func VH_B02_Alter() {
	nd.GenericHashes(false)
	s := vhKeys(nd.Param("n"))
	msg := nd.Bytes("msg", 4)
	sig := vhSigs(s, msg, 0)
	sig.Aggregate(vhAnySig())
	same := vhSame(sig.Marshal(), vhSigs(s, msg, 0).Marshal())
	nd.Assert((Verify(vhApk(s, 0), msg, sig) == nil) == same, "an altered signature is rejected")
	nd.Reach("end")
}

// VH_B03_Batch: arbitrary batches.
func VH_B03_Batch() {
	nd.GenericHashes(false)
	np, nm, which := nd.Param("np"), nd.Param("nm"), nd.Param("which")
	s := vhKeys(np)
	var msgs [][]byte
	for i := 0; i < nm; i++ {
		msgs = append(msgs, nd.Bytes("msg", nd.Param("size")+i%nd.Param("mod")))
	}
	allow := nd.Param("allow") == 1
	ok := np == nm && np > 0
	for i := range msgs {
		for j := 0; j < i && ok && !(allow && which == 2); j++ {
			if bytes.Equal(msgs[i], msgs[j]) {
				ok = false
			}
		}
	}
	u := vhAnyUnsafe()
	var apks []*Apk
	var g2s []*bn256.G2
	for i := range s {
		apks = append(apks, NewApk(s[i].pk))
		g2s = append(g2s, vhG2(s[i].pk))
	}
	if ok {
		var want *UnsafeSignature
		for i := range s {
			k := vhUnsafe(s[i], msgs[i])
			if which == 1 {
				k = &UnsafeSignature{}
				nd.Assert(k.Unmarshal(vhSign(s[i], msgs[i]).Marshal()) == nil, "decoding succeeds")
			}
			if i == 0 {
				want = k
			} else {
				want = UnsafeAggregate(want, k)
			}
		}
		ok = vhSame(u.Marshal(), want.Marshal())
	}
	var err error
	switch which {
	case 0:
		err = VerifyUnsafeBatch(vhPks(s), msgs, u)
	case 1:
		sig, e := UnmarshalSignature(u.Marshal())
		nd.Assert(e == nil, "decoding succeeds")
		err = VerifyBatch(apks, msgs, sig)
	case 2:
		e := u.Marshal()
		nd.Assume(!bytes.Equal(e, make([]byte, 64))) // the neutral element has no compressed form
		err = VerifyCompressed(g2s, msgs, u.Compress(), allow)
	}
	nd.Assert((err == nil) == ok, "accepted exactly when well-formed and correct")
	if ok {
		nd.Reach("accepted")
	} else {
		nd.Reach("rejected")
	}
}

// VH_B03_Compressed: hostile compressed signatures.
func VH_B03_Compressed() {
	n := nd.Param("n")
	s := vhKeys(n)
	msgs := vhMessages(n, 4)
	var g2s []*bn256.G2
	for i := range s {
		g2s = append(g2s, vhG2(s[i].pk))
	}
	b := nd.Bytes("b", nd.Param("len"))
	if VerifyCompressed(g2s, msgs, b, nd.Param("allow") == 1) == nil {
		nd.Assert(n > 0 && len(b) == 33, "only a compressed point is accepted")
	}
	nd.Reach("end")
}

// VH_B03_Swap: keys or messages exchanged within a batch.
func VH_B03_Swap() {
	n := nd.Param("n")
	s := vhKeys(n)
	msgs := vhMessages(n, 4)
	var us []*UnsafeSignature
	for i := range s {
		us = append(us, vhUnsafe(s[i], msgs[i]))
	}
	u, err := UnsafeBatch(us...)
	nd.Assert(err == nil, "aggregating succeeds")
	pks := vhPks(s)
	switch nd.Param("how") {
	case 0:
		pks[0], pks[n-1] = pks[n-1], pks[0]
		same := bytes.Equal(pks[0].Marshal(), pks[n-1].Marshal())
		nd.Assert((VerifyUnsafeBatch(pks, msgs, u) == nil) == same, "exchanged keys are rejected")
	case 1: // both exchanged: the same batch
		pks[0], pks[n-1] = pks[n-1], pks[0]
		msgs[0], msgs[n-1] = msgs[n-1], msgs[0]
		nd.Assert(VerifyUnsafeBatch(pks, msgs, u) == nil, "the order of the pairs does not matter")
	case 2: // a pair left out
		nd.Assert(VerifyUnsafeBatch(pks[1:], msgs[1:], u) != nil, "a batch without a pair is rejected")
	case 3: // a pair repeated
		nd.Assert(VerifyUnsafeBatch(append(pks, pks[0]), append(msgs, msgs[0]), u) != nil, "a batch with a repeated pair is rejected")
	case 4: // all messages the same
		for i := range msgs {
			msgs[i] = msgs[0]
		}
		nd.Assert(VerifyUnsafeBatch(pks, msgs, u) != nil, "a batch with equal messages is rejected")
	}
	nd.Reach("end")
}

// VH_B04_Key: keys through every encoding.
func VH_B04_Key() {
	b := nd.G2Bytes("K")
	zero := nd.Param("zero") == 1
	if zero {
		b = []byte{0}
	}
	pk, err := UnmarshalPk(b)
	nd.Assert(err == nil, "a valid point decodes")
	nd.Assert(bytes.Equal(pk.Marshal(), b), "the binary form")
	t, err := pk.MarshalText()
	nd.Assert(err == nil, "encoding succeeds")
	q := &PublicKey{}
	if nd.Param("used") == 1 {
		q = vhKey().pk
	}
	nd.Assert(q.UnmarshalText(t) == nil && bytes.Equal(q.Marshal(), b), "the text form")
	q2 := &PublicKey{}
	nd.Assert(q2.Unmarshal(pk.Marshal()) == nil && bytes.Equal(q2.Marshal(), b), "the binary form")
	apk, err := UnmarshalApk(b)
	nd.Assert(err == nil && bytes.Equal(apk.Marshal(), b), "an aggregate key")
	c := apk.Copy()
	nd.Assert(bytes.Equal(c.Marshal(), b), "a copy")
	nd.Assert(bytes.Equal(pk.Marshal(), b), "the key is as it was")
	nd.Reach("end")
}

// VH_B04_Sig: signatures through every encoding.
func VH_B04_Sig() {
	b := nd.G1Bytes("S")
	nd.Assume(!bytes.Equal(b, make([]byte, 64))) // the neutral element has no compressed form
	s, err := UnmarshalSignature(b)
	nd.Assert(err == nil && bytes.Equal(s.Marshal(), b), "the binary form")
	c := s.Compress()
	nd.Assert(len(c) == 33, "the compressed form is short")
	u := &Signature{}
	if nd.Param("used") == 1 {
		u = vhAnySig()
	}
	nd.Assert(u.Decompress(c) == nil && bytes.Equal(u.Marshal(), b), "the compressed form")
	u, err = UnmarshalSignature(c)
	nd.Assert(err == nil && bytes.Equal(u.Marshal(), b), "the compressed form is recognised")
	nd.Assert(bytes.Equal(s.Copy().Marshal(), b), "a copy")
	w := &UnsafeSignature{}
	nd.Assert(w.Unmarshal(b) == nil && bytes.Equal(w.Marshal(), b), "plain: the binary form")
	d := w.Compress()
	nd.Assert(bytes.Equal(c, d), "plain: the compressed form is the same")
	w = &UnsafeSignature{}
	if nd.Param("used") == 1 {
		w = vhAnyUnsafe()
	}
	nd.Assert(w.Decompress(d) == nil && bytes.Equal(w.Marshal(), b), "plain: the compressed form")
	nd.Assert(bytes.Equal(s.Marshal(), b), "the signature is as it was")
	nd.Reach("end")
}

// VH_B04_Neutral: the neutral element in the binary form.
func VH_B04_Neutral() {
	b := make([]byte, 64)
	s, err := UnmarshalSignature(b)
	nd.Assert(err == nil && bytes.Equal(s.Marshal(), b) && bytes.Equal(s.Copy().Marshal(), b), "the binary form")
	w := &UnsafeSignature{}
	nd.Assert(w.Unmarshal(b) == nil && bytes.Equal(w.Marshal(), b), "plain: the binary form")
	nd.Reach("end")
}

// VH_B04_Hostile: arbitrary bytes. A failed decode leaves the receiver as it was; a successful one gives a point that
// encodes and decodes to itself.
func VH_B04_Hostile() {
	b := nd.Bytes("b", nd.Param("n"))
	what := nd.Param("what")
	k := vhKey()
	msg := []byte("m")
	var before, after, again []byte
	var err, err2 error
	switch what {
	case 0, 1, 2, 3:
		apk := NewApk(k.pk)
		pk := apk.PublicKey
		before = pk.Marshal()
		switch what {
		case 0:
			err = pk.Unmarshal(b)
		case 1:
			err = apk.Unmarshal(b)
		case 2:
			err = pk.UnmarshalText(b)
		case 3:
			err = apk.AggregateBytes(b)
		}
		after = pk.Marshal()
		q := &PublicKey{}
		err2 = q.Unmarshal(after)
		again = q.Marshal()
		if what == 0 || what == 1 {
			p, e := UnmarshalPk(b)
			nd.Assert((e == nil) == (err == nil) && (e == nil) == (p != nil), "a key or an error")
			a, e := UnmarshalApk(b)
			nd.Assert((e == nil) == (err == nil) && (e == nil) == (a != nil), "a key or an error")
			if e == nil {
				nd.Assert(bytes.Equal(p.Marshal(), after) && bytes.Equal(a.Marshal(), after), "the same key")
			}
		}
	case 4, 5, 6:
		s := vhSign(k, msg)
		before = s.Marshal()
		switch what {
		case 4:
			err = s.Unmarshal(b)
		case 5:
			err = s.Decompress(b)
		case 6:
			err = s.AggregateBytes(b)
		}
		after = s.Marshal()
		u := &Signature{}
		err2 = u.Unmarshal(after)
		again = u.Marshal()
		if what == 4 {
			p, e := UnmarshalSignature(b)
			nd.Assert((e == nil) == (err == nil) && (e == nil) == (p != nil), "a signature or an error")
			if e == nil {
				nd.Assert(bytes.Equal(p.Marshal(), after), "the same signature")
			}
		}
	case 7, 8:
		s := vhUnsafe(k, msg)
		before = s.Marshal()
		switch what {
		case 7:
			err = s.Unmarshal(b)
		case 8:
			err = s.Decompress(b)
		}
		after = s.Marshal()
		u := &UnsafeSignature{}
		err2 = u.Unmarshal(after)
		again = u.Marshal()
	}
	if err != nil {
		nd.Assert(bytes.Equal(before, after), "a failed decode leaves the receiver as it was")
		nd.Reach("error")
		return
	}
	nd.Assert(err2 == nil && bytes.Equal(again, after), "what was decoded encodes and decodes")
	// the library decides what encodes a group element
	var ref error
	switch {
	case what == 2:
		raw := make([]byte, base64.RawURLEncoding.DecodedLen(len(b)))
		k, e := base64.RawURLEncoding.Decode(raw, b)
		nd.Assert(e == nil, "only texts are decoded")
		_, ref = new(bn256.G2).Unmarshal(raw[:k])
	case what < 4:
		_, ref = new(bn256.G2).Unmarshal(b)
	case what == 5 || what == 8 || (what != 7 && len(b) == 33):
		_, ref = bn256.Decompress(b)
	default:
		_, ref = new(bn256.G1).Unmarshal(b)
	}
	nd.Assert(ref == nil, "only encodings of group elements are decoded")
	nd.Reach("ok")
}

// VH_B04_Fresh: a failed decode into an empty receiver.
func VH_B04_Text() {
	// the text of a key with a character changed or cut off
	pk := vhKey().pk
	t, err := pk.MarshalText()
	nd.Assert(err == nil, "encoding succeeds")
	q := vhKey().pk
	before := q.Marshal()
	switch nd.Param("how") {
	case 0:
		t = t[:len(t)-nd.Param("k")]
	case 1:
		t[nd.Param("k")] = '!'
	case 2:
		for i := 0; i < nd.Param("k"); i++ {
			t = append(t, '!')
		}
	}
	nd.Assert(q.UnmarshalText(t) != nil, "a damaged text is refused")
	nd.Assert(bytes.Equal(before, q.Marshal()), "the receiver is as it was")
	nd.Reach("end")
}

// VH_B04_Copies: copies and originals go separate ways.
func VH_B04_Copies() {
	a, b := vhKey(), vhKey()
	msg := nd.Bytes("msg", 3)
	apk := NewApk(a.pk)
	pk0, apk0 := a.pk.Marshal(), apk.Marshal()
	c := apk.Copy()
	nd.Assert(c.Aggregate(b.pk) == nil, "aggregating succeeds")
	nd.Assert(bytes.Equal(apk.Marshal(), apk0), "the original of a key is as it was")
	c0 := c.Marshal()
	nd.Assert(apk.AggregateBytes(a.pk.Marshal()) == nil, "aggregating succeeds")
	nd.Assert(bytes.Equal(c.Marshal(), c0), "the copy of a key is as it was")
	nd.Assert(bytes.Equal(a.pk.Marshal(), pk0), "the key behind an aggregate key is as it was")
	all, err := AggregateApk([]*PublicKey{a.pk, b.pk})
	nd.Assert(err == nil && bytes.Equal(all.Marshal(), c0), "the aggregate")
	nd.Assert(bytes.Equal(a.pk.Marshal(), pk0), "the key behind an aggregate key is as it was")

	s, o := vhSign(a, msg), vhSign(b, msg)
	s0, o0 := s.Marshal(), o.Marshal()
	d := s.Copy()
	d.Aggregate(o)
	nd.Assert(bytes.Equal(s.Marshal(), s0) && bytes.Equal(o.Marshal(), o0), "the original of a signature is as it was")
	d0 := d.Marshal()
	s.Aggregate(o)
	nd.Assert(bytes.Equal(d.Marshal(), d0) && bytes.Equal(o.Marshal(), o0), "the copy of a signature is as it was")
	u, v := vhUnsafe(a, msg), vhUnsafe(b, msg)
	u0, v0 := u.Marshal(), v.Marshal()
	_, err = UnsafeBatch(u, v)
	nd.Assert(err == nil && s.Add(b.pk, v) == nil, "aggregating succeeds")
	nd.Assert(bytes.Equal(u.Marshal(), u0) && bytes.Equal(v.Marshal(), v0), "plain signatures are as they were")
	// the bytes handed out are the caller's
	m := a.pk.Marshal()
	for i := range m {
		m[i] = 0
	}
	nd.Assert(bytes.Equal(a.pk.Marshal(), pk0), "encodings are not shared")
	nd.Reach("end")
}
