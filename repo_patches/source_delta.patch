From e211d0efda4df62b572bb20fa31ff7f56cfc0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:56 +0000
Subject: [PATCH 01/28] fix: ScalarPowers of zero starts with 0^0 = 1

---
 rangeproof/vector/vector.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..9c34984 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -150,10 +150,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From 17d22cf81a3f48eaf99b8f33f738b974c1de1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:36 +0000
Subject: [PATCH 02/28] fix: generators and commitments keep their own copy of
 the seed and never write into the caller's

---
 rangeproof/generators/generator.go | 2 +-
 rangeproof/pedersen/pedersen.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rangeproof/generators/generator.go b/rangeproof/generators/generator.go
index 35facce..e8931a6 100644
--- a/rangeproof/generators/generator.go
+++ b/rangeproof/generators/generator.go
@@ -17,7 +17,7 @@ type Generator struct {
 // will use data to generate `n` points
 func New(data []byte) *Generator {
 	return &Generator{
-		data:  data,
+		data:  append([]byte{}, data...),
 		Bases: []ristretto.Point{},
 	}
 }
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..2226496 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -33,7 +33,7 @@ func New(genData []byte) *Pedersen {
 
 	return &Pedersen{
 		BaseVector: gen,
-		GenData:    genData,
+		GenData:    append([]byte{}, genData...),
 		BlindPoint: blindPoint,
 		BasePoint:  basePoint,
 	}
@@ -197,7 +197,7 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := append(append([]byte{}, p.GenData...), uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 51b519e19e54669016f2f81a1a92cc7686d66eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:05 +0000
Subject: [PATCH 03/28] fix: range proof verification takes the number of
 values from the proof, not from global state

---
 rangeproof/debug.go      | 40 +++++++++++------------
 rangeproof/poly.go       | 19 ++++++-----
 rangeproof/rangeproof.go | 68 +++++++++++++++++++++++-----------------
 3 files changed, 69 insertions(+), 58 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..0326801 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, m int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,20 +37,20 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, m int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
 	aRPlusZ := vector.AddScalar(aR, z)
 
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	hada, err := vector.Hadamard(yNM, aRPlusZ)
 	if err != nil {
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,28 +66,28 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, m int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	G := ped.BaseVector.Bases
 
-	lG, err := vector.Exp(l, G, N, M)
+	lG, err := vector.Exp(l, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<l(x), G>")
 	}
 	// <aL,G>
-	aLG, err := vector.Exp(aL, G, N, M)
+	aLG, err := vector.Exp(aL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aL,G>")
 	}
 	// x<sL, G>
-	sLG, err := vector.Exp(sL, G, N, M)
+	sLG, err := vector.Exp(sL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "x<sL, G>")
 	}
@@ -97,7 +97,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	// <-z1, G>
 	var zNeg ristretto.Scalar
 	zNeg.Neg(&z)
-	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*M)), G, N, M)
+	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*m)), G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<-z1, G>")
 	}
@@ -110,32 +110,32 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, m int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32((N * M)))
+	ped2.BaseVector.Compute(uint32((N * m)))
 
 	H := ped2.BaseVector.Bases
 
 	Hprime := computeHprime(H, y)
 
 	// <r(x), H'>
-	rH, err := vector.Exp(r, Hprime, N, M)
+	rH, err := vector.Exp(r, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<r(x), H'>")
 	}
 
 	// <aR,H>
-	aRH, err := vector.Exp(aR, H, N, M)
+	aRH, err := vector.Exp(aR, H, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aR,H>")
 	}
 	// x<sR, H>
-	sRH, err := vector.Exp(sR, H, N, M)
+	sRH, err := vector.Exp(sR, H, N, m)
 	if err != nil {
 
 		return false, errors.Wrap(err, "x<sR, H>")
@@ -145,18 +145,18 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	xsRH.ScalarMult(&sRH, &x)
 
 	// y^(n*m)
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	// z*y^nm
 	zMulYn := vector.MulScalar(yNM, z)
 
 	// p = <z*y^nm , H'>
-	p, err := vector.Exp(zMulYn, Hprime, N, M)
+	p, err := vector.Exp(zMulYn, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, m), Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..95b5681 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, m int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -24,9 +24,9 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	l1 := sL
 
 	// calculate r_0
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -152,23 +152,22 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 	return t0
 }
 
-// calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
+// calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=m (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
 
-	res := make([]ristretto.Scalar, N*M)
+	res := make([]ristretto.Scalar, N*m)
 
-	zM := vector.ScalarPowers(z, uint32(M+3))
+	zM := vector.ScalarPowers(z, uint32(m+3))
 
 	var two ristretto.Scalar
 	two.SetBigInt(big.NewInt(2))
 	twoN := vector.ScalarPowers(two, N)
 
-	for i := 0; i < M*N; i++ {
+	for i := 0; i < m*N; i++ {
 		res[i].SetZero()
-		for j := 1; j <= M; j++ {
+		for j := 1; j <= m; j++ {
 			if (i >= (j-1)*N) && (i < j*N) {
 				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
 			}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..12a6fe3 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"github.com/pkg/errors"
 
@@ -19,10 +20,7 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
-var M = 1
-
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,14 +46,14 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
-	if M > maxM {
+	m := len(v)
+	if m > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
 	// Pad zero values until we have power of two
-	padAmount := innerproduct.DiffNextPow2(uint32(M))
-	M = M + int(padAmount)
+	padAmount := innerproduct.DiffNextPow2(uint32(m))
+	m = m + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
@@ -63,10 +61,10 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	}
 
 	// commitment to values v
-	Vs := make([]pedersen.Commitment, 0, M)
+	Vs := make([]pedersen.Commitment, 0, m)
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	// Hash for Fiat-Shamir
 	hs := fiatshamir.HashCacher{Cache: []byte{}}
@@ -81,8 +79,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		hs.Append(V.Value.Bytes())
 	}
 
-	aLs := make([]ristretto.Scalar, 0, N*M)
-	aRs := make([]ristretto.Scalar, 0, N*M)
+	aLs := make([]ristretto.Scalar, 0, N*m)
+	aRs := make([]ristretto.Scalar, 0, N*m)
 
 	for i := range v {
 		// Compute Bitcommits aL and aR to v
@@ -95,7 +93,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, m)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +102,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, m)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +137,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -154,7 +152,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 			return Proof{}, errors.New("[Prove]: Test t0 value does not match the value calculated from the polynomial")
 		}
 
-		polyt0 := poly.computeT0(y, z, v, N, uint32(M))
+		polyt0 := poly.computeT0(y, z, v, N, uint32(m))
 		if !polyt0.Equals(&poly.t0) {
 			return Proof{}, errors.New("[Prove]: t0 value from delta function, does not match the polynomial t0 value(Correct)")
 		}
@@ -180,11 +178,11 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	genData = append(genData, uint8(1))
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	H := ped2.BaseVector.Bases
 	G := ped.BaseVector.Bases
@@ -216,10 +214,10 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
-	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
-	for i := 0; i < N*M; i++ {
+	sL, sR := make([]ristretto.Scalar, N*m), make([]ristretto.Scalar, N*m)
+	for i := 0; i < N*m; i++ {
 		var randA ristretto.Scalar
 		randA.Rand()
 		sL[i] = randA
@@ -322,14 +320,26 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// The number of values is the number of commitments, padded to a power of two by the prover
+	m := len(p.V)
+	if m < 1 || m > maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {
+		return false, fmt.Errorf("a proof cannot have %d commitments", m)
+	}
+	if p.IPProof == nil {
+		return false, errors.New("inner product proof is missing")
+	}
+	if len(p.IPProof.L) != len(p.IPProof.R) || len(p.IPProof.L) != bits.Len(uint(N*m))-1 {
+		return false, errors.New("inner product proof has the wrong size")
+	}
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32(N * M))
+	ped.BaseVector.Compute(uint32(N * m))
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	G := ped.BaseVector.Bases
 	H := ped2.BaseVector.Bases
@@ -352,6 +362,8 @@ func Verify(p Proof) (bool, error) {
 
 func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment) (bool, error) {
 
+	m := len(V)
+
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
 	var c ristretto.Scalar
@@ -378,7 +390,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, m)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
@@ -386,7 +398,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	h, err = vector.Hadamard(h, Hpf)
 	if err != nil {
@@ -401,7 +413,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	}
 
 	// G basepoint gbp : (c * w(ab-t)) + t-D(y,z) point : G
-	delta := computeDelta(y, z, N, uint32(M))
+	delta := computeDelta(y, z, N, uint32(m))
 	var tMinusDelta ristretto.Scalar
 	tMinusDelta.Sub(&t, &delta)
 
@@ -449,7 +461,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	c8.PublicScalarMult(&c8, &c)
 
 	// scalar: z_j+2  points: Vj
-	zM := vector.ScalarPowers(z, uint32(M))
+	zM := vector.ScalarPowers(z, uint32(m))
 	var zSq ristretto.Scalar
 	zSq.Square(&z)
 	zM = vector.MulScalar(zM, zSq)
-- 
2.43.0


From fb4e8ae159173c800788ba44ff199d697d2b2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:18 +0000
Subject: [PATCH 04/28] fix: decoding an inner product proof rejects invalid
 points and half pairs

---
 rangeproof/innerproduct/innerproduct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..35a5dcb 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+			return errors.New("point not encodable")
+		}
+		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From e2bf687a2eac5db3deb67fbf26458811e7e6b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:20 +0000
Subject: [PATCH 05/28] fix: inner product proofs of different sizes are not
 equal

---
 rangeproof/innerproduct/innerproduct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 35a5dcb..f0644d9 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -479,11 +479,17 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
-- 
2.43.0


From 29ab20481f9a62a4c4b1cb3057741471d5ac78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:23 +0000
Subject: [PATCH 06/28] fix: inner product argument refuses vectors of
 unsuitable or mismatched size

---
 rangeproof/innerproduct/innerproduct.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f0644d9..a349193 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -27,10 +27,14 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 
 	// XXX : When n is not a power of two, will the bulletproof struct pad it
 	// or will the inner product proof struct?
-	if !isPower2(uint32(n)) {
+	if n == 0 || !isPower2(uint32(n)) {
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: vectors are not all of the same size")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
@@ -337,6 +341,13 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	if !isPower2(uint32(len(G))) || len(H) != len(G) || len(HprimeFactor) != len(G) {
+		return false
+	}
+	if len(proof.L) != len(proof.R) || len(proof.L) != bits.Len(uint(len(G)))-1 {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
-- 
2.43.0


From f951cd66d0eeced271d3d876823294c9c41e6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:16 +0000
Subject: [PATCH 07/28] fix: mlsag signatures with different numbers of
 responses are not equal

---
 mlsag/mlsag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..fa14e5f 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -115,6 +115,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
-- 
2.43.0


From d46e59f61fb4d32c51d0b15d273c5c10856487e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:20 +0000
Subject: [PATCH 08/28] fix: mlsag verification rejects malformed signatures
 instead of crashing or ignoring keys

---
 mlsag/mlsag.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index fa14e5f..6dac2e3 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -268,6 +268,22 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 		return false, errors.New("cannot have zero length for responses, pubkeys or key images")
 	}
 
+	if len(sig.PubKeys) != len(sig.r) {
+		return false, errors.New("there must be exactly one response vector per pubkey vector")
+	}
+
+	// All users must have the same amount of keys, with one response for each of them
+	numKeysPerUser := sig.PubKeys[0].Len()
+	for i := range sig.PubKeys {
+		if sig.PubKeys[i].Len() != numKeysPerUser || sig.r[i].Len() != numKeysPerUser {
+			return false, errors.New("all vectors of pubkeys and responses must be the same size")
+		}
+	}
+
+	if len(keyImages) > numKeysPerUser {
+		return false, errors.New("cannot have more key images than pubkeys per user")
+	}
+
 	numUsers := len(sig.r)
 	index := 0
 
-- 
2.43.0


From 761f2dac10c981a7228e6c4b66ea844bae90e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:22 +0000
Subject: [PATCH 09/28] fix: mlsag rings of one member can be signed and
 verified

---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 6dac2e3..078c2fc 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -215,7 +215,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -289,7 +289,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From 5f7af58d668579c3dddac7d103ef1eecb3dbdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:25 +0000
Subject: [PATCH 10/28] fix: decoding an mlsag signature does not trust its
 counts, and empty signatures round-trip

---
 mlsag/mlsag.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 078c2fc..f99f317 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -30,12 +30,11 @@ func (s *Signature) Encode(w io.Writer, encodeKeys bool) error {
 		return err
 	}
 
-	if lenR <= 0 {
-		return nil
-	}
-
 	// numResponses is the number of responses per user  == num pubkeys
-	numResponses := uint32(s.r[0].Len())
+	var numResponses uint32
+	if lenR > 0 {
+		numResponses = uint32(s.r[0].Len())
+	}
 	err = binary.Write(w, binary.BigEndian, numResponses)
 	if err != nil {
 		return err
@@ -85,13 +84,20 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 		return err
 	}
 
-	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// A user without responses takes no space, so that their amount would not be limited by the data
+	if lenR > 0 && numResponses == 0 {
+		return errors.New("cannot have users without responses")
+	}
+
+	// Decode the responses. The counts are not to be trusted before the data is there
+	s.r = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var responses Responses
+		err = responses.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, responses)
 	}
 
 	if !decodeKeys {
@@ -99,12 +105,14 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode pubkeys
-	s.PubKeys = make([]PubKeys, lenR)
+	s.PubKeys = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.PubKeys[i].Decode(r, numResponses)
+		var pubKeys PubKeys
+		err = pubKeys.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.PubKeys = append(s.PubKeys, pubKeys)
 	}
 	return nil
 }
-- 
2.43.0


From 2b27297ea8f0bef48f370b375aa1e9b0c70d2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 11/28] fix: decoding commitments does not trust their count

---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 2226496..a7341cd 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// The length is not to be trusted before the data is there
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 904572e2a32fa6633551e2d27b60e816a6df1b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:23 +0000
Subject: [PATCH 12/28] fix: range proof equality compares the inner product
 proof, and commitments only when asked

---
 rangeproof/rangeproof.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 12a6fe3..7790dc7 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -594,14 +594,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -633,8 +635,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 6acfbdd8d06b68d723711ca8949158a343c7afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:26 +0000
Subject: [PATCH 13/28] fix: debug mode accepts the largest value in range

---
 rangeproof/debug.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 0326801..0143017 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -171,11 +171,10 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is at most 2^N - 1
 func debugsizeOfV(v *big.Int) bool {
-	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
+	var twoN, e = big.NewInt(2), big.NewInt(int64(N))
 	twoN.Exp(twoN, e, nil)
-	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
 	return (cmp == -1)
-- 
2.43.0


From c2761ea1f68071d6d8af6200a3571e9e2612e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:29 +0000
Subject: [PATCH 14/28] fix: Prove does not write into the spare capacity of
 the list of values

---
 rangeproof/rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 7790dc7..ae36fd3 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -54,6 +54,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
+	// v is extended in a copy, the memory behind it belongs to the caller
+	v = append(make([]ristretto.Scalar, 0, m), v...)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From cff0ce9d670a0a772293cdd4030c8ce0d11f860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:32 +0000
Subject: [PATCH 15/28] fix: merkle tree never appends to hashes owned by the
 caller

---
 merkletree/merkletree.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..e408e93 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,15 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hashPair(leftBytes, rightBytes)
+}
+
+// hashPair hashes two hashes together, without writing to the memory behind either
+func hashPair(left, right []byte) ([]byte, error) {
+	payload := make([]byte, 0, len(left)+len(right))
+	payload = append(payload, left...)
+	payload = append(payload, right...)
+	return hash.Sha3256(payload)
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +67,7 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hashPair(n.Left.Hash, n.Right.Hash)
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,9 +131,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
-
-		h, err := hash.Sha3256(payloadHash)
+		h, err := hashPair(nl[left].Hash, nl[right].Hash)
 		if err != nil {
 			return nil, err
 		}
@@ -208,7 +214,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hashPair(leftBytes, rightBytes)
 
 				if err != nil {
 					return false, err
-- 
2.43.0


From fe7b9bc4723e669681b47754d1c67aff43cce4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:35 +0000
Subject: [PATCH 16/28] fix: bls batch verification rejects empty batches and
 missing keys instead of crashing

---
 bls/bls.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..3bc0eac 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -488,6 +488,18 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 {
+		return errors.New("bls: Batch is empty")
+	}
+
+	if len(msgList) != len(pkeys) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) do not match",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From 94adece8adf193d96d4387d95db6f618bcec9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:38 +0000
Subject: [PATCH 17/28] fix: a failed decode leaves the bls public key as it
 was

---
 bls/bls.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 3bc0eac..cb39ebd 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -568,12 +568,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -583,11 +578,12 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
+	gx := newG2()
+	_, err := gx.Unmarshal(data)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
-- 
2.43.0


From abfe5d5ade69e8b2ba79d592411a186b19e49277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:41 +0000
Subject: [PATCH 18/28] fix: mlsag signer position comes from secure randomness

---
 mlsag/proof.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..7962c76 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -69,9 +69,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(r.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
-- 
2.43.0


From 4e0341ffc2ac629b7059dd96b54d5bcf08f337c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 19/28] fix: mlsag decoys are copied, so that the caller's keys
 are never modified

---
 mlsag/proof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 7962c76..cb509fd 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -35,6 +35,8 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 
 func (p *Proof) AddDecoy(keys PubKeys) {
 	keys.decoy = true
+	// the decoy may be changed later on, the memory behind the given one belongs to the caller
+	keys.keys = append([]ristretto.Point{}, keys.keys...)
 	p.addPubKeys(keys)
 }
 
-- 
2.43.0


From edddfdf5bf4eb3d9546b19d0d2b7e7773cebb129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:46 +0000
Subject: [PATCH 20/28] fix: repeated mlsag signing keeps the signer in the
 ring once and earlier signatures intact

---
 mlsag/dualkey.go | 7 +++++++
 mlsag/mlsag.go   | 9 ++++++++-
 mlsag/proof.go   | 9 +++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..01b37f9 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -38,6 +38,9 @@ func (d *DualKey) SetMsg(msg []byte) {
 // in the matrix of decoy pubkeys
 func (d *DualKey) SubCommToZero(p ristretto.Point) {
 	for i := range d.pubKeysMatrix {
+		if !d.pubKeysMatrix[i].decoy {
+			continue
+		}
 		commToZero := &d.pubKeysMatrix[i].keys[1]
 		commToZero.Sub(commToZero, &p)
 	}
@@ -49,6 +52,10 @@ func (d *DualKey) Prove() (*Signature, ristretto.Point, error) {
 		return nil, ristretto.Point{}, errors.New("primary key or commitment to zero cannot be zero")
 	}
 
+	// There may have been a signature before
+	d.privKeys = nil
+	d.signerPubKeys = PubKeys{}
+
 	d.AddSecret(d.dualkeys[0])
 	d.AddSecret(d.dualkeys[1])
 
diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index f99f317..c8239ca 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -260,10 +260,17 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	// The ring of the signature must not change with the proof afterwards
+	pubKeys := make([]PubKeys, numUsers)
+	for i := range pubKeys {
+		pubKeys[i] = proof.pubKeysMatrix[i]
+		pubKeys[i].keys = append([]ristretto.Point{}, proof.pubKeysMatrix[i].keys...)
+	}
+
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
+		PubKeys: pubKeys,
 		Msg:     proof.msg,
 	}
 
diff --git a/mlsag/proof.go b/mlsag/proof.go
index cb509fd..4fac1ac 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -47,6 +47,15 @@ func (p *Proof) AddDecoys(keys []PubKeys) {
 }
 
 func (proof *Proof) addSignerPubKey() {
+	// The signer may be in the matrix already, if there was a signature before
+	matrix := make([]PubKeys, 0, len(proof.pubKeysMatrix)+1)
+	for i := range proof.pubKeysMatrix {
+		if proof.pubKeysMatrix[i].decoy {
+			matrix = append(matrix, proof.pubKeysMatrix[i])
+		}
+	}
+	proof.pubKeysMatrix = matrix
+
 	// Add signers pubkey to matrix
 	proof.signerPubKeys.decoy = false
 	proof.addPubKeys(proof.signerPubKeys)
-- 
2.43.0


From 50b6cd0ad4ae74ed5d2ee43c9056e48f6d0611c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:49 +0000
Subject: [PATCH 21/28] fix: blsag signer position comes from secure randomness

---
 ringsig/blsag/blsag.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..8189f50 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,12 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	r, err := rand.Int(rand.Reader, big.NewInt(int64(len(mixin)+1)))
+	if err != nil {
+		// as when drawing scalars, there is no going on without randomness
+		panic(err)
+	}
+	j := int(r.Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
-- 
2.43.0


From 82491dcbb4ea2787d1da60a20c1baf9a4819cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:52 +0000
Subject: [PATCH 22/28] fix: blsag ring contains the given keys and all decoy
 responses are random

---
 ringsig/blsag/blsag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 8189f50..fdd796c 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -46,7 +46,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := range sVals {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -72,7 +72,9 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	cVals[jPlus1] = cPlus1
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
+	copy(pubKeys, mixin[:j])
 	pubKeys[j] = pK // add signer
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From 92b7fadd447c9f0048a7350f51bca3da90372fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:55 +0000
Subject: [PATCH 23/28] fix: blsag verification rejects empty and malformed
 rings

---
 ringsig/blsag/blsag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index fdd796c..a77bb33 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -114,6 +114,9 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
-- 
2.43.0


From ecf9ebfc6469cf8643cc467c1631bbcd31367911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:05 +0000
Subject: [PATCH 24/28] fix: rebuilding a merkle tree keeps its duplicate leaf
 marked as such

---
 merkletree/merkletree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index e408e93..becd6c3 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -158,6 +158,10 @@ func createIntermediate(nl []*Node) (*Node, error) {
 func (t *Tree) RebuildTree() error {
 	var pl []Payload
 	for _, node := range t.Leaves {
+		if node.IsDup {
+			// added again by create, if needed
+			continue
+		}
 		pl = append(pl, node.Data)
 	}
 
-- 
2.43.0


From 10038bcf270cfed5b5a14ead24a804eed030a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 25/28] fix: bls keys and signatures can be aggregated with an
 equal one

---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index cb39ebd..b0a203b 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// bn256 does not double in place: a key may be aggregated to itself
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +302,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// bn256 does not double in place: a signature may be aggregated to itself
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0


From ff469b1b938b774c6854352bc08c91a631954817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:30 +0000
Subject: [PATCH 26/28] fix: pedersen commitments to more than 257 vectors used
 some generators twice

---
 rangeproof/pedersen/pedersen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index a7341cd..ae3db84 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -201,6 +201,10 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 		} else {
 
 			genData := append(append([]byte{}, p.GenData...), uint8(i))
+			// one byte does not tell more than 256 vectors apart
+			for k := i >> 8; k > 0; k >>= 8 {
+				genData = append(genData, uint8(k))
+			}
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 18d7a81431d2c75ef18979eb28d6375e72b1dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:34 +0000
Subject: [PATCH 27/28] fix: a pedersen commitment to no vectors left out the
 blinding factor

---
 rangeproof/pedersen/pedersen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index ae3db84..fbf01c6 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -189,14 +189,15 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 
 	// For each vector, we can use the commitToScalars, because a vector is just a slice of scalars
 
+	// The blinding factor is there also without any vector
 	var sum ristretto.Point
-	sum.SetZero()
+	sum.ScalarMult(&p.BlindPoint, &blind)
 
 	for i, vector := range vectors {
 		if i == 0 {
 
-			// Commit to vector + blinding factor
-			commit := p.commitToScalars(&blind, vector...)
+			// Commit to vector
+			commit := p.commitToScalars(nil, vector...)
 			sum.Add(&sum, &commit)
 		} else {
 
-- 
2.43.0


From ef8ed8b682fc4113d2bbf9fb5911ecc739f643ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:21 +0000
Subject: [PATCH 28/28] fix: marshal copies of BLS points, so that goroutines
 can share keys and signatures

bn256 normalises a point in place when marshalling or compressing it.  Two
goroutines reading one key (AggregateApk, Apk.Aggregate, Add, Marshal, ...)
or one signature raced, and could compute a wrong aggregated key.
---
 bls/bls.go | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index b0a203b..be1cf9c 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -52,6 +52,16 @@ func newG2() *bn256.G2 {
 	return new(bn256.G2)
 }
 
+// bn256 normalises a point in place when marshalling it: marshal a copy, so
+// that several goroutines can read the same key or signature
+func marshalG1(e *bn256.G1) []byte {
+	return newG1().Set(e).Marshal()
+}
+
+func marshalG2(e *bn256.G2) []byte {
+	return newG2().Set(e).Marshal()
+}
+
 // newG1Base is the initialization function for the G1Base point for BN256. It takes as input the HEX string representation of a base point
 func newG1Base(strRepr string) *bn256.G1 {
 	buff, err := hex.DecodeString(strRepr)
@@ -120,6 +130,7 @@ func GenKeyPair(randReader io.Reader) (*PublicKey, *SecretKey, error) {
 		return nil, nil, err
 	}
 
+	gx.Marshal() // normalise, as an unmarshalled key is
 	return &PublicKey{gx}, &SecretKey{x}, nil
 }
 
@@ -183,18 +194,11 @@ func NewApk(pk *PublicKey) *Apk {
 	}
 }
 
-// Copy the APK by marshalling and unmarshalling the internals. It is somewhat
-// wasteful but does the job
+// Copy the APK
 func (apk *Apk) Copy() *Apk {
-	g2 := new(bn256.G2)
-	b := apk.gx.Marshal()
-	// no need to check errors. We deal with well formed APKs
-	_, _ = g2.Unmarshal(b)
-
-	cpy := &Apk{
-		PublicKey: &PublicKey{g2},
+	return &Apk{
+		PublicKey: &PublicKey{newG2().Set(apk.gx)},
 	}
-	return cpy
 }
 
 // UnmarshalApk unmarshals a byte array into an aggregated PublicKey
@@ -268,15 +272,11 @@ func UnmarshalSignature(sig []byte) (*Signature, error) {
 	return sigma, nil
 }
 
-// Copy (inefficiently) the Signature by unmarshaling and marshaling the
-// embedded G1
+// Copy the Signature
 func (sigma *Signature) Copy() *Signature {
-	b := sigma.e.Marshal()
-	s := &Signature{
-		e: new(bn256.G1),
+	return &Signature{
+		e: newG1().Set(sigma.e),
 	}
-	_, _ = s.e.Unmarshal(b)
-	return s
 }
 
 // Add creates an aggregated signature from a normal BLS Signature and related public key
@@ -309,7 +309,7 @@ func (sigma *Signature) Aggregate(other *Signature) *Signature {
 
 // Compress the signature to the 32 byte form
 func (sigma *Signature) Compress() []byte {
-	return sigma.e.Compress()
+	return newG1().Set(sigma.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -324,7 +324,7 @@ func (sigma *Signature) Decompress(x []byte) error {
 
 // Marshal a Signature into a byte array
 func (sigma *Signature) Marshal() []byte {
-	return sigma.e.Marshal()
+	return marshalG1(sigma.e)
 }
 
 // Unmarshal a byte array into a Signature
@@ -400,7 +400,7 @@ func UnsafeSign(key *SecretKey, msg []byte) (*UnsafeSignature, error) {
 
 // Compress the signature to the 32 byte form
 func (usig *UnsafeSignature) Compress() []byte {
-	return usig.e.Compress()
+	return newG1().Set(usig.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -415,7 +415,7 @@ func (usig *UnsafeSignature) Decompress(x []byte) error {
 
 // Marshal an UnsafeSignature into a byte array
 func (usig *UnsafeSignature) Marshal() []byte {
-	return usig.e.Marshal()
+	return marshalG1(usig.e)
 }
 
 // Unmarshal a byte array into an UnsafeSignature
@@ -561,7 +561,7 @@ func (pk *PublicKey) Aggregate(pp *PublicKey) *PublicKey {
 
 // MarshalText encodes the string representation of the public key
 func (pk *PublicKey) MarshalText() ([]byte, error) {
-	return encodeToText(pk.gx.Marshal()), nil
+	return encodeToText(marshalG2(pk.gx)), nil
 }
 
 // UnmarshalText decode the string/byte representation into the public key
@@ -575,7 +575,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 
 // Marshal returns the binary representation of the G2 point being the public key
 func (pk *PublicKey) Marshal() []byte {
-	return pk.gx.Marshal()
+	return marshalG2(pk.gx)
 }
 
 // Unmarshal a public key from a byte array
-- 
2.43.0

