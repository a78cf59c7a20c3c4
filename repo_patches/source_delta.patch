From 7f21d94d617b3108ddea47a9d8fc70be4824a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 01/40] fix: AddScalar and SubScalar variants write the result
 on p2

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..480a1b8 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From 05a17ba37198dd5dac2184396a7ccad4658373b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:21 +0000
Subject: [PATCH 02/40] fix: MulByPow2Lvl multiplies the Montgomery form of p1,
 not p1

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 480a1b8..0ca017f 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From b5b84bb5dd4f0a52b051b7c900db3ebc2d2800ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 03/40] fix: keep the lazy forward NTT output in the documented
 range [0, 2q-1]

---
 ring/ring_ntt.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ring/ring_ntt.go b/ring/ring_ntt.go
index 73f4d17..72397eb 100644
--- a/ring/ring_ntt.go
+++ b/ring/ring_ntt.go
@@ -117,12 +117,18 @@ func invbutterfly(U, V, Psi, twoQ, fourQ, Q, Qinv uint64) (X, Y uint64) {
 
 // NTT computes the NTT on the input coefficients using the input parameters.
 func NTT(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, mredParams uint64, bredParams []uint64) {
-	NTTLazy(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams, bredParams)
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 2q-1].
 func NTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttCore computes the NTT on the input coefficients without the final reduction: the output values exceed 2q-1.
+func nttCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var j1, j2, t int
 	var F, V uint64
 
@@ -500,12 +506,19 @@ func InvNTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsiInv []uint64, nttNInv
 
 // NTTConjugateInvariant computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1).
 func NTTConjugateInvariant(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
-	NTTConjugateInvariantLazy(coeffsIn, coeffsOut, N, nttPsi, Q, QInv, bredParams)
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 2q-1].
 func NTTConjugateInvariantLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttConjugateInvariantCore computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) without
+// the final reduction: the output values exceed 2q-1.
+func nttConjugateInvariantCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var t, h int
 	var F, V uint64
 	var reduce bool
-- 
2.43.0


From 661783208085d50946b323a8dd34dee71a76fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 04/40] fix: Shift takes any shift amount and does not alias
 the operand

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 0ca017f..60901d5 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,11 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	mask := r.N - 1
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		tmp := make([]uint64, 0, r.N)
+		tmp = append(tmp, p1.Coeffs[i][(n&mask):r.N]...)
+		p2.Coeffs[i] = append(tmp, p1.Coeffs[i][:(n&mask)]...)
 	}
 }
 
-- 
2.43.0


From c3edd4f600d9486f7cdc04b69ac505de4d71c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 05/40] fix: MultByMonomial accepts negative degrees

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 60901d5..e2abcd3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -460,7 +460,7 @@ func (r *Ring) MultByMonomialNew(p1 *Poly, monomialDeg int) (p2 *Poly) {
 // MultByMonomial multiplies p1 by x^monomialDeg and writes the result on p2.
 func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 
-	shift := monomialDeg % (r.N << 1)
+	shift := monomialDeg & ((r.N << 1) - 1)
 
 	if shift == 0 {
 
-- 
2.43.0


From d86681e9335a8a9771c6370312c036f62874707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 06/40] fix: Rotate writes on p2 and leaves p1 unchanged

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index e2abcd3..393c34a 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -584,7 +584,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -596,7 +596,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 36f7bd773e2fb153c9d6da84ab4693f19ccb1543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 07/40] fix: ModDownQPtoP divides by the moduli of Q up to
 levelQ

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From 6069d445a1eaf26e0bbf8a3ecbffd9ec680a4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 08/40] fix: DivFloor/DivRoundByLastModulusNTTLvl start from
 the reduced last residue

---
 ring/ring_scaling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..673b263 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -306,7 +306,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
@@ -378,7 +378,7 @@ func (r *Ring) DivFloorByLastModulusManyLvl(level, nbRescales int, p0, pool, p1
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivRoundByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[level])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[level])
 
 	// Center by (p-1)/2
 	pj := r.Modulus[level]
-- 
2.43.0


From 3698a344c1a3126b94834e44c304d523fe2cb706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 09/40] fix: EqualSlice functions compare the lengths

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 646695fffbedb51f2b1f25273856b4694e606d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 10/40] fix: PolyToBigintCenteredLvl keeps (Q-1)/2 positive

---
 ring/ring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..2eae749 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -573,7 +573,7 @@ func (r *Ring) PolyToBigintCenteredLvl(level int, p1 *Poly, gap int, coeffsBigin
 		// Centers the coefficients
 		sign = coeffsBigint[i].Cmp(modulusBigintHalf)
 
-		if sign == 1 || sign == 0 {
+		if sign == 1 {
 			coeffsBigint[i].Sub(coeffsBigint[i], modulusBigint)
 		}
 	}
-- 
2.43.0


From 9b16669472e78b9480e633c35e7fdc9ae8e2310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 11/40] fix: SimpleScaler reduces the scaled coefficients
 modulo t

---
 ring/ring_scaling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index 673b263..e7e8941 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -264,6 +264,7 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 		if ss.r.Lsh(ss.r, 1).CmpAbs(ss.ringQ.ModulusBigint) != -1 {
 			coeff.Add(coeff, ss.one)
 		}
+		coeff.Mod(coeff, ss.tBI)
 
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
-- 
2.43.0


From e52a4dda48f81da66dc428ba01a41efbe3542296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 12/40] fix: binary decoding rejects truncated data and resets
 the receiver's flags

---
 ring/ring_poly.go | 73 +++++++++++++++++++++++++++--------------------
 rlwe/marshaler.go | 14 +++++++--
 rlwe/ring_qp.go   | 15 ++++++++++
 3 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..3b9d6ae 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,8 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +236,8 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
+
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -326,15 +330,9 @@ func (pol *Poly) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a slice of byte on the target polynomial.
 func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
+	N, numberModulies, err := decodeMetadata(data)
+	if err != nil {
+		return err
 	}
 
 	pointer := 4
@@ -350,27 +348,44 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	return nil
 }
 
-// DecodePolyNew decodes a slice of bytes in the target polynomial returns the number of bytes
-// decoded.
-func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
+// decodeMetadata reads the degree and the number of moduli of an encoded polynomial.
+func decodeMetadata(data []byte) (N, numberModulies int, err error) {
+
+	if len(data) < 4 || data[0] > 30 {
+		return 0, 0, errors.New("invalid polynomial encoding")
+	}
+
+	return 1 << data[0], int(data[1]), nil
+}
+
+// prepareDecode sets the flags and the number of rows of the target polynomial from an encoded polynomial.
+func (pol *Poly) prepareDecode(numberModulies int, data []byte) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
-	if data[2] == 1 {
-		pol.IsNTT = true
+	if len(pol.Coeffs) != numberModulies {
+		pol.Coeffs = make([][]uint64, numberModulies)
 	}
+}
 
-	if data[3] == 1 {
-		pol.IsMForm = true
+// DecodePolyNew decodes a slice of bytes in the target polynomial returns the number of bytes
+// decoded.
+func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
+
+	N, numberModulies, err := decodeMetadata(data)
+	if err != nil {
+		return 0, err
 	}
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
-		pol.Coeffs = make([][]uint64, numberModulies)
+	if len(data)-pointer < (N*numberModulies)<<3 {
+		return 0, errors.New("invalid polynomial encoding")
 	}
 
+	pol.prepareDecode(numberModulies, data)
+
 	if pointer, err = DecodeCoeffsNew(pointer, N, numberModulies, pol.Coeffs, data); err != nil {
 		return pointer, err
 	}
@@ -382,23 +397,19 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 // decoded.
 func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 
-	N := int(1 << data[0])
-	numberModulies := int(data[1])
-
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
+	N, numberModulies, err := decodeMetadata(data)
+	if err != nil {
+		return 0, err
 	}
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
-		pol.Coeffs = make([][]uint64, numberModulies)
+	if len(data)-pointer < (N*numberModulies)<<2 {
+		return 0, errors.New("invalid polynomial encoding")
 	}
 
+	pol.prepareDecode(numberModulies, data)
+
 	if pointer, err = DecodeCoeffsNew32(pointer, N, numberModulies, pol.Coeffs, data); err != nil {
 		return pointer, err
 	}
diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..8add205 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -188,6 +188,10 @@ func (rlk *RelinearizationKey) MarshalBinary() (data []byte, err error) {
 // UnmarshalBinary decodes a previously marshaled EvaluationKey in the target EvaluationKey.
 func (rlk *RelinearizationKey) UnmarshalBinary(data []byte) (err error) {
 
+	if len(data) < 1 {
+		return errors.New("too small bytearray")
+	}
+
 	deg := int(data[0])
 
 	rlk.Keys = make([]*SwitchingKey, deg)
@@ -271,6 +275,10 @@ func (swk *SwitchingKey) encode(pointer int, data []byte) (int, error) {
 
 func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
+	if len(data) < 1 {
+		return 0, errors.New("too small bytearray")
+	}
+
 	decomposition := int(data[0])
 
 	pointer = 1
@@ -281,13 +289,11 @@ func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
 	for j := 0; j < decomposition; j++ {
 
-		swk.Value[j][0].Q = new(ring.Poly)
 		if inc, err = swk.Value[j][0].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
 		pointer += inc
 
-		swk.Value[j][1].P = new(ring.Poly)
 		if inc, err = swk.Value[j][1].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
@@ -335,6 +341,10 @@ func (rtks *RotationKeySet) UnmarshalBinary(data []byte) (err error) {
 
 	for len(data) > 0 {
 
+		if len(data) < 4 {
+			return errors.New("too small bytearray")
+		}
+
 		galEl := uint64(binary.BigEndian.Uint32(data))
 		data = data[4:]
 
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..d672bc3 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -17,6 +17,8 @@
 package rlwe
 
 import (
+	"errors"
+
 	"fast-ksw/ring"
 	"fast-ksw/utils"
 )
@@ -366,6 +368,12 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	if len(data) < p.GetDataLen(true) {
+		return 0, errors.New("data array is too small to write rlwe.PolyQP")
+	}
+
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
@@ -397,6 +405,13 @@ func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 
 	var inc int
+
+	if len(data) < 2 {
+		return 0, errors.New("invalid PolyQP encoding")
+	}
+
+	p.Q, p.P = nil, nil
+
 	pt = 2
 
 	if data[0] == 1 {
-- 
2.43.0


From 4a3cb9ab7f4f3c823d68fb6512b594f60e0c4e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 13/40] fix: decoding truncated binary parameters returns an
 error

---
 ckks/params.go | 3 +++
 rlwe/params.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0d174d3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -583,6 +583,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) != rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..eb5e81c 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -447,7 +447,8 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	// 20 bytes of scalar components precede the moduli
+	if len(data) < 20 || len(data) < 20+(int(data[1])+int(data[2]))<<3 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
-- 
2.43.0


From 6d6fcf8a8ea46a988c183144ad87f18bbd6fc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 14/40] fix: the JSON form of rlwe.Parameters carries the ring
 type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index eb5e81c..906d266 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -480,7 +480,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From 4758fef172ff05828c01d812c61a303838537514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 15/40] fix: ckks.Parameters.UnmarshalJSON reports decoding
 errors

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 0d174d3..23b1c5b 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -605,7 +605,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From 8613f24a47bf9ea98f4e3cc91fb42369140b2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 16/40] fix: NewParametersFromLiteral returns an error for a
 degree below the minimum

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index 906d266..84fe90d 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -126,6 +126,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q), len(paramDef.P)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
-- 
2.43.0


From 92857f5412c8b7d2afa2d94c1c053b066228a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 17/40] fix: CheckModuli refuses moduli of more than 61 bits

---
 rlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 84fe90d..4541c11 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -509,13 +509,13 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if uint64(bits.Len64(qi)) > MaxModuliSize+1 {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
+		if uint64(bits.Len64(pi)) > MaxModuliSize+1 {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From c1002494b54ae3831177e8f7a495107056665547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 18/40] fix: CheckModuli refuses a modulus shared by q and p

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index 4541c11..0c37778 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -532,6 +532,10 @@ func CheckModuli(q, p []uint64) error {
 		}
 	}
 
+	if !utils.AllDistinct(append(append([]uint64{}, q...), p...)) {
+		return fmt.Errorf("the moduli are not distinct")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 1572b8d609497e317accc21f8bcee298711dae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 19/40] fix: the encoder runs the unrolled transforms on at
 least 16 values only

---
 ckks/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..128e879 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -301,7 +301,7 @@ func (ecd *encoderComplex128) GetErrSTDCoeffDomain(valuesWant, valuesHave []comp
 	logSlots := bits.Len64(uint64(len(valuesHave) - 1))
 
 	// Runs FFT^-1 with the smallest power of two length that is greater than the input size
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -410,7 +410,7 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		ecd.values[i] = 0
 	}
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialiFFTVec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -535,7 +535,7 @@ func (ecd *encoderComplex128) decodePublic(plaintext *Plaintext, logSlots int, s
 
 	ecd.plaintextToComplex(plaintext.Level(), plaintext.Scale, logSlots, ecd.polypool, ecd.values)
 
-	if logSlots < 3 {
+	if logSlots < 4 {
 		SpecialFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
-- 
2.43.0


From 7bbb5f77c79c5f8636ae438244f894a7eb767d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 20/40] fix: PadDefaultRingToConjuateInvariant fills the upper
 half of the padded polynomial

---
 ring/conjugate_invariant.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ring/conjugate_invariant.go b/ring/conjugate_invariant.go
index 0c6e267..056f2ff 100644
--- a/ring/conjugate_invariant.go
+++ b/ring/conjugate_invariant.go
@@ -79,12 +79,12 @@ func PadDefaultRingToConjuateInvariant(p1 *Poly, ringQ *Ring, p2 *Poly) {
 		tmp := p2.Coeffs[i]
 		if p1.IsNTT {
 			for j := 0; j < n; j++ {
-				tmp[n-j-1] = tmp[j]
+				tmp[2*n-j-1] = tmp[j]
 			}
 		} else {
-			tmp[0] = 0
+			tmp[n] = 0
 			for j := 1; j < n; j++ {
-				tmp[n-j] = qi - tmp[j]
+				tmp[2*n-j] = CRed(qi-tmp[j], qi)
 			}
 		}
 	}
-- 
2.43.0


From 7584265aad8c64dd741f0dad5cdb07e58b4a14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 21/40] fix: SwitchCiphertextRingDegreeNTT to a smaller degree
 writes its result to ctOut, not over ctIn

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From 5359271438bbc94f9c1914285a78a755c25f9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:34 +0000
Subject: [PATCH 22/40] fix: SwitchCiphertextRingDegree to a larger degree
 clears the coefficients between the embedded ones

---
 rlwe/elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..7ff5fe6 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -199,6 +199,11 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn > 1 {
+				for w := range tmp0 {
+					tmp0[w] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
-- 
2.43.0


From e221a943704efb10a16ce8a8cc8a1ca240f9d20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 23/40] fix: NextNTTPrime checks the size of the first
 candidate too

---
 ring/primes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..67b2c5d 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -46,18 +46,20 @@ func GenerateNTTPrimes(logQ, NthRoot, n int) (primes []uint64) {
 // The input q must be itself an NTT prime for the given NthRoot.
 func NextNTTPrime(q uint64, NthRoot int) (qNext uint64, err error) {
 
-	qNext = q + uint64(NthRoot)
+	qNext = q
 
-	for !IsPrime(qNext) {
+	for {
 
 		qNext += uint64(NthRoot)
 
 		if bits.Len64(qNext) > 61 {
 			return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
 		}
-	}
 
-	return qNext, nil
+		if IsPrime(qNext) {
+			return qNext, nil
+		}
+	}
 }
 
 // PreviousNTTPrime returns the previous NthRoot NTT prime after q.
-- 
2.43.0


From 871abc42ea3ae8f70dc623b82c6430b9f87daba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 24/40] fix: PreviousNTTPrime stops at the smallest candidate
 instead of wrapping around

---
 ring/primes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/primes.go b/ring/primes.go
index 67b2c5d..5291d1b 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -74,7 +74,7 @@ func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
 	for !IsPrime(qPrev) {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
-- 
2.43.0


From f8fc310faa9513a1c29991745851317e7911a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 25/40] fix: GenerateNTTPrimesQ does not return primes of more
 than 61 bits

---
 ring/primes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ring/primes.go b/ring/primes.go
index 5291d1b..8f1adf0 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -109,7 +109,8 @@ func GenerateNTTPrimesQ(logQ, NthRoot, levels int) (primes []uint64) {
 
 		if checkfornextprime {
 
-			if nextPrime > 0xffffffffffffffff-uint64(NthRoot) {
+			// Moduli of more than 61 bits cannot be used
+			if nextPrime+uint64(NthRoot) > 1<<61 {
 
 				checkfornextprime = false
 
-- 
2.43.0


From 90fc59276975164b833f6b640be14140846f7792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 26/40] fix: the Gaussian sampler writes zero, not the modulus,
 for a negative zero

---
 ring/ring_sampler_gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_sampler_gaussian.go b/ring/ring_sampler_gaussian.go
index e789cf6..0d947ed 100644
--- a/ring/ring_sampler_gaussian.go
+++ b/ring/ring_sampler_gaussian.go
@@ -125,7 +125,7 @@ func (gaussianSampler *GaussianSampler) readLvl(level int, pol *Poly, ring *Ring
 		}
 
 		for j, qi := range modulus {
-			pol.Coeffs[j][i] = (coeffInt * sign) | (qi-coeffInt)*(sign^1)
+			pol.Coeffs[j][i] = CRed((coeffInt*sign)|(qi-coeffInt)*(sign^1), qi)
 		}
 	}
 }
-- 
2.43.0


From d54f6ca557a9e30ba3fc442229209dc10f22dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:39 +0000
Subject: [PATCH 27/40] fix: the ternary sampler restarts when the probability
 matrix is exhausted

---
 ring/ring_sampler_ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..dce3ddf 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -256,7 +256,7 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 
 			// There is small probability that it will get out of the bound, then
 			// rerun until it gets a proper output
-			if d > colLen-1 {
+			if d > colLen-1 || col == len(ts.matrixProba[0]) {
 				return ts.kysampling(prng, randomBytes, i, bytePointer, byteLength)
 			}
 
-- 
2.43.0


From bdd383761e83385468623eaf80049b6aec1867d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 28/40] fix: Decrypt reduces its result for every degree of the
 ciphertext

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From cd02bc7102f5ae7b4038a62d3e9683fa691fa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 29/40] fix: DecryptToMsg decrypts at the level of the
 ciphertext after a decryption at a lower level

---
 fckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..0f20ba9 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,6 +27,8 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
+	// A previous decryption may have lowered the level of the pool
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctIn.Level()+1]
 	dec.Decrypt(ctIn, dec.ptxtPool)
 	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
 }
-- 
2.43.0


From df01532e7c648bc53b0e5f9939e17bb123b47702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 30/40] fix: frlwe.KeyGenerator.GenSecretKey and GenPublicKey
 call the embedded generator instead of themselves

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From f5f73356c2a4a28f44eddeb9f924ee3a996aeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 31/40] fix: AddConst copies the components above the first to
 the receiver

---
 ckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..dde60a9 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -566,6 +566,14 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// The constant only affects the first component, the others are copied on the receiver.
+	if ctOut != ct0 {
+		ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
+		for i := 1; i < ct0.Degree()+1; i++ {
+			ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+		}
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0


From 66f5f9743edad907f072050c77fdc519ac15b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 32/40] fix: MultByiNew and DivByiNew keep every component of
 the ciphertext

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index dde60a9..9a8729f 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -858,7 +858,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -910,7 +910,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
-- 
2.43.0


From 7ffa4cf8b5d678c535d0e3778dfef8e6594dec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 33/40] fix: Rescale stops at level 0 instead of dropping the
 last modulus or panicking

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 9a8729f..eaa89bc 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1084,7 +1084,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From ef3d0afff30de6bc2ae5f03b020d370383cad79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 34/40] fix: SetScale rescales by the factor MultByConst scaled
 the constant by, whatever the ratio of the scales

---
 ckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index eaa89bc..8b050bb 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -972,7 +972,9 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
-	eval.MultByConst(ct, scale/ct.Scale, ct)
+	ratio := scale / ct.Scale
+	eval.MultByConst(ct, ratio, ct)
+	ct.Scale *= ratio
 	if err := eval.Rescale(ct, scale, ct); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From deda1564d3b736bc4ae0edbc72c7b75f67d13761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 35/40] fix: Rescale without a division gives the receiver the
 level of the operand

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 8b050bb..19dc51e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1099,6 +1099,9 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
+			if ctOut.Level() > ctIn.Level() {
+				eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
+			}
 			ctOut.Copy(ctIn)
 		}
 	}
-- 
2.43.0


From 7b6471c9665d626e900f3fca85d3f4cd27450d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 36/40] fix: MulAndAdd and MulRelinAndAdd of distinct
 ciphertexts added c0[0]*c1[1] twice and left out c0[1]*c1[0]

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 19dc51e..136a9e0 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1308,8 +1308,8 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c0[0]*c1[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c0[0]*c1[1] + c0[1]*c1[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From 2c5c7e49cd3085c2a465b1197a27a3786f4bed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 37/40] fix: MulRelin returned components that are not reduced

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 136a9e0..5673774 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1208,8 +1208,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From b4697aa85552a7cce16bce9dc4eec5bc90d9feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 38/40] fix: products of degree one left a stale third
 component in a receiver of degree two

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 5673774..5f8a41e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1232,6 +1232,11 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], ctOut.Value[0])
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], ctOut.Value[1])
 	}
+
+	// Drops the components of a receiver of a larger degree that the product does not have
+	if relin || op0.Degree()+op1.Degree() < 2 {
+		ctOut.El().Resize(eval.params.Parameters, 1)
+	}
 }
 
 // MulAndAdd multiplies op0 with op1 without relinearization and adds the result on ctOut.
-- 
2.43.0


From 3503b1a6cd2028473577e62d669c4c4bb824e78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 39/40] fix: Rotate and Conjugate in place overwrote the
 operand before reading it

---
 ckks/evaluator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 5f8a41e..a30e4c9 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1472,16 +1472,17 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	cx := eval.poolQMul[0]
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
-	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	ringQ.InvNTTLvl(level, ct0.Value[1], cx)
+	cx.IsNTT = false
+	eval.SwitchKeysInPlace(level, cx, rtk, pool2Q, pool3Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, pool2Q, pool2Q)
+	ringQ.NTTLvl(level, pool3Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 3705ab3f8d9f7c8c3b5d572d8eec9e5c6a0a4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:22 +0000
Subject: [PATCH 40/40] fix: SwitchKeys, Rotate and Conjugate left stale
 residues in a receiver of a larger level

---
 ckks/evaluator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index a30e4c9..0186df1 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1397,6 +1397,10 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	ctOut.Scale = ct0.Scale
 
 	eval.SwitchKeysInPlace(level, ct0.Value[1], switchingKey, eval.Pool[1].Q, eval.Pool[2].Q)
@@ -1422,6 +1426,9 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		if ctOut.Level() > ct0.Level() {
+			eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+		}
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1472,6 +1479,11 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	cx := eval.poolQMul[0]
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
-- 
2.43.0

