From 84ee45c609978b25c0c0baf880af2e2b9a81f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 01/12] fix: skip pairs with a point at infinity in the Miller
 loop

They left a zeroed entry behind, which was dereferenced: pairing with the
identity, or verifying against an identity signature or key, panicked.
---
 pairing.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairing.go b/pairing.go
index 606e250..a409169 100644
--- a/pairing.go
+++ b/pairing.go
@@ -14,14 +14,15 @@ type pairingItem struct {
 
 // MillerLoop runs the miller loop algorithm.
 func MillerLoop(items []MillerLoopItem) *FQ12 {
-	pairs := make([]pairingItem, len(items))
-	for i, item := range items {
+	// pairs with a point at infinity contribute a factor of 1, so skip them
+	pairs := make([]pairingItem, 0, len(items))
+	for _, item := range items {
 		if !item.P.IsZero() && !item.Q.IsZero() {
-			pairs[i] = pairingItem{
+			pairs = append(pairs, pairingItem{
 				p:      item.P.Copy(),
 				q:      item.Q.coeffs,
 				qIndex: 0,
-			}
+			})
 		}
 	}
 
-- 
2.43.0


From b8bba4f9ec984a29598ef2655db862f1f98e0a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 02/12] fix: compare coordinates in G2Affine.Equals

Any two finite points compared equal.
---
 g2.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index 636fa98..e137d50 100644
--- a/g2.go
+++ b/g2.go
@@ -139,7 +139,10 @@ func (g G2Affine) ScaleByCofactor() *G2Projective {
 
 // Equals checks if two affine points are equal.
 func (g G2Affine) Equals(other *G2Affine) bool {
-	return (g.infinity == other.infinity) || (g.x.Equals(other.x) && g.y.Equals(other.y))
+	if g.infinity || other.infinity {
+		return g.infinity == other.infinity
+	}
+	return g.x.Equals(other.x) && g.y.Equals(other.y)
 }
 
 // GetG2PointFromX attempts to reconstruct an affine point given
-- 
2.43.0


From f66d6fd23f4b187b767b3c6b20d316019d8e50d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 03/12] fix: convert coordinates to Montgomery form in
 G1Affine.SetRawBytes

SerializeBytes followed by SetRawBytes gave a different point.
---
 g1.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/g1.go b/g1.go
index 13b1371..980faf0 100644
--- a/g1.go
+++ b/g1.go
@@ -172,12 +172,8 @@ func (g *G1Affine) SetRawBytes(uncompressed [96]byte) {
 	var yBytes [48]byte
 	copy(xBytes[:], uncompressed[0:48])
 	copy(yBytes[:], uncompressed[48:96])
-	g.x = FQ{
-		n: FQReprFromBytes(xBytes),
-	}
-	g.y = FQ{
-		n: FQReprFromBytes(yBytes),
-	}
+	g.x = FQReprToFQ(FQReprFromBytes(xBytes))
+	g.y = FQReprToFQ(FQReprFromBytes(yBytes))
 }
 
 // DecompressG1 decompresses the big int into an affine point and checks
-- 
2.43.0


From c71d974b9f8d7a345b2e1bdaf2c48a49331e58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 04/12] fix: do not modify the argument of FRReprToFR

The returned element shared and overwrote the caller's FRRepr, including the
package constants for zero and one.
---
 fr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fr.go b/fr.go
index a6123f0..deb145d 100644
--- a/fr.go
+++ b/fr.go
@@ -40,7 +40,7 @@ var FRR2, _ = FRReprFromString("329490647479426544212979752063071073927857568219
 // FRReprToFR gets a pointer to a FR given a pointer
 // to an FRRepr
 func FRReprToFR(o *FRRepr) *FR {
-	r := &FR{n: o}
+	r := &FR{n: o.Copy()}
 	if r.IsValid() {
 		r.MulAssign(&FR{FRR2})
 		return r
-- 
2.43.0


From 297b5d4f025cdfdd0151b35f6e5ed848c2244781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 05/12] fix: allow FQ6.MulAssign with itself as the argument

The argument was read after the receiver was written, so FQ6.Exp, which
squares this way, gave wrong results.
---
 fq6.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/fq6.go b/fq6.go
index 1d948a3..b6c65ee 100644
--- a/fq6.go
+++ b/fq6.go
@@ -272,23 +272,25 @@ func (f *FQ6) MulAssign(other *FQ6) {
 
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c2)
-	f.c2 = other.c0.Copy()
-	f.c2.AddAssign(other.c2)
-	f.c2.MulAssign(tmp)
-	f.c2.SubAssign(aa)
-	f.c2.AddAssign(bb)
-	f.c2.SubAssign(cc)
+	t3 := other.c0.Copy()
+	t3.AddAssign(other.c2)
+	t3.MulAssign(tmp)
+	t3.SubAssign(aa)
+	t3.AddAssign(bb)
+	t3.SubAssign(cc)
 	tmp = f.c0.Copy()
 	tmp.AddAssign(f.c1)
-	f.c1 = other.c0.Copy()
-	f.c1.AddAssign(other.c1)
-	f.c1.MulAssign(tmp)
-	f.c1.SubAssign(aa)
-	f.c1.SubAssign(bb)
+	t2 := other.c0.Copy()
+	t2.AddAssign(other.c1)
+	t2.MulAssign(tmp)
+	t2.SubAssign(aa)
+	t2.SubAssign(bb)
 	cc.MultiplyByNonresidueAssign()
-	f.c1.AddAssign(cc)
+	t2.AddAssign(cc)
 
 	f.c0 = t1
+	f.c1 = t2
+	f.c2 = t3
 }
 
 // InverseAssign finds the inverse of the FQ6 element.
-- 
2.43.0


From 7f5f16fb1b90e93df6fba4ad2793b21d4f9e7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 06/12] fix: accept the empty message in VerifyAggregate

It was taken for a duplicate of the nil message before the first one.
---
 g1pubs/bls.go | 6 ++----
 g2pubs/bls.go | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/g1pubs/bls.go b/g1pubs/bls.go
index 259adec..680c262 100644
--- a/g1pubs/bls.go
+++ b/g1pubs/bls.go
@@ -262,14 +262,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(bls.G1ProjectiveOne, s.s)
diff --git a/g2pubs/bls.go b/g2pubs/bls.go
index 16d32eb..43af8ae 100644
--- a/g2pubs/bls.go
+++ b/g2pubs/bls.go
@@ -250,14 +250,12 @@ func (s *Signature) VerifyAggregate(pubKeys []*PublicKey, msgs [][]byte) bool {
 	}
 
 	msgsSorted := sortByteArrays(msgsCopy)
-	lastMsg := []byte(nil)
 
 	// check for duplicates
-	for _, m := range msgsSorted {
-		if bytes.Equal(m, lastMsg) {
+	for i, m := range msgsSorted {
+		if i > 0 && bytes.Equal(m, msgsSorted[i-1]) {
 			return false
 		}
-		lastMsg = m
 	}
 
 	lhs := bls.Pairing(s.s, bls.G2ProjectiveOne)
-- 
2.43.0


From f1ceea12114cc9cb1c2ae75dbd04d94bb634bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 07/12] fix: process bits from the most significant in
 FQ.MulBits and FR.MulBits

They multiplied by the bit-reversed number; FQ2.MulBits was right.
---
 fq.go | 2 +-
 fr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fq.go b/fq.go
index 11ea4ec..3e58d99 100644
--- a/fq.go
+++ b/fq.go
@@ -277,7 +277,7 @@ func (f FQ) MulBits(b *FQRepr) FQ {
 	res := FQZero.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(f)
 		}
 	}
diff --git a/fr.go b/fr.go
index deb145d..5d58614 100644
--- a/fr.go
+++ b/fr.go
@@ -273,7 +273,7 @@ func (f FR) MulBits(b *FRRepr) *FR {
 	res := bigZeroFR.Copy()
 	for i := uint(0); i < b.BitLen(); i++ {
 		res.DoubleAssign()
-		if b.Bit(i) {
+		if b.Bit(b.BitLen() - 1 - i) {
 			res.AddAssign(&f)
 		}
 	}
-- 
2.43.0


From fd379fa47c8e47ad44eb366ca930bfe04b26d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 08/12] fix: reject x-coordinates outside the field when
 decompressing

They were decoded as zero, so many encodings gave the same point.
---
 g1.go | 3 +++
 g2.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/g1.go b/g1.go
index 980faf0..716a377 100644
--- a/g1.go
+++ b/g1.go
@@ -217,6 +217,9 @@ func DecompressG1Unchecked(b [48]byte) (*G1Affine, error) {
 	copyBytes[0] &= 0x1f
 
 	x := FQReprFromBytes(copyBytes)
+	if x.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not a field element")
+	}
 	xFQ := FQReprToFQ(x)
 
 	return GetG1PointFromX(xFQ, greatest)
diff --git a/g2.go b/g2.go
index e137d50..b6ba0ee 100644
--- a/g2.go
+++ b/g2.go
@@ -258,8 +258,11 @@ func DecompressG2Unchecked(c [96]byte) (*G2Affine, error) {
 	copy(xC0Bytes[:], c[48:])
 
 	xC0 := FQReprFromBytes(xC0Bytes)
-	xC0FQ := FQReprToFQ(xC0)
 	xC1 := FQReprFromBytes(xC1Bytes)
+	if xC0.Cmp(QFieldModulus) >= 0 || xC1.Cmp(QFieldModulus) >= 0 {
+		return nil, errors.New("x-coordinate is not a field element")
+	}
+	xC0FQ := FQReprToFQ(xC0)
 	xC1FQ := FQReprToFQ(xC1)
 
 	x := NewFQ2(xC0FQ, xC1FQ)
-- 
2.43.0


From 1061d870dc95938097023af069f8c82fd5df8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 09/12] fix: return a copy of the point at infinity from
 G2Projective.ToAffine

The caller could modify the shared constant through it.
---
 g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/g2.go b/g2.go
index b6ba0ee..67bea4c 100644
--- a/g2.go
+++ b/g2.go
@@ -370,7 +370,7 @@ func (g G2Projective) Equals(other *G2Projective) bool {
 // ToAffine converts a G2Projective point to affine form.
 func (g G2Projective) ToAffine() *G2Affine {
 	if g.IsZero() {
-		return G2AffineZero
+		return G2AffineZero.Copy()
 	} else if g.z.Equals(FQ2One) {
 		return NewG2Affine(g.x, g.y)
 	}
-- 
2.43.0


From 82436e9b8d916138676570c5a0acd19dea8c4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 10/12] fix: never return the point at infinity from RandG1 and
 RandG2

The point was tested before it was scaled by the cofactor.
---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 716a377..2b76e15 100644
--- a/g1.go
+++ b/g1.go
@@ -604,7 +604,7 @@ func RandG1(r io.Reader) (*G1Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
diff --git a/g2.go b/g2.go
index 67bea4c..393c3a0 100644
--- a/g2.go
+++ b/g2.go
@@ -827,7 +827,7 @@ func RandG2(r io.Reader) (*G2Projective, error) {
 			continue
 		}
 		p1 := p.ScaleByCofactor()
-		if !p.IsZero() {
+		if !p1.IsZero() {
 			return p1, nil
 		}
 	}
-- 
2.43.0


From 28953b016f0bbac9122ed3a133f526acfd6f4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 11/12] fix: implement FR.Sqrt

It returned 1 for every element.
---
 fr.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/fr.go b/fr.go
index 5d58614..85ea62c 100644
--- a/fr.go
+++ b/fr.go
@@ -209,10 +209,50 @@ func (f *FR) SquareAssign() {
 	f.montReduce(r0, r1, r2, r3, r4, r5, r6, r7)
 }
 
-// Sqrt calculates the square root of the field element.
+// rMinus1OddPart is (r - 1) / 2**32, which is odd.
+var rMinus1OddPart, _ = FRReprFromString("12208678567578594777604504606729831043093128246378069236549469339647", 10)
+
+// frRootOfUnity is a primitive 2**32-th root of unity. 7 is a non-residue.
+var frRootOfUnity = FRReprToFR(NewFRRepr(7)).Exp(rMinus1OddPart)
+
+// Sqrt calculates the square root of the field element. It returns nil if
+// there is none.
 func (f FR) Sqrt() *FR {
-	// TODO: fixme
-	return FRReprToFR(frOne)
+	switch f.Legendre() {
+	case LegendreZero:
+		return f.Copy()
+	case LegendreQuadraticNonResidue:
+		return nil
+	}
+
+	// Tonelli-Shanks algorithm: res**2 = f * b, and the order of b divides
+	// 2**(m-1), where z has order 2**m.
+	exp := rMinus1OddPart.Copy()
+	exp.Rsh(1)
+	res := f.Exp(exp)
+	b := res.Copy()
+	b.SquareAssign()
+	b.MulAssign(&f)
+	res.MulAssign(&f)
+	z := frRootOfUnity.Copy()
+	m := 32
+
+	for !b.Equals(bigOneFR) {
+		k := 0
+		for b2 := b.Copy(); !b2.Equals(bigOneFR); k++ {
+			b2.SquareAssign()
+		}
+		w := z.Copy()
+		for i := k + 1; i < m; i++ {
+			w.SquareAssign()
+		}
+		res.MulAssign(w)
+		w.SquareAssign()
+		z = w
+		b.MulAssign(z)
+		m = k
+	}
+	return res
 }
 
 // Inverse finds the inverse of the field element.
-- 
2.43.0


From 4d995cf21ce29235c5e20d024c09f98cfbbcb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 12/12] fix: read the sign byte of a random point completely

RandG1 and RandG2 ignored how many bytes Read returned, so a source that
returns no bytes for once, as io.Reader allows, gave a point with a fixed sign.
---
 g1.go | 2 +-
 g2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/g1.go b/g1.go
index 2b76e15..778a3b9 100644
--- a/g1.go
+++ b/g1.go
@@ -587,7 +587,7 @@ func (g G1Projective) MulFR(b *FRRepr) *G1Projective {
 func RandG1(r io.Reader) (*G1Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
diff --git a/g2.go b/g2.go
index 393c3a0..f2e01b7 100644
--- a/g2.go
+++ b/g2.go
@@ -810,7 +810,7 @@ func G2AffineToPrepared(q *G2Affine) *G2Prepared {
 func RandG2(r io.Reader) (*G2Projective, error) {
 	for {
 		b := make([]byte, 1)
-		_, err := r.Read(b)
+		_, err := io.ReadFull(r, b)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0

