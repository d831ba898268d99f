From 9a7c595d2aee7776d71279eec3a6a774ba8f5f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 01/18] fix: IsPowerOfTwo(0) terminates instead of looping
 forever

---
 common/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..13f3724 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n <= 1 {
 		return false
 	}
 
-- 
2.43.0


From 58a6d92136cb5cc6d07b7a6210dd76eb73413e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 02/18] fix: decimal identifiers map to full-length paths and
 reject signs

---
 sparse/tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..dc268c8 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -137,7 +137,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
-		num, err := strconv.ParseInt(s, 10, 32)
+		num, err := strconv.ParseUint(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
 		}
@@ -145,12 +145,12 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		var res []uint16
 
 		for num > 0 {
-			res = append(res, uint16(num%int64(fanout)))
-			num /= int64(fanout)
+			res = append(res, uint16(num%uint64(fanout)))
+			num /= uint64(fanout)
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From f7fc16f6cb13a454db839d07791468374e63f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 03/18] fix: reject negative hexadecimal identifiers instead of
 looping forever

---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index dc268c8..b475e22 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -222,7 +222,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok {
+	if !ok || n.Sign() < 0 {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 725b0429e65a8c4360097d917bcbcf8a6926b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 04/18] fix: keep the sum slot of the commitment right when a
 leaf vertex is updated

---
 verkle/tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..2280783 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -401,6 +401,7 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	new := descendants[index].(int64)
 	newVal := c.NewZrFromInt(new)
 
+	oldSum := v.sum
 	v.sum = updateSum(v.sum, oldVal, newVal)
 
 	// Update index with new value
@@ -413,15 +414,15 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 		}
 	}
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	// The sum is committed to in the slot before the blinding factor
+	m[len(m)-2] = oldSum
 
 	// Update index with new value
 	pp.Update(t.PP, v.V, m, newVal, index)
 	v.values[uint16(index)] = newVal
 
 	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	pp.Update(t.PP, v.V, m, v.sum, len(m)-2)
 
 	return key
 }
-- 
2.43.0


From 86e07c8375de887d922fc98a96aaca7807262f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 05/18] fix: write the tree through the root cache so that Root
 is never stale

---
 pol/pol.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..5fa1144 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,12 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
+	db = &DBMemorizeRoot{DB: db}
 	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   db,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From 74ab6f09d55ded30eb60123e1a1cbe8c039bc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 06/18] fix: bind the inner product challenge to the commitment
 and the claimed product

---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..a8baf92 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From 11ace47c859175a3609e0d9c2ad1c0b1399c5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 07/18] fix: bind every inner product round challenge to the
 preceding rounds

---
 bp/innerprod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a8baf92..107003f 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -217,7 +217,7 @@ type nextParams struct {
 func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1v, P *math.G1) nextParams {
 	n := len(g) / 2
 
-	digest := randomOracle(L, R, pp.Digest)
+	digest := appendVToChallenge(randomOracle(L, R, pp.Digest), P)
 	x := common.FieldElementFromBytes(digest)
 	xInverse := x.Copy()
 	xInverse.InvModP(common.GroupOrder)
-- 
2.43.0


From d692376d4c0a7da7c6350354d16bff66eae26dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 08/18] fix: aggregation coefficients do not repeat for
 positions beyond 255

---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..ffe75ad 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -170,7 +171,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 4)
+	binary.BigEndian.PutUint32(index, uint32(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From 6067da09018364977e09fa9c59617abebd5d589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 09/18] fix: do not accept openings to the negation of the
 committed value

---
 pp/pointproofs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index ffe75ad..df636b3 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -117,7 +117,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(pp.Gt.Exp(canonical(mi)))
 
 	if left.Equals(right) {
 		return nil
@@ -125,6 +125,14 @@ func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	return fmt.Errorf("%v is not an element in index %d in %v", mi, i, C)
 }
 
+// canonical returns the representative of x between 0 and the group order,
+// as exponentiation in Gt ignores the sign of its exponent.
+func canonical(x *math.Zr) *math.Zr {
+	x = x.Copy()
+	x.Mod(GroupOrder)
+	return x
+}
+
 func Update(pp *PP, C *math.G1, m common.Vec, mi *math.Zr, i int) {
 	prevG := pp.G1s[i].Mul(m[i])
 	nextG := pp.G1s[i].Mul(mi)
@@ -158,7 +166,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := pp.Gt.Exp(canonical(Σ))
 	right.Mul(πg2)
 
 	if right.Equals(left) {
-- 
2.43.0


From 1ede378cd5a42c855cf838bb1daf9add334df1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 10/18] fix: compare the sum of the vector modulo the group
 order

---
 sum/sa.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index a341649..c5e8e6a 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -126,8 +126,11 @@ func NewCommitment(pp *PP, v common.Vec, r *math.Zr) *Argument {
 	for i := 1; i < n-1; i++ {
 		sum = sum.Plus(v[i])
 	}
+	last := v[n-1].Copy()
+	sum.Mod(GroupOrder)
+	last.Mod(GroupOrder)
 
-	if !v[n-1].Equals(sum) {
+	if !last.Equals(sum) {
 		panic("v[n-1] != Σv[j] j: 0->n-2")
 	}
 
-- 
2.43.0


From 54a4bce10296b7989c921b44e8751e17261518d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 11/18] fix: a liability proof has exactly one commitment and
 range proof per level

---
 pol/pol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 5fa1144..e5c0dc4 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -128,6 +128,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d commitments and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From c41467926da806cb0cd4977994c120c23968fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 12/18] fix: bind the aggregated hash chain opening to the
 digests of the path

---
 pol/pol.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index e5c0dc4..2088058 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -196,7 +196,18 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
-	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
+	// The value opened by the aggregated proof has to be that of the digests checked above.
+	ro := hashChainRO(lp.V)
+	var coefficients common.Vec
+	for i := 0; i < len(lp.W); i++ {
+		coefficients = append(coefficients, ro(publicParams.PPPP, lp.W, i))
+	}
+	Σ := lp.Digests[:len(coefficients)].InnerProd(coefficients)
+	if !Σ.Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("hash chain aggregation does not match the digests")
+	}
+
+	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, Σ, ro); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
 
@@ -236,6 +247,14 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	return []time.Duration{saElapsed, eqElapsed}, nil
 }
 
+// hashChainRO binds the aggregation of the hash chain also to the value commitments V,
+// as together with the digest commitments they determine the digests which are opened.
+func hashChainRO(V common.G1v) func(*pp.PP, []*math.G1, int) *math.Zr {
+	return func(params *pp.PP, W []*math.G1, i int) *math.Zr {
+		return pp.RO(params, append(append(common.G1v{}, W...), V...), i)
+	}
+}
+
 func (lp LiabilityProof) checkCommitmentToInnerVertex(i int) error {
 	h := sha256.New()
 	h.Write(lp.V[i].Bytes())
@@ -430,14 +449,15 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 		Sum:            int(liability),
 	}
 
+	ro := hashChainRO(proof.V)
 	var tPP common.Vec
 	for i := 0; i < len(path)-1; i++ {
-		tPP = append(tPP, pp.RO(ls.tree.PP, proof.W, i))
+		tPP = append(tPP, ro(ls.tree.PP, proof.W, i))
 	}
 
 	saStart := time.Now()
 	proof.PointProofΣ = proof.Digests[:len(tPP)].InnerProd(tPP)
-	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, pp.RO)
+	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, ro)
 	proof.SumArgumentProof = vertices.SumArgument(ls.pp.SAPP)
 	saElapsed := time.Since(saStart)
 
-- 
2.43.0


From 26dac45fec73f0cdd7e6a6dba39165748292b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 13/18] fix: bind aggregated equality challenges to the opened
 indices

---
 poe/poe.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..0d94a8e 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -83,7 +83,7 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 	groupElements = append(groupElements, proof.U)
 	groupElements = append(groupElements, proof.V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, append(append([]int{}, e.I...), e.J...), e.PP.Digest, 2*m)
 
 	g2sV := make(common.G2v, m)
 	for k := 0; k < m; k++ {
@@ -194,7 +194,7 @@ func (e *Equalities) Prove(vs, ws []common.Vec) *AggregatedProof {
 	groupElements = append(groupElements, U)
 	groupElements = append(groupElements, V)
 
-	ts := e.RO(groupElements, nil, e.PP.Digest, 2*m)
+	ts := e.RO(groupElements, append(append([]int{}, e.I...), e.J...), e.PP.Digest, 2*m)
 
 	Ω := ΩvPP.Add(Ωv.Mul(x)).MulV(ts.Evens()).Sum()
 	Ω.Add(ΩwPP.Add(Ωw.Mul(x)).MulV(ts.Odds()).Sum())
-- 
2.43.0


From 73b67bd116b46e1e8d5a4c4536e70268520811bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 14/18] fix: bind the range proof challenges to the iterated
 reduction

---
 bp/range.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..2761c47 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -116,6 +116,8 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	y1Digest = append(y1Digest, pp.Digest()...)
 	y0Digest = append(y0Digest, x.Bytes()...)
 	y1Digest = append(y1Digest, x.Bytes()...)
+	y0Digest = append(y0Digest, reductionBytes(rp.γ, rp.Δ, rp.u)...)
+	y1Digest = append(y1Digest, reductionBytes(rp.γ, rp.Δ, rp.u)...)
 
 	y0, y1 := common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y0Digest)), common.FieldElementFromBytes(randomOracle(rp.Q, rp.R, y1Digest))
 	y0v, y1v := common.PowerSeries(n*m, y0), expand(common.IntToZr(1), n*m).Mul(y1)
@@ -219,6 +221,8 @@ func ProveRange(pp *RangeProofPublicParams, V *math.G1, v common.Vec, r *math.Zr
 	y1Digest = append(y1Digest, pp.Digest()...)
 	y0Digest = append(y0Digest, x.Bytes()...)
 	y1Digest = append(y1Digest, x.Bytes()...)
+	y0Digest = append(y0Digest, reductionBytes(γ, Δ, u)...)
+	y1Digest = append(y1Digest, reductionBytes(γ, Δ, u)...)
 
 	y0, y1 := common.FieldElementFromBytes(randomOracle(Q, R, y0Digest)), common.FieldElementFromBytes(randomOracle(Q, R, y1Digest))
 	y0v, y1v := common.PowerSeries(n*m, y0), expand(common.IntToZr(1), n*m).Mul(y1)
@@ -311,6 +315,15 @@ func computeD(n int, m int, f common.Vec, x *math.Zr) common.Vec {
 	return d
 }
 
+// reductionBytes encodes the messages of the iterated reduction, to which the later challenges have to be bound.
+func reductionBytes(γ *math.Zr, Δ [][3]*math.G1, u *math.Zr) []byte {
+	res := append(γ.Bytes(), u.Bytes()...)
+	for i := 0; i < len(Δ); i++ {
+		res = append(res, common.G1v(Δ[i][:]).Bytes()...)
+	}
+	return res
+}
+
 func expand(x *math.Zr, n int) common.Vec {
 	res := make(common.Vec, n)
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 33cbf1b3c67df8ab6edb3339a887e3fc952d3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 15/18] fix: the range proof parameters digest covers the
 generators in use

---
 pol/pol.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 2088058..15a3bde 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -96,8 +96,16 @@ func GeneratePublicParams(fanOut uint16, treeType TreeType) (func(string) []uint
 	pp.SAPP.Gs = make(common.G1v, n)
 	copy(pp.SAPP.Gs, pp.PPPP.G1s)
 
-	pp.RPPP.Gs = pp.SAPP.Gs
-	pp.RPPP.F = pp.SAPP.F
+	// Built anew so that its digest covers the shared generators
+	pp.RPPP = &bp.RangeProofPublicParams{
+		G:  pp.RPPP.G,
+		H:  pp.RPPP.H,
+		F:  pp.SAPP.F,
+		Gs: pp.SAPP.Gs,
+		Hs: pp.RPPP.Hs,
+		Fs: pp.RPPP.Fs,
+	}
+	pp.RPPP.Digest()
 	return id2Path, pp
 }
 
-- 
2.43.0


From 02816910d315a3aaa27a38dbc24f38214c8963e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 16/18] fix: reject inner product proofs with too few rounds
 instead of crashing

---
 bp/innerprod.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 107003f..acd5f67 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -150,6 +150,10 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 		return nil
 	}
 
+	if len(LRs) < 2 {
+		return fmt.Errorf("the proof has too few rounds")
+	}
+
 	L := LRs[0]
 	R := LRs[1]
 	LRs = LRs[2:]
-- 
2.43.0


From b6764fbbb3fd8e4ebaa204f95014f703a0e472a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 17/18] fix: reject iterated reductions with too few rounds
 instead of crashing

---
 bp/ir.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..753f497 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -23,6 +23,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 	var finalV *math.G1
 
 	for n > 0 {
+		if len(Δ) == 0 {
+			return nil, nil, fmt.Errorf("the proof has too few rounds")
+		}
+
 		A, B, V := Δ[0][0], Δ[0][1], Δ[0][2]
 		x := common.FieldElementFromBytes(appendVToChallenge(randomOracle(A, B, pp.Digest), prevV))
 
-- 
2.43.0


From a88a6c5f8471689c32db3aaf90255628c24f06a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 18/18] fix: reject aggregated equality proofs of the wrong
 size instead of crashing

---
 poe/poe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poe/poe.go b/poe/poe.go
index 0d94a8e..1bb0387 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.V) {
+		return fmt.Errorf("PoE invalid: the proof is for a different number of equalities")
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0

