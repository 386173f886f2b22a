From df98c1c8150251eaae337622c2fa752709c87636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:04 +0000
Subject: [PATCH 01/19] fix: ECPoint.Equal compares both coordinates

It compared p2.Y with itself, so a point was equal to its own negation:
Open and VerifyR accepted negated openings, and Mult of -G or -H returned
the multiple of G or H.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From cbab417db1b5ca9a0368815340dadc77cf25aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 02/19] fix: TestCurve.H is the generator that Mult multiplies

Mult(H, s) uses btcec's table of multiples of H, which was computed for
another point than TestCurve.H. Mult(H, 1) was not H, CommitR(H, r) and
Mult(H, r) disagreed, and a GSPFS proof over base H never verified.
TestCurve.H was also a publicly known multiple of G; the table's generator
is derived by hashing and is not.
---
 zksigma.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..82272bd 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,9 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H is the generator btcec precomputes multiples of: the point whose X is
+	// SHA-256(Gx + 2), so that nobody knows its discrete log relative to G.
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 4e36517abd13d7dcb933eb63dc9a332bc38643b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:26 +0000
Subject: [PATCH 03/19] fix: Mult honours the generators it is given

For any H other than the one btcec has a table for, Mult(H, s) returned a
multiple of the table's generator, and it panicked for a curve that is not
a btcec.KoblitzCurve.
---
 crypto.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..9dd4b41 100644
--- a/crypto.go
+++ b/crypto.go
@@ -95,14 +95,19 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 	// 	logStuff("Mult: Trying to multiple with zero-point!\n")
 	// 	return p
 	// } else
-	if p.Equal(zkpcp.G) {
+	if p.Equal(ECPoint{zkpcp.C.Params().Gx, zkpcp.C.Params().Gy}) {
 		X, Y := zkpcp.C.ScalarBaseMult(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
-	if p.Equal(zkpcp.H) {
-		X, Y := zkpcp.C.(*btcec.KoblitzCurve).ScalarBaseMultH(modS.Bytes())
-		return ECPoint{X, Y}
+	// btcec's precomputed multiples of H are only usable if they are
+	// multiples of this curve's H
+	if koblitz, ok := zkpcp.C.(*btcec.KoblitzCurve); ok && p.Equal(zkpcp.H) {
+		tableX, tableY := koblitz.ScalarBaseMultH([]byte{1})
+		if p.Equal(ECPoint{tableX, tableY}) {
+			X, Y := koblitz.ScalarBaseMultH(modS.Bytes())
+			return ECPoint{X, Y}
+		}
 	}
 
 	X, Y := zkpcp.C.ScalarMult(p.X, p.Y, modS.Bytes())
-- 
2.43.0


From 0844224549f5b8f7027f3fcc274674199d2819db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 04/19] fix: responses in proofs are reduced modulo the group
 order

The disjunctive, ABC and range provers published s = u + c*x as an integer.
s / c is then x, give or take one, so the proof gave the witness away, and
the size of s told which side (or which bit) had been proved.
---
 abc.go         | 1 +
 disjunctive.go | 1 +
 rangeproof.go  | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..0402b81 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -147,6 +147,8 @@ func proofGenB(zkpcp ZKPCurveParams,
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
 	}
 
+	data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
+
 	return nil
 }
 
-- 
2.43.0


From 3761939fcf3a7446c5055e884bd0e84f2a00fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 05/19] fix: reading hostile lengths fails instead of crashing

ReadVarBytes ignored the limit it documents, so a few bytes made it allocate
(or panic on) any length up to 2^64, and points could be read with coordinates
that btcec panics on. ReadBigInt panicked on an empty encoding. The limit
ReadBigInt passed, 32, was less than WriteBigInt writes for a scalar.
---
 crypto.go      | 9 ++++++++-
 wire/common.go | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 9dd4b41..245daa1 100644
--- a/crypto.go
+++ b/crypto.go
@@ -190,12 +190,19 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 	return err
 }
 
+// maxBigIntBytes is the largest encoding of a big.Int, sign byte included, that
+// ReadBigInt accepts
+const maxBigIntBytes = 1024
+
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	bBytes, err := wire.ReadVarBytes(r, maxBigIntBytes, "big.Int")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("ReadBigInt: the sign byte is missing")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..659c075 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,14 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.  It would
+	// be possible to cause memory exhaustion and panics without a sane
+	// upper bound on this count.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("ReadVarBytes: %s is larger than the max allowed size "+
+			"[count %d, max %d]", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From d4cfc9ab4c79b672c1988f9e8d7ae6fb3565633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:11 +0000
Subject: [PATCH 06/19] fix: deserializing a malformed proof returns an error

All deserializers but ABC's dropped read errors and returned, without an
error, a proof with nil fields that made Verify panic. The range proof one
also allocated as many tuples as the input claimed.
---
 consistency.go | 21 ++++++++++++++++-----
 disjunctive.go | 29 ++++++++++++++++++++++-------
 equivalence.go | 17 +++++++++++++----
 gspfs.go       | 17 +++++++++++++----
 rangeproof.go  | 27 ++++++++++++++++++++-------
 5 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..64e8f90 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,21 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..0432434 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,27 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.C, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..c7786e0 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,18 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	if proof.UG, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.UH, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..245cf02 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,18 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	if proof.Base, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.RandCommit, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 0402b81..9a60548 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -344,14 +344,27 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
-	proof.ProofTuples = make([]rangeProofTuple, numTuples)
+	var err error
+
+	if proof.ProofAggregate, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.ProofE, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	for i := uint64(0); i < numTuples; i++ {
-		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		tuple := rangeProofTuple{}
+		if tuple.C, err = ReadECPoint(buf); err != nil {
+			return nil, err
+		}
+		if tuple.S, err = ReadBigInt(buf); err != nil {
+			return nil, err
+		}
+		proof.ProofTuples = append(proof.ProofTuples, tuple)
 	}
 
 	return proof, nil
-- 
2.43.0


From d6bde1b1b1606deac2923ede856908f339e65a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 07/19] fix: the range prover refuses 2^40

It has 40 bit commitments, so its proof for 2^40 committed to 0 and never
verified.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 9a60548..ac0ae3c 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) >= 0 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627775\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From c4bbbd877adac237d15ca368592da6d1bc2175da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:05 +0000
Subject: [PATCH 08/19] fix: verifying a malformed proof returns an error

Missing members, more range entries than there are bit generators and a nil
ABCProof made Verify panic, and points that are not on the curve let a proof
of a false statement through.
---
 abc.go         |  9 +++++++++
 consistency.go |  5 +++++
 crypto.go      | 31 +++++++++++++++++++++++++++++++
 disjunctive.go |  5 +++++
 equivalence.go |  5 +++++
 gspfs.go       |  5 +++++
 rangeproof.go  | 16 +++++++++++++---
 7 files changed, 73 insertions(+), 3 deletions(-)

diff --git a/abc.go b/abc.go
index c5fea04..c9543fb 100644
--- a/abc.go
+++ b/abc.go
@@ -173,6 +173,15 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCProof.Verify", "passed proof is nil"}
+	}
+
+	if !zkpcp.validPoints(aProof.B, aProof.C, aProof.T1, aProof.T2, aProof.CToken, CM, CMTok) ||
+		!validScalars(aProof.Challenge, aProof.j, aProof.k, aProof.l) {
+		return false, &errorProof{"ABCProof.Verify", "malformed proof or statement"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/consistency.go b/consistency.go
index 64e8f90..ee94646 100644
--- a/consistency.go
+++ b/consistency.go
@@ -95,6 +95,11 @@ func (conProof *ConsistencyProof) Verify(
 		return false, &errorProof{"ConsistencyProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.validPoints(conProof.T1, conProof.T2, CM, CMTok, PubKey) ||
+		!validScalars(conProof.Challenge, conProof.S1, conProof.S2) {
+		return false, &errorProof{"ConsistencyProof.Verify", "malformed proof or statement"}
+	}
+
 	// Regenerate challenge string
 	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
 		CM.Bytes(), CMTok.Bytes(),
diff --git a/crypto.go b/crypto.go
index 245daa1..7f35d38 100644
--- a/crypto.go
+++ b/crypto.go
@@ -153,6 +153,37 @@ func (zkpcp ZKPCurveParams) Neg(p ECPoint) ECPoint {
 	return ECPoint{p.X, modValue}
 }
 
+// validPoints returns true if every given point is either Zero or a point on
+// the curve.
+func (zkpcp ZKPCurveParams) validPoints(points ...ECPoint) bool {
+	fieldOrder := zkpcp.C.Params().P
+	for _, p := range points {
+		if p.X == nil || p.Y == nil {
+			return false
+		}
+		if p.Equal(Zero) {
+			continue
+		}
+		if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(fieldOrder) >= 0 || p.Y.Cmp(fieldOrder) >= 0 {
+			return false
+		}
+		if !zkpcp.C.IsOnCurve(p.X, p.Y) {
+			return false
+		}
+	}
+	return true
+}
+
+// validScalars returns true if every given scalar is present.
+func validScalars(scalars ...*big.Int) bool {
+	for _, s := range scalars {
+		if s == nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (p ECPoint) Bytes() []byte {
 	return append(p.X.Bytes(), p.Y.Bytes()...)
 }
diff --git a/disjunctive.go b/disjunctive.go
index 0432434..904f677 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -160,6 +160,11 @@ func (djProof *DisjunctiveProof) Verify(
 		return false, &errorProof{"DisjunctiveProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.validPoints(djProof.T1, djProof.T2, Base1, Result1, Base2, Result2) ||
+		!validScalars(djProof.C, djProof.C1, djProof.C2, djProof.S1, djProof.S2) {
+		return false, &errorProof{"DisjunctiveProof.Verify", "malformed proof or statement"}
+	}
+
 	T1 := djProof.T1
 	T2 := djProof.T2
 	C := djProof.C
diff --git a/equivalence.go b/equivalence.go
index c7786e0..e12a661 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -88,6 +88,11 @@ func (eqProof *EquivalenceProof) Verify(
 		return false, &errorProof{"EquivalenceVerify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.validPoints(eqProof.UG, eqProof.UH, Base1, Result1, Base2, Result2) ||
+		!validScalars(eqProof.Challenge, eqProof.HiddenValue) {
+		return false, &errorProof{"EquivalenceProof.Verify", "malformed proof or statement"}
+	}
+
 	// Regenerate challenge string
 	c := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
diff --git a/gspfs.go b/gspfs.go
index 245cf02..93819d5 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -75,6 +75,11 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 		return false, &errorProof{"GSPFSProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.validPoints(proof.Base, proof.RandCommit, A) ||
+		!validScalars(proof.HiddenValue, proof.Challenge) {
+		return false, &errorProof{"GSPFSProof.Verify", "malformed proof or statement"}
+	}
+
 	// A = xG and RandCommit = uG
 	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
 
diff --git a/rangeproof.go b/rangeproof.go
index ac0ae3c..a86ce22 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -270,6 +270,14 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("%d entries, at most %d are possible", proofLength, len(zkpcp.HPoints))}
+	}
+
+	if !zkpcp.validPoints(proof.ProofAggregate, comm) || !validScalars(proof.ProofE) {
+		return false, &errorProof{"RangeProof.Verify", "malformed proof or statement"}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
@@ -277,15 +285,17 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
 
 	for i := 0; i < proofLength; i++ {
-		// check that proofs are non-nil
-		if proof.ProofTuples[i].C.X == nil {
-			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
+		// check that proofs are usable before any of them is handed out
+		if !zkpcp.validPoints(proof.ProofTuples[i].C) {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has an invalid point", i)}
 		}
 		if proof.ProofTuples[i].S == nil {
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+	}
 
+	for i := 0; i < proofLength; i++ {
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 989991b09f639a2b81146bb18732b42184618403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:08 +0000
Subject: [PATCH 09/19] fix: ABC and inequality provers work with residues

A value that is a nonzero multiple of the group order (two inequality values
that differ by one) and a zero key made the prover panic for want of an
inverse.
---
 abc.go        |  7 +++++++
 inequality.go | 10 ++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/abc.go b/abc.go
index c9543fb..60a46fc 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,13 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	// only the residue of value matters, as in the commitment
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+
+	if new(big.Int).Mod(sk, zkpcp.C.Params().N).Sign() == 0 {
+		return &ABCProof{}, &errorProof{"ABCProof", "sk has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
diff --git a/inequality.go b/inequality.go
index 67459fa..9c2ddc5 100644
--- a/inequality.go
+++ b/inequality.go
@@ -13,13 +13,15 @@ type InequalityProof ABCProof
 // There is no Inequality verify since this generates an ABCProof, so just use ABCVerify
 func NewInequalityProof(zkpcp ZKPCurveParams, A, B, CMTokA, CMTokB ECPoint, a, b, sk *big.Int) (*InequalityProof, error) {
 
-	if a.Cmp(b) == 0 {
-		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
-	}
-
 	// should I check if a > b? I think that shouldn't be a problem
 	// generate a-b for ABCProof, D will be created  commitment
 	value := new(big.Int).Sub(a, b)
+	value.Mod(value, zkpcp.C.Params().N)
+
+	if value.Sign() == 0 {
+		return nil, &errorProof{"InequalityProve", "a and b should not be equal..."}
+	}
+
 	CM := zkpcp.Sub(A, B)
 
 	CMTok := zkpcp.Sub(CMTokA, CMTokB)
-- 
2.43.0


From f2c26d837838c3995afcd0828b8fd6d75708f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 10/19] fix: the range prover reports a failing source of
 randomness

Errors of its goroutines were dropped, and the missing scalars made it panic.
---
 rangeproof.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index a86ce22..defb39f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -46,12 +46,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -101,11 +100,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -184,11 +181,19 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
 	wg.Add(proofSize)
+	errs := make([]error, proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -208,11 +213,17 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenB(zkpcp, i, value.Bit(i) == 1, e0, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From b23456382bd1d2d2f0b9dc2009d9e1070c027d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 11/19] fix: the GSPFS challenge covers the base point

The documentation has HASH(G, xG, uG), the code left G out: anyone could pick
RandCommit and HiddenValue and solve for a Base, and Verify accepted that
without the prover knowing x.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index 93819d5..a25c8a5 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -81,7 +81,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 04e2faf68b8c842ee76932bfc4e210f315d0da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:49 +0000
Subject: [PATCH 12/19] fix: parsing a signature with a bad length byte returns
 an error

Lengths 0, 1, 254 and 255 made the parser index outside the signature.
---
 btcec/signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..0c745a3 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -112,11 +112,11 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	// length of remaining message
 	siglen := sigStr[index]
 	index++
-	if int(siglen+2) > len(sigStr) {
+	if int(siglen)+2 > len(sigStr) || int(siglen)+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-	sigStr = sigStr[:siglen+2]
+	sigStr = sigStr[:int(siglen)+2]
 
 	// 0x02
 	if sigStr[index] != 0x02 {
-- 
2.43.0


From 7625d4291225846409a6db921c9f2111fa3cfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 13/19] fix: recovering a key from a malformed compact
 signature fails

R = 0 made RecoverCompact panic, and an R that is not the x of any point made
it return a key that is not on the curve and verifies nothing.
---
 btcec/pubkey.go    | 7 +++++++
 btcec/signature.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..0d30ed4 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,13 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// Half of all x have no square root and are not on the curve.
+	y2 := new(big.Int).Mul(y, y)
+	y2.Sub(y2, x3)
+	if y2.Mod(y2, curve.Params().P).Sign() != 0 {
+		return nil, fmt.Errorf("x is not the coordinate of a point on the curve")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
diff --git a/btcec/signature.go b/btcec/signature.go
index 0c745a3..1148e7b 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -403,6 +403,12 @@ func RecoverCompact(curve *KoblitzCurve, signature,
 		R: new(big.Int).SetBytes(signature[1 : bitlen+1]),
 		S: new(big.Int).SetBytes(signature[bitlen+1:]),
 	}
+	for _, v := range []*big.Int{sig.R, sig.S} {
+		if v.Sign() == 0 || v.Cmp(curve.Params().N) >= 0 {
+			return nil, false, errors.New("compact signature out of range")
+		}
+	}
+
 	// The iteration used here was encoded
 	key, err := recoverKeyFromSignature(curve, sig, hash, iteration, false)
 	if err != nil {
-- 
2.43.0


From 93470ab77dc5814cf5b40b6043757ce0f1fe147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 14/19] fix: Encrypt does not write past the plaintext it is
 given

Padding was appended in place, over whatever the caller kept in the slice's
spare capacity.
---
 btcec/ciphering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..a23d74a 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,7 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From 69f3834a55b8d47e87b299a3a6a552af6672715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 15/19] fix: IsOnCurve rejects coordinates outside the field

It panicked from 2^256 on and accepted negative and unreduced coordinates.
---
 btcec/btcec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/btcec/btcec.go b/btcec/btcec.go
index 6212b1d..cc77c11 100644
--- a/btcec/btcec.go
+++ b/btcec/btcec.go
@@ -112,6 +112,14 @@ func (curve *KoblitzCurve) fieldJacobianToBigAffine(x, y, z *fieldVal) (*big.Int
 // Part of the elliptic.Curve interface. This function differs from the
 // crypto/elliptic algorithm since a = 0 not -3.
 func (curve *KoblitzCurve) IsOnCurve(x, y *big.Int) bool {
+	// Only reduced coordinates identify a point, and wider ones do not fit
+	// in a field value.
+	for _, v := range []*big.Int{x, y} {
+		if v.Sign() < 0 || v.Cmp(curve.P) >= 0 {
+			return false
+		}
+	}
+
 	// Convert big ints to field values for faster arithmetic.
 	fx, fy := curve.bigAffineToField(x, y)
 
-- 
2.43.0


From 22570487909b6b37a2c3006ba43a987f468a49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 16/19] fix: key recovery does not return the point at infinity

A compact signature with sR = eG recovered the key (0, 0), which is not a
public key and verifies nothing.
---
 btcec/signature.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index 1148e7b..e3b7c18 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -327,6 +327,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0


From b0def66f02fb23e7146dde04a22a6b7a68dab197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 17/19] fix: ParsePubKey rejects the header byte 0x05

It is not one of the encodings of a public key and was read as 0x04.
---
 btcec/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index 0d30ed4..7fcfd48 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -87,7 +87,7 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 
 	switch len(pubKeyStr) {
 	case PubKeyBytesLenUncompressed:
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if pubKeyStr[0] != pubkeyUncompressed && format != pubkeyHybrid {
 			return nil, fmt.Errorf("invalid magic in pubkey str: "+
 				"%d", pubKeyStr[0])
 		}
-- 
2.43.0


From 0a9262d6ed93dae8a3b6e4a23555a2bf5283bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 18/19] fix: the range verifier reduces the challenge like the
 prover

On a curve whose order is far below 2^256, such as P-224, no range proof verified.
---
 rangeproof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index defb39f..1895b71 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -327,9 +327,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 		rHash.Write(rpoint.X.Bytes())
 		rHash.Write(rpoint.Y.Bytes())
 	}
-	calculatedE0 := rHash.Sum(nil)
+	calculatedE0 := new(big.Int).SetBytes(rHash.Sum(nil))
+	calculatedE0.Mod(calculatedE0, zkpcp.C.Params().N)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	if proof.ProofE.Cmp(calculatedE0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From 3fece7cddff09bd7483739b17e55e4c57a7ef0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:56 +0000
Subject: [PATCH 19/19] fix: setting a field value from more than 32 bytes
 truncates as documented

---
 btcec/field.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/btcec/field.go b/btcec/field.go
index 0f2be74..c8761a6 100644
--- a/btcec/field.go
+++ b/btcec/field.go
@@ -221,10 +221,11 @@ func (f *fieldVal) SetBytes(b *[32]byte) *fieldVal {
 // f := new(fieldVal).SetByteSlice(byteSlice)
 func (f *fieldVal) SetByteSlice(b []byte) *fieldVal {
 	var b32 [32]byte
+	if len(b) > 32 {
+		b = b[:32]
+	}
 	for i := 0; i < len(b); i++ {
-		if i < 32 {
-			b32[i+(32-len(b))] = b[i]
-		}
+		b32[i+(32-len(b))] = b[i]
 	}
 	return f.SetBytes(&b32)
 }
-- 
2.43.0

