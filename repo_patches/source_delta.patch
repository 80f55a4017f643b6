From 5541957d54cc4a5cb31f86ea973513fa08adff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 01/33] fix: sm3: Write accepts an empty slice instead of
 panicking

---
 sm3/sm3.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 141a4e7..1f44136 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -86,7 +86,6 @@ func (digest *sm3Digest) Reset() {
 }
 
 func (digest *sm3Digest) Write(p []byte) (n int, err error) {
-	_ = p[0]
 	inLen := len(p)
 
 	i := 0
-- 
2.43.0


From 78ca7d37c90149938d5c22a5060625c617044741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 02/33] fix: sm3: Sum does not change the running hash state

---
 sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 1f44136..145b9b0 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -39,7 +39,8 @@ func New() hash.Hash {
 }
 
 func (digest *sm3Digest) Sum(b []byte) []byte {
-	d1 := digest
+	// work on a copy so that the caller can keep writing and summing
+	d1 := *digest
 	h := d1.checkSum()
 	return append(b, h[:]...)
 }
-- 
2.43.0


From 17bcefce081475459f673a37d9e6dd531b9ac9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 03/33] fix: sm3: a single Write of 2 GiB or more does not
 overflow its offset

---
 sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 145b9b0..e8804c5 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -105,7 +105,7 @@ func (digest *sm3Digest) Write(p []byte) (n int, err error) {
 
 	limit := ((inLen - i) & ^3) + i
 	for ; i < limit; i += 4 {
-		digest.processWord(p, int32(i))
+		digest.processWord(p, i)
 	}
 
 	for i < inLen {
@@ -215,7 +215,7 @@ func (digest *sm3Digest) processBlock() {
 	digest.xOff = 0
 }
 
-func (digest *sm3Digest) processWord(in []byte, inOff int32) {
+func (digest *sm3Digest) processWord(in []byte, inOff int) {
 	n := binary.BigEndian.Uint32(in[inOff : inOff+4])
 
 	digest.inWords[digest.xOff] = n
-- 
2.43.0


From 37259dfdde195802b241c940803d17f3c6149a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 04/33] fix: sm2: key exchange derives keys longer than 128
 bits

---
 sm2/keyexchange.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 66ae995..45e16f5 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -44,8 +44,8 @@ func calculateU(w int, selfStaticPriv *PrivateKey, selfEphemeralPriv *PrivateKey
 
 func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) []byte {
 	bufSize := 4
-	if bufSize < digest.BlockSize() {
-		bufSize = digest.BlockSize()
+	if bufSize < digest.Size() {
+		bufSize = digest.Size()
 	}
 	buf := make([]byte, bufSize)
 
@@ -68,6 +68,9 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 		copy(buf[:bufSize], tmp[:bufSize])
 
 		copyLen := rvLen - off
+		if copyLen > digest.Size() {
+			copyLen = digest.Size()
+		}
 		copy(rv[off:off+copyLen], buf[:copyLen])
 		off += copyLen
 	}
-- 
2.43.0


From f2832dc4ff6d6caf4195985990405222a1d82ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 05/33] fix: sm3: BlockSize is 64 bytes, as HMAC and other
 users of hash.Hash need

---
 sm3/sm3.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index e8804c5..25c6906 100644
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -9,9 +9,12 @@ import (
 
 const (
 	DigestLength = 32
-	BlockSize    = 16
+	BlockSize    = 64
 )
 
+// number of 32-bit words in a block
+const blockWords = BlockSize / 4
+
 var gT = []uint32{
 	0x79CC4519, 0xF3988A32, 0xE7311465, 0xCE6228CB, 0x9CC45197, 0x3988A32F, 0x7311465E, 0xE6228CBC,
 	0xCC451979, 0x988A32F3, 0x311465E7, 0x6228CBCE, 0xC451979C, 0x88A32F39, 0x11465E73, 0x228CBCE6,
@@ -24,7 +27,7 @@ var gT = []uint32{
 
 type sm3Digest struct {
 	v         [DigestLength / 4]uint32
-	inWords   [BlockSize]uint32
+	inWords   [blockWords]uint32
 	xOff      int32
 	w         [68]uint32
 	xBuf      [4]byte
@@ -227,14 +230,14 @@ func (digest *sm3Digest) processWord(in []byte, inOff int) {
 }
 
 func (digest *sm3Digest) processLength(bitLength int64) {
-	if digest.xOff > (BlockSize - 2) {
+	if digest.xOff > (blockWords - 2) {
 		digest.inWords[digest.xOff] = 0
 		digest.xOff++
 
 		digest.processBlock()
 	}
 
-	for ; digest.xOff < (BlockSize - 2); digest.xOff++ {
+	for ; digest.xOff < (blockWords - 2); digest.xOff++ {
 		digest.inWords[digest.xOff] = 0
 	}
 
-- 
2.43.0


From 22303fced5369305991c1434acd39e4e424467f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 06/33] fix: sm2: key exchange hashes coordinates as fixed
 32-byte strings

---
 sm2/keyexchange.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 45e16f5..3cb365b 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -51,8 +51,8 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 	rv := make([]byte, (keyBits+7)/8)
 	rvLen := len(rv)
-	uxBytes := ux.Bytes()
-	uyBytes := uy.Bytes()
+	uxBytes := bigIntTo32Bytes(ux)
+	uyBytes := bigIntTo32Bytes(uy)
 	off := 0
 	ct := uint32(0)
 	for off < rvLen {
@@ -79,20 +79,20 @@ func kdfForExch(digest hash.Hash, ux, uy *big.Int, za, zb []byte, keyBits int) [
 
 func calculateInnerHash(digest hash.Hash, ux *big.Int, za, zb []byte, p1x, p1y *big.Int, p2x, p2y *big.Int) []byte {
 	digest.Reset()
-	digest.Write(ux.Bytes())
+	digest.Write(bigIntTo32Bytes(ux))
 	digest.Write(za)
 	digest.Write(zb)
-	digest.Write(p1x.Bytes())
-	digest.Write(p1y.Bytes())
-	digest.Write(p2x.Bytes())
-	digest.Write(p2y.Bytes())
+	digest.Write(bigIntTo32Bytes(p1x))
+	digest.Write(bigIntTo32Bytes(p1y))
+	digest.Write(bigIntTo32Bytes(p2x))
+	digest.Write(bigIntTo32Bytes(p2y))
 	return digest.Sum(nil)
 }
 
 func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x02})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
@@ -100,7 +100,7 @@ func s1(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 func s2(digest hash.Hash, uy *big.Int, innerHash []byte) []byte {
 	digest.Reset()
 	digest.Write([]byte{0x03})
-	digest.Write(uy.Bytes())
+	digest.Write(bigIntTo32Bytes(uy))
 	digest.Write(innerHash)
 	return digest.Sum(nil)
 }
-- 
2.43.0


From e622f2320fd6b38b6fd19e1584eba73fadf8a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 07/33] fix: sm2: key exchange rejects points off the curve and
 a shared point at infinity

---
 sm2/keyexchange.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sm2/keyexchange.go b/sm2/keyexchange.go
index 3cb365b..548ee89 100644
--- a/sm2/keyexchange.go
+++ b/sm2/keyexchange.go
@@ -118,6 +118,13 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 		return nil, errors.New("if initiating, confirmationTag must be set")
 	}
 
+	if !selfStaticPriv.Curve.IsOnCurve(otherStaticPub.X, otherStaticPub.Y) {
+		return nil, errors.New("the other party's static public key is not on the curve")
+	}
+	if !selfStaticPriv.Curve.IsOnCurve(otherEphemeralPub.X, otherEphemeralPub.Y) {
+		return nil, errors.New("the other party's ephemeral public key is not on the curve")
+	}
+
 	selfStaticPub := CalculatePubKey(selfStaticPriv)
 	digest := sm3.New()
 	za := getZ(digest, &selfStaticPriv.Curve, selfStaticPub.X, selfStaticPub.Y, selfId)
@@ -126,6 +133,9 @@ func CalculateKeyWithConfirmation(initiator bool, keyBits int, confirmationTag [
 	w := selfStaticPriv.Curve.BitSize/2 - 1
 	selfEphemeralPub := CalculatePubKey(selfEphemeralPriv)
 	ux, uy := calculateU(w, selfStaticPriv, selfEphemeralPriv, selfEphemeralPub, otherStaticPub, otherEphemeralPub)
+	if util.IsEcPointInfinity(ux, uy) {
+		return nil, errors.New("the shared point is at infinity")
+	}
 	if initiator {
 		rv := kdfForExch(digest, ux, uy, za, zb, keyBits)
 		innerHash := calculateInnerHash(digest, ux, za, zb, selfEphemeralPub.X, selfEphemeralPub.Y,
-- 
2.43.0


From 30a504f9f3795f5ec5a433525e74f9d506488b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 08/33] fix: sm2: Encrypt of an empty message returns an error
 instead of never returning

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f958e88..339925c 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -260,6 +260,9 @@ func notEncrypted(encData []byte, in []byte) bool {
 }
 
 func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
+	if len(in) == 0 {
+		return nil, errors.New("plain text is empty")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
-- 
2.43.0


From fa702bce4f0851551847b48a6b45ff3802ec6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 09/33] fix: sm2: Decrypt rejects short input and a C1 that is
 not a point

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 339925c..a04b121 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -310,9 +310,15 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 
 func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	c1Len := ((priv.Curve.BitSize+7)>>3)*2 + 1
+	if len(in) < c1Len+sm3.DigestLength {
+		return nil, errors.New("cipher text is too short")
+	}
 	c1 := make([]byte, c1Len)
 	copy(c1, in[:c1Len])
 	c1x, c1y := elliptic.Unmarshal(priv.Curve, c1)
+	if c1x == nil {
+		return nil, errors.New("C1 is not a point on the curve")
+	}
 	sx, sy := priv.Curve.ScalarMult(c1x, c1y, sm2H.Bytes())
 	if util.IsEcPointInfinity(sx, sy) {
 		return nil, errors.New("[h]C1 at infinity")
-- 
2.43.0


From 885684d5af26ea2995d7bea5cedd8710f9cf7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 10/33] fix: sm2: MarshalCipher rejects input that is not a raw
 cipher text

---
 sm2/sm2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index a04b121..586e04a 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -356,6 +356,12 @@ func Decrypt(priv *PrivateKey, in []byte, cipherTextType Sm2CipherTextType) ([]b
 
 func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error) {
 	byteLen := (sm2P256V1.Params().BitSize + 7) >> 3
+	if len(in) < 1+byteLen*2+sm3.DigestLength {
+		return nil, errors.New("cipher text is too short")
+	}
+	if in[0] != UnCompress {
+		return nil, errors.New("C1 is not an uncompressed point")
+	}
 	c1x := make([]byte, byteLen)
 	c1y := make([]byte, byteLen)
 	c2Len := len(in) - (1 + byteLen*2) - sm3.DigestLength
-- 
2.43.0


From 6c5b804b1f768078bfe9bc0d92dd91b35eaeecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 11/33] fix: sm2: UnmarshalCipher rejects out-of-range fields
 and non-canonical encodings

---
 sm2/sm2.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 586e04a..812f0c0 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -399,6 +399,29 @@ func MarshalCipher(in []byte, cipherTextType Sm2CipherTextType) ([]byte, error)
 	}
 }
 
+// checkEncoding reports an error unless in is exactly the DER encoding of val:
+// asn1.Unmarshal ignores what follows a value and extra elements of a SEQUENCE.
+func checkEncoding(in []byte, val interface{}) error {
+	der, err := asn1.Marshal(val)
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, in) {
+		return errors.New("not a canonical DER encoding")
+	}
+	return nil
+}
+
+func checkCipherFields(x, y *big.Int, c3 []byte) error {
+	if x.Sign() < 0 || x.BitLen() > BitSize || y.Sign() < 0 || y.BitLen() > BitSize {
+		return errors.New("C1 coordinate out of range")
+	}
+	if len(c3) != sm3.DigestLength {
+		return errors.New("C3 has a wrong length")
+	}
+	return nil
+}
+
 func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, err error) {
 	if cipherTextType == C1C2C3 {
 		cipher := new(sm2CipherC1C2C3)
@@ -406,6 +429,14 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		err = checkCipherFields(cipher.X, cipher.Y, cipher.C3)
+		if err != nil {
+			return nil, err
+		}
+		err = checkEncoding(in, *cipher)
+		if err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
@@ -430,6 +461,14 @@ func UnmarshalCipher(in []byte, cipherTextType Sm2CipherTextType) (out []byte, e
 		if err != nil {
 			return nil, err
 		}
+		err = checkCipherFields(cipher.X, cipher.Y, cipher.C3)
+		if err != nil {
+			return nil, err
+		}
+		err = checkEncoding(in, *cipher)
+		if err != nil {
+			return nil, err
+		}
 		c1xBytes := bigIntTo32Bytes(cipher.X)
 		c1yBytes := bigIntTo32Bytes(cipher.Y)
 		c1xLen := len(c1xBytes)
-- 
2.43.0


From 70823d50911467a1e646ad499a4de9792fb62fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 12/33] fix: sm2: public keys that are not points on the curve
 are rejected

---
 sm2/sm2.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 812f0c0..7f57259 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -119,6 +119,9 @@ func RawBytesToPublicKey(bytes []byte) (*PublicKey, error) {
 	publicKey.Curve = sm2P256V1
 	publicKey.X = new(big.Int).SetBytes(bytes[:KeyBytes])
 	publicKey.Y = new(big.Int).SetBytes(bytes[KeyBytes:])
+	if !publicKey.Curve.IsOnCurve(publicKey.X, publicKey.Y) {
+		return nil, errors.New("Public key is not a point on the curve")
+	}
 	return publicKey, nil
 }
 
@@ -263,6 +266,9 @@ func Encrypt(pub *PublicKey, in []byte, cipherTextType Sm2CipherTextType) ([]byt
 	if len(in) == 0 {
 		return nil, errors.New("plain text is empty")
 	}
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return nil, errors.New("public key is not a point on the curve")
+	}
 	c2 := make([]byte, len(in))
 	copy(c2, in)
 	var c1 []byte
@@ -595,6 +601,9 @@ func Sign(priv *PrivateKey, userId []byte, in []byte) ([]byte, error) {
 }
 
 func VerifyByRS(pub *PublicKey, userId []byte, src []byte, r, s *big.Int) bool {
+	if !pub.Curve.IsOnCurve(pub.X, pub.Y) {
+		return false
+	}
 	intOne := new(big.Int).SetInt64(1)
 	if r.Cmp(intOne) == -1 || r.Cmp(pub.Curve.N) >= 0 {
 		return false
-- 
2.43.0


From 24922bb3c8bf9634af66ed2a67f02716941f351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 13/33] fix: sm2: UnmarshalSign accepts only the DER encoding
 of (r, s)

---
 sm2/sm2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 7f57259..5bfeca0 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -542,6 +542,10 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	err = checkEncoding(sign, *sm2Sign)
+	if err != nil {
+		return nil, nil, err
+	}
 	return sm2Sign.R, sm2Sign.S, nil
 }
 
-- 
2.43.0


From 74c7897cdc2e91860ceea9bba55076528d49661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 14/33] fix: sm2: private keys are in [1, n-2]

---
 sm2/sm2.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 5bfeca0..0204d34 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -96,14 +96,25 @@ func GetSm2P256V1() P256V1Curve {
 	return sm2P256V1
 }
 
+// isPrivateKeyValue reports whether d is in [1, n-2]: with d = n-1 the 1 + d that
+// signing divides by has no inverse.
+func isPrivateKeyValue(d, n *big.Int) bool {
+	max := new(big.Int).Sub(n, big.NewInt(2))
+	return d.Sign() > 0 && d.Cmp(max) <= 0
+}
+
 func GenerateKey(rand io.Reader) (*PrivateKey, *PublicKey, error) {
-	priv, x, y, err := elliptic.GenerateKey(sm2P256V1, rand)
-	if err != nil {
-		return nil, nil, err
-	}
+	var x, y *big.Int
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
-	privateKey.D = new(big.Int).SetBytes(priv)
+	for privateKey.D == nil || !isPrivateKeyValue(privateKey.D, sm2P256V1.N) {
+		priv, px, py, err := elliptic.GenerateKey(sm2P256V1, rand)
+		if err != nil {
+			return nil, nil, err
+		}
+		privateKey.D = new(big.Int).SetBytes(priv)
+		x, y = px, py
+	}
 	publicKey := new(PublicKey)
 	publicKey.Curve = sm2P256V1
 	publicKey.X = x
@@ -132,6 +143,9 @@ func RawBytesToPrivateKey(bytes []byte) (*PrivateKey, error) {
 	privateKey := new(PrivateKey)
 	privateKey.Curve = sm2P256V1
 	privateKey.D = new(big.Int).SetBytes(bytes)
+	if !isPrivateKeyValue(privateKey.D, privateKey.Curve.N) {
+		return nil, errors.New("Private key is out of range")
+	}
 	return privateKey, nil
 }
 
@@ -550,6 +564,9 @@ func UnmarshalSign(sign []byte) (r, s *big.Int, err error) {
 }
 
 func SignToRS(priv *PrivateKey, userId []byte, in []byte) (r, s *big.Int, err error) {
+	if !isPrivateKeyValue(priv.D, priv.Curve.N) {
+		return nil, nil, errors.New("private key is out of range")
+	}
 	digest := sm3.New()
 	pubX, pubY := priv.Curve.ScalarBaseMult(priv.D.Bytes())
 	if userId == nil {
-- 
2.43.0


From 327e60a28fe6be1f3b69842e7cbb4936efec6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 15/33] fix: sm4: CBC with an IV of a wrong length returns an
 error instead of panicking

---
 sm4/sm4.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm4/sm4.go b/sm4/sm4.go
index 872f716..1dbef23 100644
--- a/sm4/sm4.go
+++ b/sm4/sm4.go
@@ -271,6 +271,9 @@ func CBCEncrypt(key, iv, plainText []byte) (cipherText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv is not one block long")
+	}
 	encrypter := cipher.NewCBCEncrypter(c, iv)
 	cipherText = make([]byte, plainTextLen)
 	encrypter.CryptBlocks(cipherText, plainText)
@@ -289,6 +292,9 @@ func CBCDecrypt(key, iv, cipherText []byte) (plainText []byte, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != BlockSize {
+		return nil, errors.New("iv is not one block long")
+	}
 	decrypter := cipher.NewCBCDecrypter(c, iv)
 	plainText = make([]byte, len(cipherText))
 	decrypter.CryptBlocks(plainText, cipherText)
-- 
2.43.0


From 9f8bf96732be2905b1b1aaab83cc7cf957e3fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 16/33] fix: util: padding does not write into the caller's
 backing array

---
 util/padding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/padding.go b/util/padding.go
index a1862c7..78ca4ca 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -5,7 +5,7 @@ import "bytes"
 func PKCS5Padding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 func PKCS5UnPadding(src []byte) []byte {
@@ -17,7 +17,7 @@ func PKCS5UnPadding(src []byte) []byte {
 func ZeroPadding(src []byte, blockSize int) []byte {
 	padding := blockSize - len(src)%blockSize
 	padtext := bytes.Repeat([]byte{0}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // UnZeroPadding
-- 
2.43.0


From 457672db4c9cbd52ff9130717d3e5b37fcae88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 17/33] fix: util: removing padding from damaged data returns
 nil instead of panicking

---
 util/padding.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/util/padding.go b/util/padding.go
index 78ca4ca..2169d64 100644
--- a/util/padding.go
+++ b/util/padding.go
@@ -10,7 +10,13 @@ func PKCS5Padding(src []byte, blockSize int) []byte {
 
 func PKCS5UnPadding(src []byte) []byte {
 	length := len(src)
+	if length == 0 {
+		return nil
+	}
 	unpadding := int(src[length-1])
+	if unpadding > length {
+		return nil
+	}
 	return src[:(length - unpadding)]
 }
 
@@ -24,5 +30,8 @@ func ZeroPadding(src []byte, blockSize int) []byte {
 // 由于原文最后一个或若干个字节就有可能为0，所以大多情况下不能简单粗暴地后面有几个0就去掉几个0，除非可以确定最后一个字节肯定不为0.
 // 所以需要用户自己去指定具体要去掉末尾几个字节，具体要看用户的自己的数据协议怎么设计。
 func UnZeroPadding(src []byte, paddingLen int) []byte {
+	if paddingLen < 0 || paddingLen > len(src) {
+		return nil
+	}
 	return src[:len(src)-paddingLen]
 }
-- 
2.43.0


From d1834b565116589e7052865c09674a1340205706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 18/33] fix: cert: CreateCertificateRequest does not change the
 caller's template

---
 sm2/cert/gmx509.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f9fe844..e0813a9 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -131,14 +131,17 @@ func CreateCertificateRequest(template *x509.CertificateRequest, pub *sm2.Public
 			})
 		}
 
-		// Append the extensions to an existing attribute if possible.
+		// Append the extensions to an existing attribute if possible, without
+		// changing the template's own attribute.
 		appended := false
-		for _, atvSet := range attributes {
+		for i, atvSet := range attributes {
 			if !atvSet.Type.Equal(oidExtensionRequest) || len(atvSet.Value) == 0 {
 				continue
 			}
 
-			atvSet.Value[0] = append(atvSet.Value[0], atvs...)
+			value := append([][]pkix.AttributeTypeAndValue(nil), atvSet.Value...)
+			value[0] = append(value[0][:len(value[0]):len(value[0])], atvs...)
+			attributes[i].Value = value
 			appended = true
 			break
 		}
-- 
2.43.0


From bf0d3b8109383c33a3815e55091da4a21cbd5470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 19/33] fix: cert: an unknown extended key usage in a template
 is an error instead of a panic

---
 sm2/cert/gmx509.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index e0813a9..7afc0a8 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -726,7 +726,7 @@ func buildExtensions(template *x509.Certificate, subjectIsEmpty bool, authorityK
 			if oid, ok := oidFromExtKeyUsage(u); ok {
 				oids = append(oids, oid)
 			} else {
-				panic("internal error")
+				return nil, errors.New("x509: unknown extended key usage")
 			}
 		}
 
-- 
2.43.0


From 4f79e5eae33371cc261d870471dddec5dd1d6354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 20/33] fix: cryptobyte: a fixed-size Builder keeps the content
 of its children

---
 cryptobyte/builder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index 29b4c76..e6ccc9f 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -268,9 +268,7 @@ func (b *Builder) flushChild() {
 		return
 	}
 
-	if !b.fixedSize {
-		b.result = child.result // In case child reallocated result.
-	}
+	b.result = child.result // It has grown, and the child may have reallocated it.
 }
 
 func (b *Builder) add(bytes ...byte) {
-- 
2.43.0


From c722d9ae8227110fecfaff637a3e5801f0e5870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 21/33] fix: cryptobyte: a fixed-size Builder without room for
 a length returns an error instead of panicking

---
 cryptobyte/builder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index e6ccc9f..f8dec09 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -176,6 +176,9 @@ func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuati
 
 	offset := len(b.result)
 	b.add(make([]byte, lenLen)...)
+	if b.err != nil {
+		return
+	}
 
 	if b.inContinuation == nil {
 		b.inContinuation = new(bool)
@@ -251,6 +254,10 @@ func (b *Builder) flushChild() {
 		extraBytes := int(lenLen - 1)
 		if extraBytes != 0 {
 			child.add(make([]byte, extraBytes)...)
+			if child.err != nil {
+				b.err = child.err
+				return
+			}
 			childStart := child.offset + child.pendingLenLen
 			copy(child.result[childStart+extraBytes:], child.result[childStart:])
 		}
-- 
2.43.0


From d12930c2c1451587672d671b5f09916ebd0d5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 22/33] fix: cryptobyte: ReadASN1Boolean reads a BOOLEAN

---
 cryptobyte/asn1.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 431d14e..e2d2c0d 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -226,7 +226,7 @@ func (b *Builder) AddASN1(tag asn1.Tag, f BuilderContinuation) {
 
 func (s *String) ReadASN1Boolean(out *bool) bool {
 	var bytes String
-	if !s.ReadASN1(&bytes, asn1.INTEGER) || len(bytes) != 1 {
+	if !s.ReadASN1(&bytes, asn1.BOOLEAN) || len(bytes) != 1 {
 		return false
 	}
 
@@ -645,13 +645,7 @@ func (s *String) ReadOptionalASN1OctetString(out *[]byte, outPresent *bool, tag
 // ReadOptionalASN1Boolean sets *out to the value of the next ASN.1 BOOLEAN or,
 // if the next bytes are not an ASN.1 BOOLEAN, to the value of defaultValue.
 func (s *String) ReadOptionalASN1Boolean(out *bool, defaultValue bool) bool {
-	var present bool
-	var child String
-	if !s.ReadOptionalASN1(&child, &present, asn1.BOOLEAN) {
-		return false
-	}
-
-	if !present {
+	if !s.PeekASN1Tag(asn1.BOOLEAN) {
 		*out = defaultValue
 		return true
 	}
-- 
2.43.0


From 6feabbb3ea260256c01fa2f5b049f3c4c8bbd609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 23/33] fix: cryptobyte: OBJECT IDENTIFIER components must be
 minimally encoded

---
 cryptobyte/asn1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index e2d2c0d..7481726 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -382,6 +382,10 @@ func (s *String) readBase128Int(out *int) bool {
 		}
 		ret <<= 7
 		b := s.read(1)[0]
+		if i == 0 && b == 0x80 {
+			// a leading zero digit: not the minimal encoding
+			return false
+		}
 		ret |= int(b & 0x7f)
 		if b&0x80 == 0 {
 			*out = ret
-- 
2.43.0


From ea62813d202fa12ce25ec37a21840c4387c23162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 24/33] fix: cryptobyte: reading a negative number of bytes
 fails instead of panicking

---
 cryptobyte/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/string.go b/cryptobyte/string.go
index db3d738..cf7ac86 100644
--- a/cryptobyte/string.go
+++ b/cryptobyte/string.go
@@ -24,7 +24,7 @@ type String []byte
 // read advances a String by n bytes and returns them. If less than n bytes
 // remain, it returns nil.
 func (s *String) read(n int) []byte {
-	if len(*s) < n {
+	if n < 0 || len(*s) < n {
 		return nil
 	}
 	v := (*s)[:n]
-- 
2.43.0


From d30205132412478cbe8449e7de147bdde50df0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 25/33] fix: cryptobyte: a builder whose callback or value
 panicked reports an error

After a recovered panic the unfinished child was dropped or flushed as if it
were complete, and Bytes returned a message with a nil error.
---
 cryptobyte/builder.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cryptobyte/builder.go b/cryptobyte/builder.go
index f8dec09..14e9da9 100644
--- a/cryptobyte/builder.go
+++ b/cryptobyte/builder.go
@@ -146,6 +146,18 @@ func (b *Builder) AddUint32LengthPrefixed(f BuilderContinuation) {
 }
 
 func (b *Builder) callContinuation(f BuilderContinuation, arg *Builder) {
+	returned := false
+	defer func() {
+		if returned {
+			return
+		}
+		// f panicked: what it wrote is incomplete, even if a caller recovers.
+		b.child = nil
+		if b.err == nil {
+			b.err = errors.New("cryptobyte: BuilderContinuation did not return")
+		}
+	}()
+
 	if !*b.inContinuation {
 		*b.inContinuation = true
 
@@ -166,6 +178,7 @@ func (b *Builder) callContinuation(f BuilderContinuation, arg *Builder) {
 	}
 
 	f(arg)
+	returned = true
 }
 
 func (b *Builder) addLengthPrefixed(lenLen int, isASN1 bool, f BuilderContinuation) {
@@ -307,7 +320,14 @@ type MarshalingValue interface {
 // If Marshal returns an error, it is set on the Builder so that subsequent
 // appends don't have an effect.
 func (b *Builder) AddValue(v MarshalingValue) {
+	returned := false
+	defer func() {
+		if !returned && b.err == nil {
+			b.err = errors.New("cryptobyte: MarshalingValue did not return")
+		}
+	}()
 	err := v.Marshal(b)
+	returned = true
 	if err != nil {
 		b.err = err
 	}
-- 
2.43.0


From d069de7498a4f53b2d17700dae29ce1e1f9c1333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 26/33] fix: cryptobyte: refuse an OID whose first two
 components overflow

oid[0]*40 + oid[1] became negative and was encoded as no bytes at all.
---
 cryptobyte/asn1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index 7481726..cdceafa 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -7,6 +7,7 @@ package cryptobyte
 import (
 	encoding_asn1 "encoding/asn1"
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"time"
@@ -156,7 +157,8 @@ func isValidOID(oid encoding_asn1.ObjectIdentifier) bool {
 		}
 	}
 
-	return true
+	// The first two components are encoded as one number.
+	return int64(oid[1]) <= math.MaxInt64-80
 }
 
 func (b *Builder) AddASN1ObjectIdentifier(oid encoding_asn1.ObjectIdentifier) {
-- 
2.43.0


From 908eca40edc541a38506f9e5b3ca7af06cd2393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 27/33] fix: cryptobyte: write a time whose zone has odd
 seconds in UTC

The zone offset is encoded in minutes, so such a time was encoded as an
instant up to 59 seconds off.
---
 cryptobyte/asn1.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index cdceafa..aa39694 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -103,6 +103,10 @@ const generalizedTimeFormatStr = "20060102150405Z0700"
 
 // AddASN1GeneralizedTime appends a DER-encoded ASN.1 GENERALIZEDTIME.
 func (b *Builder) AddASN1GeneralizedTime(t time.Time) {
+	if _, offset := t.Zone(); offset%60 != 0 {
+		// The zone is written as hours and minutes.
+		t = t.UTC()
+	}
 	if t.Year() < 0 || t.Year() > 9999 {
 		b.err = fmt.Errorf("cryptobyte: cannot represent %v as a GeneralizedTime", t)
 		return
-- 
2.43.0


From b784e91ba48d1c836fa1efafb8e07fd71de1ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 28/33] fix: cryptobyte: AddASN1BigInt of -1 panicked

---
 cryptobyte/asn1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cryptobyte/asn1.go b/cryptobyte/asn1.go
index aa39694..ba9b86e 100644
--- a/cryptobyte/asn1.go
+++ b/cryptobyte/asn1.go
@@ -76,7 +76,7 @@ func (b *Builder) AddASN1BigInt(n *big.Int) {
 			for i := range bytes {
 				bytes[i] ^= 0xff
 			}
-			if bytes[0]&0x80 == 0 {
+			if len(bytes) == 0 || bytes[0]&0x80 == 0 {
 				c.add(0xff)
 			}
 			c.add(bytes...)
-- 
2.43.0


From 7a92f75f3034adc33411d50696e2411f70b13ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 29/33] fix: cert: read CRL distribution points with a name
 relative to the issuer

---
 sm2/cert/gmx509.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 7afc0a8..990ba4a 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -670,8 +670,8 @@ type policyInformation struct {
 }
 
 type distributionPointName struct {
-	FullName     []asn1.RawValue  `asn1:"optional,tag:0"`
-	RelativeName pkix.RDNSequence `asn1:"optional,tag:1"`
+	FullName     []asn1.RawValue                   `asn1:"optional,tag:0"`
+	RelativeName pkix.RelativeDistinguishedNameSET `asn1:"optional,tag:1"`
 }
 
 // RFC 5280, 4.2.1.14
-- 
2.43.0


From 7b65f3355912cb8ee0eddb11180822b27d25c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 30/33] fix: cert: refuse domain names with an empty first
 label

---
 sm2/cert/gmx509.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 990ba4a..f69c63f 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -470,6 +470,10 @@ func domainToReverseLabels(domain string) (reverseLabels []string, ok bool) {
 		} else {
 			reverseLabels = append(reverseLabels, domain[i+1:])
 			domain = domain[:i]
+			if i == 0 {
+				// A leading period leaves an empty first label.
+				reverseLabels = append(reverseLabels, "")
+			}
 		}
 	}
 
-- 
2.43.0


From 26df5c8360d2a4f6807012b08d9298291ed8d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 31/33] fix: cert: refuse general names with a tag of another
 class

A [2] of class UNIVERSAL, an INTEGER, was read as a DNS name, and likewise in
authority information access and CRL distribution points.
---
 sm2/cert/gmx509.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f69c63f..f10b92e 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -416,6 +416,21 @@ func parseCSRExtensions(rawAttributes []asn1.RawValue) ([]pkix.Extension, error)
 	return ret, nil
 }
 
+// checkGeneralName reports an error if v is no GeneralName: the alternatives all
+// have context-specific tags, and those that are strings are primitive.
+func checkGeneralName(v asn1.RawValue) error {
+	if v.Class != asn1.ClassContextSpecific {
+		return asn1.StructuralError{Msg: "bad GeneralName class"}
+	}
+	switch v.Tag {
+	case nameTypeEmail, nameTypeDNS, nameTypeURI, nameTypeIP:
+		if v.IsCompound {
+			return asn1.StructuralError{Msg: "constructed GeneralName string"}
+		}
+	}
+	return nil
+}
+
 func forEachSAN(extension []byte, callback func(tag int, data []byte) error) error {
 	// RFC 5280, 4.2.1.6
 
@@ -452,6 +467,9 @@ func forEachSAN(extension []byte, callback func(tag int, data []byte) error) err
 			return err
 		}
 
+		if err := checkGeneralName(v); err != nil {
+			return err
+		}
 		if err := callback(v.Tag, v.Bytes); err != nil {
 			return err
 		}
@@ -1203,6 +1221,9 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 					}
 
 					for _, fullName := range dp.DistributionPoint.FullName {
+						if err := checkGeneralName(fullName); err != nil {
+							return nil, err
+						}
 						if fullName.Tag == 6 {
 							out.CRLDistributionPoints = append(out.CRLDistributionPoints, string(fullName.Bytes))
 						}
@@ -1281,6 +1302,9 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 
 			for _, v := range aia {
 				// GeneralName: uniformResourceIdentifier [6] IA5String
+				if err := checkGeneralName(v.Location); err != nil {
+					return nil, err
+				}
 				if v.Location.Tag != 6 {
 					continue
 				}
-- 
2.43.0


From 1edc512f51fc01dfd30dabe1dd9260dce7d0b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 32/33] fix: cert: refuse basic constraints with a misplaced or
 negative path length

---
 sm2/cert/gmx509.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index f10b92e..7d96a68 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1170,6 +1170,9 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 				} else if len(rest) != 0 {
 					return nil, errors.New("x509: trailing data after X.509 BasicConstraints")
 				}
+				if !validBasicConstraints(e.Value) {
+					return nil, errors.New("x509: invalid BasicConstraints extension")
+				}
 
 				out.BasicConstraintsValid = true
 				out.IsCA = constraints.IsCA
@@ -1327,6 +1330,26 @@ func parseCertificate(in *certificate) (*x509.Certificate, error) {
 	return out, nil
 }
 
+// validBasicConstraints reports whether value holds nothing but a BasicConstraints
+// whose path length is not negative: asn1.Unmarshal ignores what follows the fields
+// it knows, and so a path length written before cA loses cA.
+func validBasicConstraints(value []byte) bool {
+	der := cryptobyte.String(value)
+	var seq cryptobyte.String
+	if !der.ReadASN1(&seq, cryptobyte_asn1.SEQUENCE) || !der.Empty() {
+		return false
+	}
+	var isCA bool
+	if seq.PeekASN1Tag(cryptobyte_asn1.BOOLEAN) && !seq.ReadASN1Boolean(&isCA) {
+		return false
+	}
+	var maxPathLen int
+	if seq.PeekASN1Tag(cryptobyte_asn1.INTEGER) && !seq.ReadASN1Integer(&maxPathLen) {
+		return false
+	}
+	return maxPathLen >= 0 && seq.Empty()
+}
+
 func parseNameConstraintsExtension(out *x509.Certificate, e pkix.Extension) (unhandled bool, err error) {
 	// RFC 5280, 4.2.1.10
 
-- 
2.43.0


From bded856bbf5dfd814c9c795a16d8b7f94fadf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 33/33] fix: cert: a name constraint with a minimum or maximum
 is not understood

Its limits were ignored and the subtree read as if it had none.
---
 sm2/cert/gmx509.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sm2/cert/gmx509.go b/sm2/cert/gmx509.go
index 7d96a68..b347492 100644
--- a/sm2/cert/gmx509.go
+++ b/sm2/cert/gmx509.go
@@ -1385,6 +1385,9 @@ func parseNameConstraintsExtension(out *x509.Certificate, e pkix.Extension) (unh
 		return false, errors.New("x509: empty name constraints extension")
 	}
 
+	minTag := cryptobyte_asn1.Tag(0).ContextSpecific()
+	maxTag := cryptobyte_asn1.Tag(1).ContextSpecific()
+
 	getValues := func(subtrees cryptobyte.String) (dnsNames []string, ips []*net.IPNet, emails, uriDomains []string, err error) {
 		for !subtrees.Empty() {
 			var seq, value cryptobyte.String
@@ -1393,6 +1396,15 @@ func parseNameConstraintsExtension(out *x509.Certificate, e pkix.Extension) (unh
 				!seq.ReadAnyASN1(&value, &tag) {
 				return nil, nil, nil, nil, fmt.Errorf("x509: invalid NameConstraints extension")
 			}
+			if !seq.Empty() {
+				// RFC 5280 uses neither minimum nor maximum, and without them
+				// the subtree would be another one.
+				if !seq.SkipOptionalASN1(minTag) || !seq.SkipOptionalASN1(maxTag) || !seq.Empty() {
+					return nil, nil, nil, nil, fmt.Errorf("x509: invalid NameConstraints extension")
+				}
+				unhandled = true
+				continue
+			}
 
 			var (
 				dnsTag   = cryptobyte_asn1.Tag(2).ContextSpecific()
-- 
2.43.0

