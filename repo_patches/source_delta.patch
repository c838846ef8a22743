From f0b6a384efc396c3ba9f6f550170893c6347356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 01/53] fix: NewRandomInt draws its upper end and survives an
 empty range

---
 core/device/genvoucher.go                    | 2 +-
 core/device/genvoucher_with_provided_keys.go | 2 +-
 core/shared/other.go                         | 5 +++--
 testexec/do.to2.62.execute.go                | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/device/genvoucher.go b/core/device/genvoucher.go
index 781c1f6..0665460 100644
--- a/core/device/genvoucher.go
+++ b/core/device/genvoucher.go
@@ -129,7 +129,7 @@ func NewVirtualDeviceAndVoucher(newDi fdoshared.WawDeviceCredential, voucherSgTy
 
 	// Test params preparation
 	var ovEntriesCount int = fdoshared.NewRandomInt(3, 7)
-	badOvEntryIndex := fdoshared.NewRandomInt(0, ovEntriesCount)
+	badOvEntryIndex := fdoshared.NewRandomInt(0, ovEntriesCount-1)
 
 	var prevEntryPrivKey interface{} = mfgPrivateKey
 	var prevEntryHash fdoshared.HashOrHmac
diff --git a/core/device/genvoucher_with_provided_keys.go b/core/device/genvoucher_with_provided_keys.go
index 6aa440b..a409d5a 100644
--- a/core/device/genvoucher_with_provided_keys.go
+++ b/core/device/genvoucher_with_provided_keys.go
@@ -79,7 +79,7 @@ func NewVirtualDeviceAndVoucherWithKeys(
 
 	// Test params preparation
 	var ovEntriesCount int = fdoshared.NewRandomInt(3, 7)
-	badOvEntryIndex := fdoshared.NewRandomInt(0, ovEntriesCount)
+	badOvEntryIndex := fdoshared.NewRandomInt(0, ovEntriesCount-1)
 
 	var prevEntryPrivKey interface{} = mfgPrivateKey
 	var prevEntryHash fdoshared.HashOrHmac
diff --git a/core/shared/other.go b/core/shared/other.go
index 23124f9..7137ffb 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -260,11 +260,12 @@ func TryCborUnmarshal(bodyBytes []byte, target interface{}) (*FdoError, error) {
 }
 
 func NewRandomInt(min int, max int) int {
-	if min == max {
+	if min >= max {
 		return min
 	}
 
-	maxBint := new(big.Int).SetInt64(int64(max - min))
+	// rand.Int excludes its upper bound, max itself must be drawable
+	maxBint := new(big.Int).SetInt64(int64(max-min) + 1)
 	newRandBint, _ := rand.Int(rand.Reader, maxBint)
 	return min + int(newRandBint.Int64())
 }
diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index eb22bed..723083b 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -91,7 +91,7 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			reqtDB.ReportTest(reqte.Uuid, testId, errTestState)
 
 		default:
-			randomTestIndex := fdoshared.NewRandomInt(0, int(proveOVHdrPayload61.NumOVEntries))
+			randomTestIndex := fdoshared.NewRandomInt(0, int(proveOVHdrPayload61.NumOVEntries)-1)
 			for i := 0; i < int(proveOVHdrPayload61.NumOVEntries); i++ {
 				selectedTestId := testcom.NULL_TEST
 				selectedNextEntry := i
-- 
2.43.0


From 2a83383f101d71741e6642199897e3bfdff48c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 02/53] fix: GetRandomBatch returns distinct members and leaves
 its population alone

---
 core/shared/other.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/shared/other.go b/core/shared/other.go
index 7137ffb..914ec27 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -83,17 +83,18 @@ func (h FdoGuidList) GetRandomBatch(size int) FdoGuidList {
 		return FdoGuidList{}
 	}
 
-	randomLoc := NewRandomInt(0, listLen-1)
+	if size > listLen {
+		size = listLen
+	}
 
-	if randomLoc+size > listLen {
-		l1len := listLen - randomLoc
-		l1 := h[randomLoc : randomLoc+l1len-1]
-		l2 := h[0 : size-len(l1)]
+	randomLoc := NewRandomInt(0, listLen-1)
 
-		return append(l1, l2...)
+	batch := FdoGuidList{}
+	for i := 0; i < size; i++ {
+		batch = append(batch, h[(randomLoc+i)%listLen])
 	}
 
-	return h[randomLoc : randomLoc+size]
+	return batch
 }
 
 func (h FdoGuidList) Contains(guid FdoGuid) bool {
-- 
2.43.0


From fdc203e9848390e9720c82b7fac6e5d87a40e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 03/53] fix: picking from an empty test population does not
 crash

---
 core/shared/other.go                  | 8 ++++++++
 core/shared/testcom/request/rvt.db.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/shared/other.go b/core/shared/other.go
index 914ec27..8b8512b 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -154,6 +154,10 @@ func (h *FdoSeedIDs) GetRandomTestGuid() FdoGuid {
 		randomGuids = append(randomGuids, v[randLoc])
 	}
 
+	if len(randomGuids) == 0 {
+		return FdoGuid{}
+	}
+
 	randLoc := NewRandomInt(0, len(randomGuids)-1)
 	return randomGuids[randLoc]
 }
@@ -162,6 +166,10 @@ func (h *FdoSeedIDs) GetRandomTestGuidForSgType(sgType SgType) FdoGuid {
 	sh := *h
 	var randomGuids []FdoGuid = sh[sgType]
 
+	if len(randomGuids) == 0 {
+		return FdoGuid{}
+	}
+
 	randLoc := NewRandomInt(0, len(randomGuids)-1)
 	return randomGuids[randLoc]
 }
diff --git a/core/shared/testcom/request/rvt.db.go b/core/shared/testcom/request/rvt.db.go
index 08c03e5..ee8fe3b 100644
--- a/core/shared/testcom/request/rvt.db.go
+++ b/core/shared/testcom/request/rvt.db.go
@@ -14,7 +14,7 @@ type TestVouchers map[testcom.FDOTestID][]fdoshared.DeviceCredAndVoucher
 
 func (h *TestVouchers) GetVoucher(testId testcom.FDOTestID) (*fdoshared.DeviceCredAndVoucher, error) {
 	for k, v := range *h {
-		if k == testId {
+		if k == testId && len(v) > 0 {
 			randVoucherId := fdoshared.NewRandomInt(0, len(v)-1)
 
 			return &v[randVoucherId], nil
-- 
2.43.0


From 21b889fd3e15199e1fd0866f9dd78e163cc45560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 04/53] fix: GetRandomSelection of none returns none

---
 core/shared/other.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/shared/other.go b/core/shared/other.go
index 8b8512b..aaa2a70 100644
--- a/core/shared/other.go
+++ b/core/shared/other.go
@@ -114,17 +114,13 @@ func (h FdoGuidList) GetRandomSelection(size int) FdoGuidList {
 		return h
 	}
 
-	for {
+	for len(randomPick) < size {
 		randomId := NewRandomInt(0, len(h)-1)
 		randomGuid := h[randomId]
 
 		if !randomPick.Contains(randomGuid) {
 			randomPick = append(randomPick, randomGuid)
 		}
-
-		if len(randomPick) >= size {
-			break
-		}
 	}
 
 	return randomPick
-- 
2.43.0


From bb0e6b9b2301ea52e6977161aad903252152ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 05/53] fix: CCM encodes the length of long associated data as
 RFC 3610 does

---
 core/shared/ccm/ccm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/shared/ccm/ccm.go b/core/shared/ccm/ccm.go
index 6589546..1279133 100644
--- a/core/shared/ccm/ccm.go
+++ b/core/shared/ccm/ccm.go
@@ -144,9 +144,11 @@ func (c *ccm) tag(nonce, plaintext, adata []byte) ([]byte, error) {
 		if n <= 0xfeff {
 			binary.BigEndian.PutUint16(block[:i], uint16(n))
 		} else {
-			block[0] = 0xfe
+			// RFC 3610: 0xfffe announces a 32 bit length, 0xffff a 64 bit length
+			block[0] = 0xff
 			block[1] = 0xff
 			if n < uint64(1<<32) {
+				block[1] = 0xfe
 				i = 2 + 4
 				binary.BigEndian.PutUint32(block[2:i], uint32(n))
 			} else {
-- 
2.43.0


From 5bb81b52b5634d606cff600e6f8e05512790b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 06/53] fix: cipher suite key and IV lengths are those of the
 algorithms

---
 core/shared/enc.crypto.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index 7009d77..d160f61 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -67,7 +67,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA384,
-		NonceIvLen: 32,
+		NonceIvLen: 16,
 		SekLen:     32,
 		SvkLen:     64,
 	},
@@ -77,7 +77,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA384,
-		NonceIvLen: 32,
+		NonceIvLen: 16,
 		SekLen:     32,
 		SvkLen:     64,
 	},
@@ -105,7 +105,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA256,
 		HashAlg:    HASH_SHA256,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 32,
+		SevkLength: 16,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
@@ -115,7 +115,7 @@ var CipherSuitesInfoMap map[CipherSuiteName]CipherInfo = map[CipherSuiteName]Cip
 		HmacAlg:    HASH_HMAC_SHA384,
 		HashAlg:    HASH_SHA384,
 		KdfHmacAlg: HASH_HMAC_SHA256,
-		SevkLength: 16,
+		SevkLength: 32,
 		NonceIvLen: 13,
 		TagSize:    16,
 	},
-- 
2.43.0


From 1698c11debfdcf89d19122576cc150e1da07691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 07/53] fix: hash negotiation of two EPID types yields defined
 algorithms

---
 core/shared/hashing.crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/shared/hashing.crypto.go b/core/shared/hashing.crypto.go
index e90e2d9..de88ebf 100644
--- a/core/shared/hashing.crypto.go
+++ b/core/shared/hashing.crypto.go
@@ -159,8 +159,8 @@ func NegotiateHashHmacTypes(deviceSg SgType, ownerSgType SgType) HashHmacTypes {
 		HmacType: HASH_HMAC_SHA384,
 	}
 
-	if deviceSg == ownerSgType {
-		return SgToHashHmacMap[deviceSg]
+	if sameSgInfo, ok := SgToHashHmacMap[deviceSg]; ok && deviceSg == ownerSgType {
+		return sameSgInfo
 	} else if deviceSg == StEPID10 || deviceSg == StEPID11 {
 		if ownerSgType == StSECP384R1 {
 			return SgToHashHmacMap[StSECP384R1]
-- 
2.43.0


From 181ad9b26a41e9866a6b0fbcfcf1fa4f8f95d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 08/53] fix: a signature key must be of the declared key type

---
 core/shared/signing.crypto.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/shared/signing.crypto.go b/core/shared/signing.crypto.go
index facc13e..aff9155 100644
--- a/core/shared/signing.crypto.go
+++ b/core/shared/signing.crypto.go
@@ -3,6 +3,7 @@ package fdoshared
 import (
 	"crypto"
 	"crypto/ecdsa"
+	"crypto/elliptic"
 	"crypto/rand"
 	"crypto/rsa"
 	"crypto/sha256"
@@ -85,6 +86,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 			return errors.New("error verifying SECP256R1 cose signature. Could not cast pubKey instance to ECDSA PubKey")
 		}
 
+		if pubKeyCasted.Curve != elliptic.P256() {
+			return errors.New("error verifying SECP256R1 cose signature. Public key curve is not P-256")
+		}
+
 		payloadHash := sha256.Sum256(payload)
 
 		r := new(big.Int)
@@ -108,6 +113,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 			return errors.New("error verifying SECP384R1 cose signature. Could not cast pubKey instance to ECDSA PubKey")
 		}
 
+		if pubKeyCasted.Curve != elliptic.P384() {
+			return errors.New("error verifying SECP384R1 cose signature. Public key curve is not P-384")
+		}
+
 		payloadHash := sha512.Sum384(payload)
 
 		r := new(big.Int)
@@ -129,6 +138,10 @@ func VerifySignature(payload []byte, signature []byte, publicKeyInst interface{}
 
 		rsaPubKeyBits := rsaPubKeyCasted.N.BitLen()
 
+		if pkType == RSA2048RESTR && rsaPubKeyBits != 2048 {
+			return fmt.Errorf("%d is an unsupported public key length for RSA2048RESTR", rsaPubKeyBits)
+		}
+
 		var hashingAlg crypto.Hash
 		var payloadHash []byte
 		switch rsaPubKeyBits {
-- 
2.43.0


From 8ff50964e88614cefadcc46f6e86a74d44e14bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 09/53] fix: COSE RSA keys of any size convert, malformed COSE
 keys are refused

---
 core/shared/signing.cose.go | 38 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/core/shared/signing.cose.go b/core/shared/signing.cose.go
index 74b743c..93abebc 100644
--- a/core/shared/signing.cose.go
+++ b/core/shared/signing.cose.go
@@ -2,9 +2,12 @@ package fdoshared
 
 import (
 	"crypto"
+	"crypto/rsa"
+	"crypto/x509"
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math/big"
 )
 
 type CoseConsts int
@@ -71,9 +74,15 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 
 			xy := append(x, y...)
 			rawPublicKey = append([]byte{0x04}, xy...)
-			algId = cosePubKey.CrvOrN.(CoseAlg)
+			algId, ok = cosePubKey.CrvOrN.(CoseAlg)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Unexpected type of the curve")
+			}
 		case CoseRSA:
-			rawPublicKey = cosePubKey.CrvOrN.([]byte)
+			rawPublicKey, ok = cosePubKey.CrvOrN.([]byte)
+			if !ok {
+				return nil, errors.New("error converting COSE public key. Unexpected type of the modulus")
+			}
 			algId = cosePubKey.Alg
 		case CoseOKP:
 			return nil, errors.New("unsupported COSE key type: OKP")
@@ -96,27 +105,10 @@ func CoseKeyToX509(pubKey FdoPublicKey) ([]byte, error) {
 		buff, _ := hex.DecodeString("30819b301006072a8648ce3d020106052b8104002303818600")
 		return append(buff, rawPublicKey...), nil
 	case CA_PKCS1_SHA256, CA_PKCS1_SHA384, CA_PKCS1_SHA512:
-		if len(rawPublicKey) < 512 { // 2080 key
-			pkcsHeader, _ := hex.DecodeString("30820122300d06092a864886f70d01010105000382010f003082010a0282010100")
-			pkcsEXP, _ := hex.DecodeString("0203010001")
-
-			if len(rawPublicKey) > 256 {
-				rawPublicKey = rawPublicKey[1:]
-			}
-
-			return append(append(pkcsHeader, rawPublicKey...), pkcsEXP...), nil
-		} else if len(rawPublicKey) >= 512 || len(rawPublicKey) == 513 {
-			pkcsHeader, _ := hex.DecodeString("30820222300d06092a864886f70d01010105000382020f003082020a0282020100")
-			pkcsEXP, _ := hex.DecodeString("0203010001")
-
-			if len(rawPublicKey) > 512 {
-				rawPublicKey = rawPublicKey[1:]
-			}
-
-			return append(append(pkcsHeader, rawPublicKey...), pkcsEXP...), nil
-		} else {
-			return nil, fmt.Errorf("unsupported key size: %d", len(rawPublicKey))
-		}
+		return x509.MarshalPKIXPublicKey(&rsa.PublicKey{
+			N: new(big.Int).SetBytes(rawPublicKey),
+			E: 65537,
+		})
 	default:
 		return nil, fmt.Errorf("unsupported COSE key type: %d", algId)
 	}
-- 
2.43.0


From 475b46d70adef816ff9649c69c6980c1218761cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 10/53] fix: a voucher without a certificate chain hash is
 refused without a crash

---
 core/shared/voucher.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/voucher.go b/core/shared/voucher.go
index 5af3094..af9dc13 100644
--- a/core/shared/voucher.go
+++ b/core/shared/voucher.go
@@ -71,6 +71,10 @@ func (h OwnershipVoucher) Validate() error {
 		return errors.New("OVDeviceInfo is empty")
 	}
 
+	if ovHeader.OVDevCertChainHash == nil {
+		return errors.New("OVDevCertChainHash is missing")
+	}
+
 	ovDevCertChainCert, err := ComputeOVDevCertChainHash(*h.OVDevCertChain, ovHeader.OVDevCertChainHash.Type)
 	if err != nil {
 		return errors.New("could not compute OVDevCertChain hash ")
-- 
2.43.0


From 1c0f7c4f1ca7ec7f5d8eb9d512eb51013d41fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:28 +0000
Subject: [PATCH 11/53] fix: an unknown session token is refused without a
 crash

---
 core/do/dbs/session.db.go | 2 +-
 core/rv/session.db.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 47dcc1a..124402a 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -131,7 +131,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("The session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a6d5173..a9e0020 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -86,7 +86,7 @@ func (h *SessionDB) GetSessionEntry(entryId []byte) (*SessionEntry, error) {
 
 	item, err := dbtxn.Get(sessionEntryId)
 	if err != nil && errors.Is(err, badger.ErrKeyNotFound) {
-		return nil, nil
+		return nil, errors.New("The session entry does not exist")
 	} else if err != nil {
 		return nil, errors.New("Failed locating entry. The error is: " + err.Error())
 	}
-- 
2.43.0


From ebe100acfcbcec0a49ca7ba7917da5dc333a6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 12/53] fix: updated protocol sessions keep expiring

---
 core/do/dbs/session.db.go | 3 ++-
 core/rv/session.db.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/do/dbs/session.db.go b/core/do/dbs/session.db.go
index 124402a..3a6744d 100644
--- a/core/do/dbs/session.db.go
+++ b/core/do/dbs/session.db.go
@@ -110,7 +110,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10) // An update renews the 10 minutes, never lifts them
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
diff --git a/core/rv/session.db.go b/core/rv/session.db.go
index a9e0020..1424d63 100644
--- a/core/rv/session.db.go
+++ b/core/rv/session.db.go
@@ -65,7 +65,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(time.Minute * 10) // An update renews the 10 minutes, never lifts them
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From 68b472ff9fab506ab119866c99125e1cdf80fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 13/53] fix: updated login sessions keep expiring

---
 dbs/session.db.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbs/session.db.go b/dbs/session.db.go
index 44a8f8f..1741005 100644
--- a/dbs/session.db.go
+++ b/dbs/session.db.go
@@ -79,7 +79,8 @@ func (h *SessionDB) UpdateSessionEntry(entryId []byte, sessionInst SessionEntry)
 		return errors.New("Failed to marshal session. The error is: " + err.Error())
 	}
 
-	err = dbtxn.Set(sessionEntryId, sessionInstBytes)
+	entry := badger.NewEntry(sessionEntryId, sessionInstBytes).WithTTL(MAX_SESSION_TIME)
+	err = dbtxn.SetEntry(entry)
 	if err != nil {
 		return errors.New("Failed to create saving inst. The error is: " + err.Error())
 	}
-- 
2.43.0


From e69f162e8fe2c6b2a9b0c230de9ecb31f50d949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 14/53] fix: the reply to a foreign content type is a decodable
 FDO error

---
 core/shared/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/shared/transport.go b/core/shared/transport.go
index eab47ad..a9969a3 100644
--- a/core/shared/transport.go
+++ b/core/shared/transport.go
@@ -51,7 +51,7 @@ func CheckHeaders(w http.ResponseWriter, r *http.Request, currentCmd FdoCmd) boo
 
 	receivedContentType := r.Header.Get("Content-Type")
 	if receivedContentType != CONTENT_TYPE_CBOR {
-		RespondFDOError(w, r, MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected application type \"%s\". Received \"%s\".", CONTENT_TYPE_CBOR, receivedContentType), http.StatusUnsupportedMediaType)
+		RespondFDOError(w, r, MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("Expected application type \"%s\". Received %q.", CONTENT_TYPE_CBOR, receivedContentType), http.StatusUnsupportedMediaType)
 		return false
 	}
 
-- 
2.43.0


From ad7ddac65220d774fa3f3559793339df12db3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 15/53] fix: encrypted messages without algorithm or with a
 wrong IV are refused without a crash

---
 core/shared/enc.crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/shared/enc.crypto.go b/core/shared/enc.crypto.go
index d160f61..526550e 100644
--- a/core/shared/enc.crypto.go
+++ b/core/shared/enc.crypto.go
@@ -371,11 +371,14 @@ func decryptETM(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *innerProtected.Alg != int(algInfo.CryptoAlg) {
+	if innerProtected.Alg == nil || *innerProtected.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := inner.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! The IV is missing or has a wrong length")
+	}
 
 	block, err := aes.NewCipher(sek)
 	if err != nil {
@@ -490,11 +493,14 @@ func decryptEMB(encrypted []byte, sessionKeyInfo SessionKeyInfo, cipherSuite Cip
 		return nil, errors.New("Error decoding protected header. " + err.Error())
 	}
 
-	if *protectedHeader.Alg != int(algInfo.CryptoAlg) {
+	if protectedHeader.Alg == nil || *protectedHeader.Alg != int(algInfo.CryptoAlg) {
 		return nil, errors.New("error! Encryption algorithms don't match")
 	}
 
 	nonceIvBytes := embInst.Unprotected.AESIV
+	if nonceIvBytes == nil || len(*nonceIvBytes) != algInfo.NonceIvLen {
+		return nil, errors.New("error! The IV is missing or has a wrong length")
+	}
 
 	block, err := aes.NewCipher(sevk)
 	if err != nil {
-- 
2.43.0


From f68983ad4c61cd7c22b9597c8fa9a072689fd3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:22 +0000
Subject: [PATCH 16/53] fix: ECDH key exchange coordinates have their fixed
 length and are checked

---
 core/shared/kex.crypto.go | 104 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 48 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index a42017b..df7560c 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -158,12 +158,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, coordinateLen(ownerKey.Curve)))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, coordinateLen(ownerKey.Curve)))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -192,12 +192,12 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 		binary.BigEndian.PutUint16(ownerRandomLenBytes, uint16(len(ownerRandom)))
 		ownerBlock := append(ownerRandomLenBytes, ownerRandom...)
 
-		xBytes := ownerKey.X.Bytes()
+		xBytes := ownerKey.X.FillBytes(make([]byte, coordinateLen(ownerKey.Curve)))
 		xLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(xLenBytes, uint16(len(xBytes)))
 		xBlock := append(xLenBytes, xBytes...)
 
-		yBytes := ownerKey.Y.Bytes()
+		yBytes := ownerKey.Y.FillBytes(make([]byte, coordinateLen(ownerKey.Curve)))
 		yLenBytes := make([]byte, 2)
 		binary.BigEndian.PutUint16(yLenBytes, uint16(len(yBytes)))
 		yBlock := append(yLenBytes, yBytes...)
@@ -245,6 +245,40 @@ func GenerateXABKeyExchange(kexSuitName KexSuiteName, ownerPubKey *FdoPublicKey)
 	}
 }
 
+// coordinateLen is the fixed length of an encoded coordinate of the curve
+func coordinateLen(curve elliptic.Curve) int {
+	return (curve.Params().BitSize + 7) / 8
+}
+
+// splitECDHKeyExchange decodes len(x) || x || len(y) || y || len(random) || random
+func splitECDHKeyExchange(curve elliptic.Curve, randomLen int, keyExchange []byte) (*ecdsa.PublicKey, []byte, error) {
+	var blocks [3][]byte
+	for i, blockLen := range []int{coordinateLen(curve), coordinateLen(curve), randomLen} {
+		if len(keyExchange) < 2+blockLen || int(binary.BigEndian.Uint16(keyExchange)) != blockLen {
+			return nil, nil, fmt.Errorf("expected a block of %d bytes", blockLen)
+		}
+
+		blocks[i] = keyExchange[2 : 2+blockLen : 2+blockLen]
+		keyExchange = keyExchange[2+blockLen:]
+	}
+
+	if len(keyExchange) != 0 {
+		return nil, nil, errors.New("unexpected trailing bytes")
+	}
+
+	pubKey := ecdsa.PublicKey{
+		Curve: curve,
+		X:     new(big.Int).SetBytes(blocks[0]),
+		Y:     new(big.Int).SetBytes(blocks[1]),
+	}
+
+	if !curve.IsOnCurve(pubKey.X, pubKey.Y) {
+		return nil, nil, errors.New("the point is not on the curve")
+	}
+
+	return &pubKey, blocks[2], nil
+}
+
 func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, ownerPrivateKey interface{}) (*SessionKeyInfo, error) {
 	switch kexA.KexSuit {
 	case KEX_DHKEXid14, KEX_DHKEXid15:
@@ -268,32 +302,19 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		}, nil
 
 	case KEX_ECDH256:
-		expectedLen := 2 + 32 + 2 + 32 + 2 + KEX_ECDH256_RANDOM_LEN
-		if len(xBKeyExchange) != expectedLen {
-			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH256 length. Expected %d bytes long", expectedLen)
+		devicePubKey, xbRandom, err := splitECDHKeyExchange(elliptic.P256(), KEX_ECDH256_RANDOM_LEN, xBKeyExchange)
+		if err != nil {
+			return nil, fmt.Errorf("error decoding xBKeyExchange for ECDH256. %s", err.Error())
 		}
 
-		deviceX := xBKeyExchange[2:34]
-		deviceY := xBKeyExchange[36:68]
-		xbRandom := xBKeyExchange[70:86]
-
-		devicePubKey := ecdsa.PublicKey{
-			Curve: elliptic.P256(),
-			X:     new(big.Int).SetBytes(deviceX),
-			Y:     new(big.Int).SetBytes(deviceY),
+		ownerPubKey, xaRandom, err := splitECDHKeyExchange(elliptic.P256(), KEX_ECDH256_RANDOM_LEN, kexA.XAKeyExchange)
+		if err != nil {
+			return nil, fmt.Errorf("error decoding xAKeyExchange for ECDH256. %s", err.Error())
 		}
 
-		ownerX := kexA.XAKeyExchange[2:34]
-		ownerY := kexA.XAKeyExchange[36:68]
-		xaRandom := kexA.XAKeyExchange[70:86]
-
 		ownerPrivateKey := &ecdsa.PrivateKey{
-			PublicKey: ecdsa.PublicKey{
-				Curve: elliptic.P256(),
-				X:     new(big.Int).SetBytes(ownerX),
-				Y:     new(big.Int).SetBytes(ownerY),
-			},
-			D: new(big.Int).SetBytes(kexA.Private),
+			PublicKey: *ownerPubKey,
+			D:         new(big.Int).SetBytes(kexA.Private),
 		}
 
 		Shx, _ := ownerPrivateKey.PublicKey.Curve.ScalarMult(devicePubKey.X, devicePubKey.Y, ownerPrivateKey.D.Bytes())
@@ -305,7 +326,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, coordinateLen(elliptic.P256()))), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
@@ -313,32 +334,19 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 		}, nil
 
 	case KEX_ECDH384:
-		expectedLen := 2 + 48 + 2 + 48 + 2 + KEX_ECDH384_RANDOM_LEN
-		if len(xBKeyExchange) != expectedLen {
-			return nil, fmt.Errorf("unexpected xBKeyExchange for ECDH384 length. Expected %d bytes long", expectedLen)
+		devicePubKey, xbRandom, err := splitECDHKeyExchange(elliptic.P384(), KEX_ECDH384_RANDOM_LEN, xBKeyExchange)
+		if err != nil {
+			return nil, fmt.Errorf("error decoding xBKeyExchange for ECDH384. %s", err.Error())
 		}
 
-		deviceX := xBKeyExchange[2:50]
-		deviceY := xBKeyExchange[52:100]
-		xbRandom := xBKeyExchange[102:150]
-
-		devicePubKey := ecdsa.PublicKey{
-			Curve: elliptic.P384(),
-			X:     new(big.Int).SetBytes(deviceX),
-			Y:     new(big.Int).SetBytes(deviceY),
+		ownerPubKey, xaRandom, err := splitECDHKeyExchange(elliptic.P384(), KEX_ECDH384_RANDOM_LEN, kexA.XAKeyExchange)
+		if err != nil {
+			return nil, fmt.Errorf("error decoding xAKeyExchange for ECDH384. %s", err.Error())
 		}
 
-		ownerX := kexA.XAKeyExchange[2:50]
-		ownerY := kexA.XAKeyExchange[52:100]
-		xaRandom := kexA.XAKeyExchange[102:150]
-
 		ownerPrivateKey := &ecdsa.PrivateKey{
-			PublicKey: ecdsa.PublicKey{
-				Curve: elliptic.P384(),
-				X:     new(big.Int).SetBytes(ownerX),
-				Y:     new(big.Int).SetBytes(ownerY),
-			},
-			D: new(big.Int).SetBytes(kexA.Private),
+			PublicKey: *ownerPubKey,
+			D:         new(big.Int).SetBytes(kexA.Private),
 		}
 
 		Shx, _ := ownerPrivateKey.PublicKey.Curve.ScalarMult(devicePubKey.X, devicePubKey.Y, ownerPrivateKey.D.Bytes())
@@ -350,7 +358,7 @@ func DeriveSessionKey(kexA KeXParams, xBKeyExchange []byte, isDevice bool, owner
 			randomSuffix = append(xbRandom, xaRandom...)
 		}
 
-		shSe := append(Shx.Bytes(), randomSuffix...)
+		shSe := append(Shx.FillBytes(make([]byte, coordinateLen(elliptic.P384()))), randomSuffix...)
 
 		return &SessionKeyInfo{
 			ShSe:        shSe,
-- 
2.43.0


From f155db219e4493ba45c87cebff07cb71c4d4c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 17/53] fix: asymmetric key exchange with an owner key that is
 not RSA is refused without a crash

---
 core/shared/kex.crypto.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/shared/kex.crypto.go b/core/shared/kex.crypto.go
index df7560c..8e52c2f 100644
--- a/core/shared/kex.crypto.go
+++ b/core/shared/kex.crypto.go
@@ -398,8 +398,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 		return nil, errors.New("error parsing PKIX X509 Public Key. " + err.Error())
 	}
 
+	rsaPubKey, ok := pubKeyInst.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("error wrapping OAEP. The owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pubKeyInst.(*rsa.PublicKey), message, []byte{})
+	ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, rsaPubKey, message, []byte{})
 	if err != nil {
 		return nil, errors.New("error wrapping OAEP. " + err.Error())
 	}
@@ -408,8 +413,13 @@ func WrapOAEP(message []byte, ownerPubKey FdoPublicKey) ([]byte, error) {
 }
 
 func UnwrapOAEP(ciphertext []byte, privateKeyInterface interface{}) ([]byte, error) {
+	rsaPrivateKey, ok := privateKeyInterface.(*rsa.PrivateKey)
+	if !ok {
+		return nil, errors.New("error unwrapping OAEP. The owner key is not an RSA key")
+	}
+
 	hash := sha256.New()
-	message, err := rsa.DecryptOAEP(hash, rand.Reader, privateKeyInterface.(*rsa.PrivateKey), ciphertext, []byte{})
+	message, err := rsa.DecryptOAEP(hash, rand.Reader, rsaPrivateKey, ciphertext, []byte{})
 	if err != nil {
 		return nil, errors.New("error unwrapping OAEP. " + err.Error())
 	}
-- 
2.43.0


From 6513a95e0a94eb11f228be9ba90ab45d56e3633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 18/53] fix: accept rendezvous directives with flag variables,
 which carry no value

---
 core/shared/rvinfo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 3490d60..852f08b 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -109,8 +109,13 @@ func (h *RendezvousDirective) Validate() error {
 			return fmt.Errorf("duplicate key (%d) in RendezvousInstrList", instr.Key)
 		}
 
-		if instr.Key.IsBoolean() && instr.Value != nil {
-			return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+		if instr.Key.IsBoolean() {
+			if len(instr.Value) != 0 {
+				return fmt.Errorf("boolean key (%d) has non-nil value", instr.Key)
+			}
+
+			recordedKeys[instr.Key]++
+			continue
 		}
 
 		// Is valid cbor
-- 
2.43.0


From 1b3d083d6d5844e446305f3402ab977d95fcd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 19/53] fix: reject rendezvous values that are not of the type
 their variable prescribes

---
 core/shared/rvinfo.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index 852f08b..b4b044f 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -92,6 +92,20 @@ func NewRendezvousInstr(key RVVariable, val interface{}) RendezvousInstr {
 	}
 }
 
+// decodeValue decodes the value into target, which must be of the type the key prescribes.
+func (h RendezvousInstr) decodeValue(target interface{}) error {
+	// CBOR null and undefined decode into anything and would leave target at its default
+	if len(h.Value) == 1 && (h.Value[0] == 0xf6 || h.Value[0] == 0xf7) {
+		return fmt.Errorf("RVInstr (%d) has no value", h.Key)
+	}
+
+	if err := CborCust.Unmarshal(h.Value, target); err != nil {
+		return fmt.Errorf("error decoding RVInstr (%d) value. %s", h.Key, err.Error())
+	}
+
+	return nil
+}
+
 type RendezvousDirective []RendezvousInstr
 
 func (h *RendezvousDirective) AddInstr(instr RendezvousInstr) {
@@ -246,7 +260,9 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVOwnerOnly = true
 		case RVIPAddress:
 			var ipAddressBytes []byte
-			CborCust.Unmarshal(instr.Value, &ipAddressBytes)
+			if err := instr.decodeValue(&ipAddressBytes); err != nil {
+				return rvib, err
+			}
 
 			ipv4addr, err := FdoIPAddressFromBytes(ipAddressBytes)
 			if err != nil {
@@ -256,42 +272,45 @@ func NewMappedRVDirective(instrList RendezvousDirective) (MappedRVDirective, err
 			rvib.RVIPAddresses = append(rvib.RVIPAddresses, ipv4addr)
 		case RVDevPort:
 			rvib.RVDevPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVDevPort)
+			err = instr.decodeValue(rvib.RVDevPort)
 		case RVOwnerPort:
 			rvib.RVOwnerPort = new(uint16)
-			CborCust.Unmarshal(instr.Value, rvib.RVOwnerPort)
+			err = instr.decodeValue(rvib.RVOwnerPort)
 		case RVDns:
 			rvib.RVDns = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVDns)
+			err = instr.decodeValue(rvib.RVDns)
 		case RVSvCertHash:
 			rvib.RVSvCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVSvCertHash)
+			err = instr.decodeValue(rvib.RVSvCertHash)
 		case RVClCertHash:
 			rvib.RVClCertHash = new(HashOrHmac)
-			CborCust.Unmarshal(instr.Value, rvib.RVClCertHash)
+			err = instr.decodeValue(rvib.RVClCertHash)
 		case RVUserInput:
 			rvib.RVUserInput = true
 		case RVWifiSsid:
 			rvib.RVWifiSsid = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiSsid)
+			err = instr.decodeValue(rvib.RVWifiSsid)
 		case RVWifiPw:
 			rvib.RVWifiPw = new(string)
-			CborCust.Unmarshal(instr.Value, rvib.RVWifiPw)
+			err = instr.decodeValue(rvib.RVWifiPw)
 		case RVMedium:
 			rvib.RVMedium = new(RVMediumValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVMedium)
+			err = instr.decodeValue(rvib.RVMedium)
 		case RVProtocol:
 			rvib.RVProtocol = new(RVProtocolValue)
-			CborCust.Unmarshal(instr.Value, rvib.RVProtocol)
+			err = instr.decodeValue(rvib.RVProtocol)
 		case RVDelaysec:
 			rvib.RVDelaysec = new(uint32)
-			CborCust.Unmarshal(instr.Value, rvib.RVDelaysec)
+			err = instr.decodeValue(rvib.RVDelaysec)
 		case RVBypass:
 			rvib.RVBypass = true
 		case RVExtRV:
 			rvib.RVExtRV = new([]interface{})
-			CborCust.Unmarshal(instr.Value, rvib.RVExtRV)
+			err = instr.decodeValue(rvib.RVExtRV)
+		}
 
+		if err != nil {
+			return rvib, err
 		}
 	}
 
-- 
2.43.0


From 3767eec5200350fbf6d56da01e61518426e1431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 20/53] fix: owner URLs follow the directive's protocol and
 bracket IPv6 addresses

---
 core/shared/rvinfo.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/shared/rvinfo.go b/core/shared/rvinfo.go
index b4b044f..92fb7dd 100644
--- a/core/shared/rvinfo.go
+++ b/core/shared/rvinfo.go
@@ -3,6 +3,8 @@ package fdoshared
 import (
 	"errors"
 	"fmt"
+	"net"
+	"strconv"
 )
 
 type RVMediumValue uint8
@@ -226,18 +228,27 @@ func (h *MappedRVDirective) Validate() error {
 func (h *MappedRVDirective) GetOwnerUrls() []string {
 	var result []string
 
+	scheme := "https"
 	selectedPort := uint16(443)
 
+	if h.RVProtocol != nil && *h.RVProtocol == RVProtHttp {
+		scheme = "http"
+		selectedPort = 80
+	}
+
 	if h.RVOwnerPort != nil {
 		selectedPort = *h.RVOwnerPort
 	}
 
+	// JoinHostPort puts IPv6 addresses in brackets
+	port := strconv.Itoa(int(selectedPort))
+
 	if h.RVDns != nil {
-		result = append(result, fmt.Sprintf("https://%s:%d", *h.RVDns, selectedPort))
+		result = append(result, scheme+"://"+net.JoinHostPort(*h.RVDns, port))
 	}
 
 	for _, ipAddr := range h.RVIPAddresses {
-		result = append(result, fmt.Sprintf("https://%s:%d", ipAddr.String(), selectedPort))
+		result = append(result, scheme+"://"+net.JoinHostPort(ipAddr.String(), port))
 	}
 
 	return result
-- 
2.43.0


From fe5b6381c3287b501e4bcb18b42368cda656ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 21/53] fix: reset users deletes every user instead of
 panicking on the open iterator

---
 dbs/user.db.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dbs/user.db.go b/dbs/user.db.go
index 8bd1558..f1b9b87 100644
--- a/dbs/user.db.go
+++ b/dbs/user.db.go
@@ -83,22 +83,27 @@ func (h *UserTestDB) ResetUsers() error {
 	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
 		Prefix: h.prefix,
 	})
-	defer iterTxn.Close()
+
+	var keys [][]byte
 	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
 
+	// The transaction can only be committed once the iterator is closed
+	iterTxn.Close()
+
+	for _, k := range keys {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creater delete req... " + hex.EncodeToString(k))
+			return errors.New("Failed to create delete request for " + hex.EncodeToString(k) + ". The error is: " + err.Error())
 		}
+	}
 
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete req... " + hex.EncodeToString(k))
-		}
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed to commit the deletion of users. The error is: " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From a2f060e444926dd4548b34ade5a44d3ce1f9aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 22/53] fix: reset listenerdb deletes the listener entries and
 their mappings

---
 core/shared/testcom/dbs/listener.db.go | 29 ++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/core/shared/testcom/dbs/listener.db.go b/core/shared/testcom/dbs/listener.db.go
index f85ef2f..2ad66a9 100644
--- a/core/shared/testcom/dbs/listener.db.go
+++ b/core/shared/testcom/dbs/listener.db.go
@@ -169,24 +169,31 @@ func (h *ListenerTestDB) ResetDB() error {
 	dbtxn := h.db.NewTransaction(true)
 	defer dbtxn.Discard()
 
-	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{})
-	defer iterTxn.Close()
-	for iterTxn.Rewind(); iterTxn.ValidForPrefix(h.prefix) || iterTxn.ValidForPrefix(h.mapperGuidPrefix); iterTxn.Next() {
-		item := iterTxn.Item()
-		k := item.Key()
+	// The GUID mapping prefix starts with the entry prefix, so both are covered
+	iterTxn := dbtxn.NewIterator(badger.IteratorOptions{
+		Prefix: h.prefix,
+	})
+
+	var keys [][]byte
+	for iterTxn.Rewind(); iterTxn.Valid(); iterTxn.Next() {
+		keys = append(keys, iterTxn.Item().KeyCopy(nil))
+	}
+
+	// The transaction can only be committed once the iterator is closed
+	iterTxn.Close()
 
+	for _, k := range keys {
 		log.Println("Deleting... " + hex.EncodeToString(k))
 
 		err := dbtxn.Delete(k)
 		if err != nil {
-			log.Println("Error creating delete mapping... " + hex.EncodeToString(k))
-		}
-
-		err = dbtxn.Commit()
-		if err != nil {
-			log.Println("Failed to commit delete mapping... " + hex.EncodeToString(k))
+			return errors.New("Failed to create delete request for " + hex.EncodeToString(k) + ". " + err.Error())
 		}
+	}
 
+	err := dbtxn.Commit()
+	if err != nil {
+		return errors.New("Failed to commit the deletion of listener entries. " + err.Error())
 	}
 
 	return nil
-- 
2.43.0


From becadd1fd95da61d3bd15fc2aa9d54dc36bc63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 23/53] fix: TO2 Done ends the session, it was accepted again
 and again

---
 core/do/to2/listener-to2-70-Done.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index de702bd..369defc 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -18,7 +18,7 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var currentCmd fdoshared.FdoCmd = fdoshared.TO2_70_DONE
 	var fdoTestId testcom.FDOTestID = testcom.NULL_TEST
 
-	session, _, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
+	session, sessionId, authorizationHeader, bodyBytes, testcomListener, err := h.receiveAndDecrypt(w, r, currentCmd)
 	if err != nil {
 		return
 	}
@@ -98,6 +98,14 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	// Done is the last message of the session
+	session.PrevCMD = fdoshared.TO2_71_DONE2
+	err = h.session.UpdateSessionEntry(sessionId, *session)
+	if err != nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error saving session..."+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		return
+	}
+
 	if fdoTestId == testcom.FIDO_LISTENER_POSITIVE {
 		testcomListener.To2.PushSuccess()
 		testcomListener.To2.CompleteTestRun()
-- 
2.43.0


From 0a52038e03b4aa0699ae6255b21ddd474e1f594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 24/53] fix: TO2 error messages name the message that was
 refused

---
 core/do/to2/common.go                      | 4 ++--
 core/do/to2/listener-to2-64-ProveDevice.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 3761735..6ffe562 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -113,11 +113,11 @@ func (h *DoTo2) GetOwnerSIMs(guid fdoshared.FdoGuid) ([]fdoshared.ServiceInfoKV,
 }
 
 func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, currentCmd fdoshared.FdoCmd) (*dbs.SessionEntry, []byte, string, []byte, *listenertestsdeps.RequestListenerInst, error) {
-	if !fdoshared.CheckHeaders(w, r, fdoshared.TO2_64_PROVE_DEVICE) {
+	if !fdoshared.CheckHeaders(w, r, currentCmd) {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error checking header!")
 	}
 
-	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, fdoshared.TO2_66_DEVICE_SERVICE_INFO_READY)
+	headerIsOk, sessionId, authorizationHeader := fdoshared.ExtractAuthorizationHeader(w, r, currentCmd)
 	if !headerIsOk {
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("Error getting session header!")
 	}
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index d188dcb..4c8d8cf 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -24,7 +24,7 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 
 	privateKeyInst, err := fdoshared.ExtractPrivateKey(session.PrivateKeyDER)
 	if err != nil {
-		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, fdoshared.TO2_60_HELLO_DEVICE, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Error decoding private key... "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From bbcb34c0a0169cf5484b2089157d6fa7aa290aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 25/53] fix: TO2 messages require a TO2 session

---
 core/do/to2/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/common.go b/core/do/to2/common.go
index 6ffe562..69e6eb3 100644
--- a/core/do/to2/common.go
+++ b/core/do/to2/common.go
@@ -128,6 +128,11 @@ func (h *DoTo2) receiveAndVerify(w http.ResponseWriter, r *http.Request, current
 		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Can not find session... %s", currentCmd, err.Error())
 	}
 
+	if session.Protocol != fdoshared.To2 {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, fmt.Sprintf("%d: Can not find session... Not a TO2 session", currentCmd), http.StatusUnauthorized, nil, fdoshared.To2)
+		return nil, []byte{}, "", []byte{}, nil, fmt.Errorf("%d: Can not find session... Not a TO2 session", currentCmd)
+	}
+
 	// Conformance
 	testcomListener, _ := h.listenerDB.GetEntryByFdoGuid(session.Guid)
 
-- 
2.43.0


From 34e1162714cae1ae59e8ddca38f9f779626670e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 26/53] fix: answer TO1 and TO2 device proofs with an error
 when the voucher has no device certificate chain

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 core/rv/listener-to1.go                    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 4c8d8cf..a4da764 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -75,6 +75,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if session.Voucher.OVDevCertChain == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error validating ProveDevice64. Voucher has no device certificate chain", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	err = fdoshared.VerifyCoseSignatureWithCertificate(proveDevice64, pkType, *session.Voucher.OVDevCertChain)
 	if err != nil {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Error validating cose signature with certificate..."+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index e5d57bf..f23c5ea 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -236,6 +236,13 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveToRV32 ", http.StatusBadRequest, testcomListener, fdoshared.To1)
 		return
 	}
+
+	if to0d.OwnershipVoucher.OVDevCertChain == nil {
+		log.Println("ProveToRV32: Voucher has no device certificate chain. ")
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Error to verify signature ProveToRV32 ", http.StatusBadRequest, testcomListener, fdoshared.To1)
+		return
+	}
+
 	err = fdoshared.VerifyCoseSignatureWithCertificate(proveToRV32, pkType, *to0d.OwnershipVoucher.OVDevCertChain)
 	if err != nil {
 		log.Println("ProveToRV32: Error verifying ProveToRV32 signature. " + err.Error())
-- 
2.43.0


From dcb8679819c9926c25a37deb3045756a79cb4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 27/53] fix: refuse ProveDevice64 without a setup nonce instead
 of crashing

---
 core/do/to2/listener-to2-64-ProveDevice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index a4da764..6d5014c 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -100,6 +100,11 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if proveDevice64.Unprotected.EUPHNonce == nil {
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INVALID_MESSAGE_ERROR, currentCmd, "Missing EUPHNonce in the unprotected header", http.StatusBadRequest, testcomListener, fdoshared.To2)
+		return
+	}
+
 	// KEX
 	sessionKey, err := fdoshared.DeriveSessionKey(session.XAKex, eatPayload.EatFDO.XBKeyExchange, false, privateKeyInst)
 	if err != nil {
-- 
2.43.0


From 783a1e416e836655f575a4949df1bc0a3a616cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 28/53] fix: refuse mandatory device service info values of
 another type, such as null

---
 core/shared/sims.tools.go | 66 +++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/core/shared/sims.tools.go b/core/shared/sims.tools.go
index ef4ee75..39cfbc6 100644
--- a/core/shared/sims.tools.go
+++ b/core/shared/sims.tools.go
@@ -1,6 +1,7 @@
 package fdoshared
 
 import (
+	"errors"
 	"fmt"
 	"runtime"
 
@@ -98,6 +99,22 @@ type RESULT_SIMS struct {
 	SIM_DEVMOD_MODULES    *[]string
 }
 
+// Decodes a SIM value that must be of exactly the given type. CBOR null and undefined would otherwise decode into any type
+func decodeSimVal[T bool | string | uint64](simVal []byte) (*T, error) {
+	var decoded interface{}
+	err := cbor.Unmarshal(simVal, &decoded)
+	if err != nil {
+		return nil, err
+	}
+
+	result, ok := decoded.(T)
+	if !ok {
+		return nil, errors.New("value is of a wrong type")
+	}
+
+	return &result, nil
+}
+
 func DecodeSims(sims []ServiceInfoKV) (*RESULT_SIMS, error) {
 	result := RESULT_SIMS{}
 
@@ -106,59 +123,32 @@ func DecodeSims(sims []ServiceInfoKV) (*RESULT_SIMS, error) {
 		switch sim.ServiceInfoKey {
 		// Mandatory modules
 		case SIM_DEVMOD_ACTIVE:
-			var devModVal bool
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_ACTIVE = &devModVal
-			}
+			result.SIM_DEVMOD_ACTIVE, err = decodeSimVal[bool](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_OS:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_OS = &devModVal
-			}
+			result.SIM_DEVMOD_OS, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_ARCH:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_ARCH = &devModVal
-			}
+			result.SIM_DEVMOD_ARCH, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_VERSION:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_VERSION = &devModVal
-			}
+			result.SIM_DEVMOD_VERSION, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_DEVICE:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_DEVICE = &devModVal
-			}
+			result.SIM_DEVMOD_DEVICE, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_SEP:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_SEP = &devModVal
-			}
+			result.SIM_DEVMOD_SEP, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_BIN:
-			var devModVal string
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
-			if err == nil {
-				result.SIM_DEVMOD_BIN = &devModVal
-			}
+			result.SIM_DEVMOD_BIN, err = decodeSimVal[string](sim.ServiceInfoVal)
 
 		case SIM_DEVMOD_NUMMODULES:
-			var devModVal uint
-			err = cbor.Unmarshal(sim.ServiceInfoVal, &devModVal)
+			var devModVal *uint64
+			devModVal, err = decodeSimVal[uint64](sim.ServiceInfoVal)
 			if err == nil {
-				result.SIM_DEVMOD_NUMMODULES = &devModVal
+				numModules := uint(*devModVal)
+				result.SIM_DEVMOD_NUMMODULES = &numModules
 			}
 
 		case SIM_DEVMOD_MODULES:
-- 
2.43.0


From 7004c7d4e832d5ab9b4d3e0409b8b580f3aba9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 29/53] fix: a TO0 owner sign body that cannot be read is
 answered with an error for message 22

---
 core/rv/listener-to0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/rv/listener-to0.go b/core/rv/listener-to0.go
index f1987b1..4bf9d57 100644
--- a/core/rv/listener-to0.go
+++ b/core/rv/listener-to0.go
@@ -109,7 +109,7 @@ func (h *RvTo0) Handle22OwnerSign(w http.ResponseWriter, r *http.Request) {
 	/* ----- Process Body ----- */
 	bodyBytes, err := io.ReadAll(r.Body)
 	if err != nil {
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_20_HELLO, "Failed to read body!", http.StatusBadRequest)
+		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, fdoshared.TO0_22_OWNER_SIGN, "Failed to read body!", http.StatusBadRequest)
 		return
 	}
 
-- 
2.43.0


From 92e7eaeb58813576b0c7eb8b2b0047ab909a5226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 30/53] fix: CBOR null is not a message, it was taken for the
 message of zeroes

---
 core/shared/cbor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/shared/cbor.go b/core/shared/cbor.go
index a83a0bf..ebf869c 100644
--- a/core/shared/cbor.go
+++ b/core/shared/cbor.go
@@ -1,6 +1,7 @@
 package fdoshared
 
 import (
+	"errors"
 	"reflect"
 
 	"github.com/fxamacker/cbor/v2"
@@ -14,6 +15,11 @@ const (
 	COSE_MAC_TAGGED       CoseTagged = 17
 )
 
+const (
+	cborNull      = 0xf6
+	cborUndefined = 0xf7
+)
+
 type CBOR_CUSTOM_TAGS struct{}
 
 func (h CBOR_CUSTOM_TAGS) getTags() cbor.TagSet {
@@ -49,6 +55,14 @@ func (h CBOR_CUSTOM_TAGS) getTags() cbor.TagSet {
 }
 
 func (h *CBOR_CUSTOM_TAGS) Unmarshal(data []byte, v interface{}) error {
+	// The decoder takes null and undefined for the zero value of any type
+	if len(data) == 1 && (data[0] == cborNull || data[0] == cborUndefined) {
+		switch reflect.Indirect(reflect.ValueOf(v)).Kind() {
+		case reflect.Struct, reflect.Array:
+			return errors.New("null is not a message")
+		}
+	}
+
 	dm, _ := cbor.DecOptions{}.DecModeWithTags(h.getTags())
 	return dm.Unmarshal(data, v)
 }
-- 
2.43.0


From 49e0265f0ccb09ae7868bc0585316e1a4b72ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 31/53] fix: a Done of a tested device that does not decode is
 answered once

---
 core/do/to2/listener-to2-70-Done.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index 369defc..bfc48ff 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -57,12 +57,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 	var done70 fdoshared.Done70
 	err = fdoshared.CborCust.Unmarshal(bodyBytes, &done70)
 	if err != nil {
-		if testcomListener != nil {
-			listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.INTERNAL_SERVER_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusInternalServerError, testcomListener, fdoshared.To2)
-		}
-
 		log.Println("Done70: Error decoding request..." + err.Error())
-		fdoshared.RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode body!", http.StatusBadRequest)
+		listenertestsdeps.Conf_RespondFDOError(w, r, fdoshared.MESSAGE_BODY_ERROR, currentCmd, "Failed to decode Done70. "+err.Error(), http.StatusBadRequest, testcomListener, fdoshared.To2)
 		return
 	}
 
-- 
2.43.0


From f5543885929d3ab8c6d31e8532a98d73b29ea320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 32/53] fix: a tagged CBOR null is not a message either

---
 core/shared/cbor.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/shared/cbor.go b/core/shared/cbor.go
index ebf869c..0231658 100644
--- a/core/shared/cbor.go
+++ b/core/shared/cbor.go
@@ -18,6 +18,8 @@ const (
 const (
 	cborNull      = 0xf6
 	cborUndefined = 0xf7
+
+	cborTagMajorType = 6
 )
 
 type CBOR_CUSTOM_TAGS struct{}
@@ -55,8 +57,22 @@ func (h CBOR_CUSTOM_TAGS) getTags() cbor.TagSet {
 }
 
 func (h *CBOR_CUSTOM_TAGS) Unmarshal(data []byte, v interface{}) error {
-	// The decoder takes null and undefined for the zero value of any type
-	if len(data) == 1 && (data[0] == cborNull || data[0] == cborUndefined) {
+	// The decoder takes null and undefined, tagged or not, for the zero value of any type
+	item := data
+	for len(item) > 1 && item[0]>>5 == cborTagMajorType {
+		head := 1
+		if info := item[0] & 0x1f; info >= 24 && info <= 27 {
+			head += 1 << (info - 24)
+		}
+
+		if head >= len(item) {
+			break
+		}
+
+		item = item[head:]
+	}
+
+	if len(item) == 1 && (item[0] == cborNull || item[0] == cborUndefined) {
 		switch reflect.Indirect(reflect.ValueOf(v)).Kind() {
 		case reflect.Struct, reflect.Array:
 			return errors.New("null is not a message")
-- 
2.43.0


From 2d3583e04e06a6ab5aa15a0989d94aa3b7e0d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 33/53] fix: positive requestor tests look at the answer, they
 always passed

---
 testexec/do.to2.60.execute.go | 2 +-
 testexec/do.to2.64.execute.go | 2 +-
 testexec/do.to2.66.execute.go | 2 +-
 testexec/rvt.to1.execute.go   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.60.execute.go b/testexec/do.to2.60.execute.go
index ed9dc2f..a401203 100644
--- a/testexec/do.to2.60.execute.go
+++ b/testexec/do.to2.60.execute.go
@@ -26,7 +26,7 @@ func executeTo2_60(reqte reqtestsdeps.RequestTestInst, reqtDB *dbs.RequestTestDB
 		switch fdoTestId {
 		case testcom.FIDO_DOT_60_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.HelloDevice60(fdoTestId)
+			_, _, err := to2requestor.HelloDevice60(testcom.NULL_TEST)
 			if err != nil {
 				errTestState := testcom.NewFailTestState(fdoTestId, err.Error())
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index f841de1..a216d0f 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -68,7 +68,7 @@ func executeTo2_64(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 		switch testId {
 		case testcom.FIDO_DOT_64_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to2requestor.ProveDevice64(testId)
+			_, _, err := to2requestor.ProveDevice64(testcom.NULL_TEST)
 			if err != nil {
 				errTestState = testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index 76b9293..ee290ce 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -72,7 +72,7 @@ func executeTo2_66(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 
 		switch testId {
 		case testcom.FIDO_DOT_66_POSITIVE:
-			_, _, err := to2requestor.DeviceServiceInfoReady66(testId)
+			_, _, err := to2requestor.DeviceServiceInfoReady66(testcom.NULL_TEST)
 			if err != nil {
 				reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
 					Passed: false,
diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e235f8e..e572477 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -111,7 +111,7 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 
 		case testcom.FIDO_DEVT_33_POSITIVE:
 			var errTestState testcom.FDOTestState
-			_, _, err := to1inst.ProveToRV32(*helloRvAck31, rv32test)
+			_, _, err := to1inst.ProveToRV32(*helloRvAck31, testcom.NULL_TEST)
 
 			if err != nil {
 				errTestState = testcom.FDOTestState{
-- 
2.43.0


From bd5b1703e040c41ce536e0bcb046bd6bff4bf6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 34/53] fix: clients do not take the body of a non-success
 response for the expected message

---
 core/device/to1/req-to1-30-HelloRV.go                | 11 +++++++++++
 core/device/to1/req-to1-32-ProveToRV.go              | 12 ++++++++++++
 core/device/to2/req-to2-60-HelloDevice.go            |  2 ++
 core/device/to2/req-to2-62-GetOVNextEntry.go         |  2 ++
 core/device/to2/req-to2-64-ProveDevice.go            |  2 ++
 core/device/to2/req-to2-66-DeviceServiceInfoReady.go |  2 ++
 core/device/to2/req-to2-68-DeviceServiceInfo.go      |  2 ++
 core/device/to2/req-to2-70-Done.go                   |  2 ++
 core/do/to0/common.go                                |  9 +++++++++
 core/do/to0/req-to0-20-Hello.go                      |  5 +++++
 core/do/to0/req-to0-22-OwnerSign.go                  |  5 +++++
 11 files changed, 54 insertions(+)

diff --git a/core/device/to1/req-to1-30-HelloRV.go b/core/device/to1/req-to1-30-HelloRV.go
index 8f0b633..e7653eb 100644
--- a/core/device/to1/req-to1-30-HelloRV.go
+++ b/core/device/to1/req-to1-30-HelloRV.go
@@ -2,6 +2,8 @@ package to1
 
 import (
 	"errors"
+	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -44,6 +46,15 @@ func (h *To1Requestor) HelloRV30(fdoTestID testcom.FDOTestID) (*fdoshared.HelloR
 
 	h.authzHeader = authzHeader
 
+	if httpStatusCode != http.StatusOK {
+		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
+		if err == nil {
+			return nil, &testState, errors.New("HelloRV30: Received FDO Error: " + fdoErrInst.Error())
+		}
+
+		return nil, &testState, fmt.Errorf("HelloRV30: Server returned HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloRVAck31)
 	if err != nil {
 		return nil, &testState, errors.New("HelloRV30: Failed to unmarshal HelloRvAck31. " + err.Error())
diff --git a/core/device/to1/req-to1-32-ProveToRV.go b/core/device/to1/req-to1-32-ProveToRV.go
index 3a97849..833148c 100644
--- a/core/device/to1/req-to1-32-ProveToRV.go
+++ b/core/device/to1/req-to1-32-ProveToRV.go
@@ -2,6 +2,8 @@ package to1
 
 import (
 	"errors"
+	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -66,6 +68,16 @@ func (h *To1Requestor) ProveToRV32(helloRVAck31 fdoshared.HelloRVAck31, fdoTestI
 	}
 
 	h.authzHeader = authzHeader
+
+	if httpStatusCode != http.StatusOK {
+		fdoErrInst, err := fdoshared.DecodeErrorResponse(resultBytes)
+		if err == nil {
+			return nil, &testState, errors.New("RVRedirect33: Received FDO Error: " + fdoErrInst.Error())
+		}
+
+		return nil, &testState, fmt.Errorf("RVRedirect33: Server returned HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &rvRedirect33)
 	if err != nil {
 		return nil, &testState, errors.New("RVRedirect33: Failed to unmarshal RVRedirect33. " + err.Error())
diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index 91e67c0..fe1217c 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -48,6 +48,8 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		if err == nil {
 			return nil, nil, fmt.Errorf("HelloDevice60: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("HelloDevice60: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	h.AuthzHeader = authzHeader
diff --git a/core/device/to2/req-to2-62-GetOVNextEntry.go b/core/device/to2/req-to2-62-GetOVNextEntry.go
index c756896..5e3a19d 100644
--- a/core/device/to2/req-to2-62-GetOVNextEntry.go
+++ b/core/device/to2/req-to2-62-GetOVNextEntry.go
@@ -37,6 +37,8 @@ func (h *To2Requestor) GetOVNextEntry62(entryNum uint8, fdoTestID testcom.FDOTes
 		if err == nil {
 			return nil, nil, fmt.Errorf("GetOVNextEntry62: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("GetOVNextEntry62: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-64-ProveDevice.go b/core/device/to2/req-to2-64-ProveDevice.go
index 771008a..536fb33 100644
--- a/core/device/to2/req-to2-64-ProveDevice.go
+++ b/core/device/to2/req-to2-64-ProveDevice.go
@@ -88,6 +88,8 @@ func (h *To2Requestor) ProveDevice64(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		if err == nil {
 			return nil, nil, fmt.Errorf("ProveDevice64: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 		}
+
+		return nil, nil, fmt.Errorf("ProveDevice64: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
index f1494e8..3c84cdf 100644
--- a/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
+++ b/core/device/to2/req-to2-66-DeviceServiceInfoReady.go
@@ -54,6 +54,8 @@ func (h *To2Requestor) DeviceServiceInfoReady66(fdoTestID testcom.FDOTestID) (*f
 		if err == nil {
 			return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("DeviceServiceInfoReady66: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-68-DeviceServiceInfo.go b/core/device/to2/req-to2-68-DeviceServiceInfo.go
index 5352d3d..e2e0402 100644
--- a/core/device/to2/req-to2-68-DeviceServiceInfo.go
+++ b/core/device/to2/req-to2-68-DeviceServiceInfo.go
@@ -46,6 +46,8 @@ func (h *To2Requestor) DeviceServiceInfo68(deviceServiceInfo68 fdoshared.DeviceS
 		if err == nil {
 			return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server returned error (HTTP %d): (ErrorCID %d) %s", httpStatusCode, fdoErrInst.EMErrorCID, fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("DeviceServiceInfo68: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/device/to2/req-to2-70-Done.go b/core/device/to2/req-to2-70-Done.go
index e30f7e5..6e98e9f 100644
--- a/core/device/to2/req-to2-70-Done.go
+++ b/core/device/to2/req-to2-70-Done.go
@@ -54,6 +54,8 @@ func (h *To2Requestor) Done70(fdoTestID testcom.FDOTestID) (*fdoshared.Done271,
 		if err == nil {
 			return nil, nil, fmt.Errorf("Done70: %s", fdoErrInst.EMErrorStr)
 		}
+
+		return nil, nil, fmt.Errorf("Done70: Server returned HTTP status %d", httpStatusCode)
 	}
 
 	if authzHeader != "" {
diff --git a/core/do/to0/common.go b/core/do/to0/common.go
index 3a05092..a94537e 100644
--- a/core/do/to0/common.go
+++ b/core/do/to0/common.go
@@ -3,6 +3,7 @@ package to0
 import (
 	"context"
 	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -47,6 +48,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
 		}
 
+		if httpStatusCode != http.StatusOK {
+			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned HTTP status %d", httpStatusCode))
+		}
+
 		var helloAck21 fdoshared.HelloAck21
 		err = fdoshared.CborCust.Unmarshal(bodyBytes, &helloAck21)
 		if err != nil {
@@ -61,6 +66,10 @@ func (h *To0Requestor) confCheckResponse(bodyBytes []byte, fdoTestID testcom.FDO
 			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode))
 		}
 
+		if httpStatusCode != http.StatusOK {
+			return testcom.NewFailTestState(fdoTestID, fmt.Sprintf("Server returned HTTP status %d", httpStatusCode))
+		}
+
 		var acceptOwner fdoshared.AcceptOwner23
 		err = fdoshared.CborCust.Unmarshal(bodyBytes, &acceptOwner)
 		if err != nil {
diff --git a/core/do/to0/req-to0-20-Hello.go b/core/do/to0/req-to0-20-Hello.go
index 26f88f9..f03d5b0 100644
--- a/core/do/to0/req-to0-20-Hello.go
+++ b/core/do/to0/req-to0-20-Hello.go
@@ -3,6 +3,7 @@ package to0
 import (
 	"errors"
 	"fmt"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -38,6 +39,10 @@ func (h *To0Requestor) Hello20(fdoTestID testcom.FDOTestID) (*fdoshared.HelloAck
 		return nil, nil, fmt.Errorf("Hell20: Server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, nil, fmt.Errorf("Hell20: Server returned HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &helloAck21)
 	if err != nil {
 		return nil, nil, errors.New("Hell20: Failed to unmarshal HelloAck21. " + err.Error())
diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index 86db877..dcc4cc9 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"net/http"
 
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -123,6 +124,10 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, fmt.Errorf("server returned FDO error: %s %d", fdoErrInst.EMErrorStr, fdoErrInst.EMErrorCode)
 	}
 
+	if httpStatusCode != http.StatusOK {
+		return nil, nil, fmt.Errorf("OwnerSign22: Server returned HTTP status %d", httpStatusCode)
+	}
+
 	fdoError, err := fdoshared.TryCborUnmarshal(resultBytes, &acceptOwner23)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Failed to unmarshal AcceptOwner23. " + err.Error())
-- 
2.43.0


From c7638f0819060a971c7e8b425ed18f1e37779bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 35/53] fix: a later refusal does not replace the verdict of a
 GetOVNextEntry test

---
 testexec/do.to2.62.execute.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index 723083b..bedcaa2 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -116,8 +116,10 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 					return
 				}
 
+				// The verdict is in, later answers must not replace it
 				if randomTestIndex == i {
 					reqtDB.ReportTest(reqte.Uuid, testId, *testState)
+					break
 				}
 			}
 		}
-- 
2.43.0


From 791ef2158d8f89421bb04e043e5fa814a6c43a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 36/53] fix: TO2 tests fail, not crash, on a server that sends
 wrong or no voucher entries

---
 testexec/do.to2.62.execute.go | 8 ++++++++
 testexec/do.to2.64.execute.go | 9 ++++++++-
 testexec/do.to2.66.execute.go | 9 ++++++++-
 testexec/do.to2.68.execute.go | 8 +++++++-
 testexec/do.to2.70.execute.go | 7 ++++++-
 5 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/testexec/do.to2.62.execute.go b/testexec/do.to2.62.execute.go
index bedcaa2..81c749c 100644
--- a/testexec/do.to2.62.execute.go
+++ b/testexec/do.to2.62.execute.go
@@ -39,6 +39,14 @@ func executeTo2_62(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTe
 			return
 		}
 
+		if proveOVHdrPayload61.NumOVEntries == 0 {
+			reqtDB.ReportTest(reqte.Uuid, testId, testcom.FDOTestState{
+				Passed: false,
+				Error:  "Server returned voucher without entries",
+			})
+			return
+		}
+
 		switch testId {
 		case testcom.FIDO_DOT_62_POSITIVE:
 
diff --git a/testexec/do.to2.64.execute.go b/testexec/do.to2.64.execute.go
index a216d0f..f4bc127 100644
--- a/testexec/do.to2.64.execute.go
+++ b/testexec/do.to2.64.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_64(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.66.execute.go b/testexec/do.to2.66.execute.go
index ee290ce..721edd7 100644
--- a/testexec/do.to2.66.execute.go
+++ b/testexec/do.to2.66.execute.go
@@ -1,6 +1,9 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
@@ -32,7 +35,7 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -43,6 +46,10 @@ func preExecuteTo2_66(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.68.execute.go b/testexec/do.to2.68.execute.go
index def4810..b63049d 100644
--- a/testexec/do.to2.68.execute.go
+++ b/testexec/do.to2.68.execute.go
@@ -1,6 +1,8 @@
 package testexec
 
 import (
+	"errors"
+	"fmt"
 	"log"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
@@ -34,7 +36,7 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +47,10 @@ func preExecuteTo2_68(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
diff --git a/testexec/do.to2.70.execute.go b/testexec/do.to2.70.execute.go
index 7ae34bc..44ecda9 100644
--- a/testexec/do.to2.70.execute.go
+++ b/testexec/do.to2.70.execute.go
@@ -2,6 +2,7 @@ package testexec
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
 	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
@@ -34,7 +35,7 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		}
 
 		if nextEntry.OVEntryNum != uint8(i) {
-			return nil, err
+			return nil, fmt.Errorf("Server returned unexpected nextOvEntry. Expected %d. Got %d", i, nextEntry.OVEntryNum)
 		}
 
 		ovEntries = append(ovEntries, nextEntry.OVEntry)
@@ -45,6 +46,10 @@ func preExecuteTo2_70(reqte reqtestsdeps.RequestTestInst) (*to2.To2Requestor, er
 		return nil, err
 	}
 
+	if len(ovEntries) == 0 {
+		return nil, errors.New("Server returned voucher without entries")
+	}
+
 	lastOvEntry := ovEntries[len(ovEntries)-1]
 	loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From 0a4298c5e445760c8f92bd23af1aa8ee44df72cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 37/53] fix: a TO1 test run that stops early ends

---
 testexec/rvt.to1.execute.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/testexec/rvt.to1.execute.go b/testexec/rvt.to1.execute.go
index e572477..992bfe6 100644
--- a/testexec/rvt.to1.execute.go
+++ b/testexec/rvt.to1.execute.go
@@ -14,6 +14,7 @@ import (
 
 func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.RequestTestDB, devDB *dbs.DeviceBaseDB, ctx context.Context) {
 	reqtDB.StartNewRun(reqte.Uuid)
+	defer reqtDB.FinishRun(reqte.Uuid)
 
 	// Generating voucher
 	randomGuid := reqte.FdoSeedIDs.GetRandomTestGuid()
@@ -141,6 +142,4 @@ func ExecuteRVTestsTo1(reqte reqtestsdeps.RequestTestInst, reqtDB *testdbs.Reque
 			reqtDB.ReportTest(reqte.Uuid, rv32test, *rvtTestState)
 		}
 	}
-
-	reqtDB.FinishRun(reqte.Uuid)
 }
-- 
2.43.0


From 6767bc23e8a31c459295fc59da18836ec0fd618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 38/53] fix: the TO2 client refuses a ProveOVHdr without owner
 key or nonce, it crashed

---
 core/device/to2/req-to2-60-HelloDevice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/to2/req-to2-60-HelloDevice.go b/core/device/to2/req-to2-60-HelloDevice.go
index fe1217c..fe99623 100644
--- a/core/device/to2/req-to2-60-HelloDevice.go
+++ b/core/device/to2/req-to2-60-HelloDevice.go
@@ -60,6 +60,10 @@ func (h *To2Requestor) HelloDevice60(fdoTestID testcom.FDOTestID) (*fdoshared.TO
 		return nil, nil, errors.New("HelloDevice60: Failed to unmarshal ProveOVHdr61. " + err.Error())
 	}
 
+	if proveOVHdr61.Unprotected.CUPHOwnerPubKey == nil || proveOVHdr61.Unprotected.CUPHNonce == nil {
+		return nil, nil, errors.New("HelloDevice60: ProveOVHdr61 is missing owner public key or nonce")
+	}
+
 	// Signature verification
 	probableOwnerPubKey := proveOVHdr61.Unprotected.CUPHOwnerPubKey
 	err = fdoshared.VerifyCoseSignature(proveOVHdr61, *probableOwnerPubKey)
-- 
2.43.0


From 91692afc7eb209454e10d0aebd0dea0a695eb33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 39/53] fix: the TO0 client signs with the algorithm of the
 owner key, RSA keys were refused for devices of another strength

---
 core/do/to0/req-to0-22-OwnerSign.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/do/to0/req-to0-22-OwnerSign.go b/core/do/to0/req-to0-22-OwnerSign.go
index dcc4cc9..d22d714 100644
--- a/core/do/to0/req-to0-22-OwnerSign.go
+++ b/core/do/to0/req-to0-22-OwnerSign.go
@@ -1,6 +1,7 @@
 package to0
 
 import (
+	"crypto/rsa"
 	"errors"
 	"fmt"
 	"log"
@@ -79,7 +80,13 @@ func (h *To0Requestor) OwnerSign22(nonceTO0Sign fdoshared.FdoNonce, fdoTestId te
 		return nil, nil, errors.New("OwnerSign22: Error extracting private key. " + err.Error())
 	}
 
-	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, deviceHashAlg)
+	// The owner key selects the signature algorithm, the hash of the device may be of another strength
+	ownerHashAlg := fdoshared.HASH_SHA256
+	if rsaPrivateKey, ok := privateKeyInst.(*rsa.PrivateKey); ok && rsaPrivateKey.N.BitLen() > 2048 {
+		ownerHashAlg = fdoshared.HASH_SHA384
+	}
+
+	sgType, err := fdoshared.GetDeviceSgType(lastOvEntryPubKeyPkType, ownerHashAlg)
 	if err != nil {
 		return nil, nil, errors.New("OwnerSign22: Error getting device SgType. " + err.Error())
 	}
-- 
2.43.0


From 0a6df0fb8ac08c7a2a0511d01e6f5a11b2e4468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 40/53] fix: a fuzzed buffer differs from its input, empty and
 zero ones came back unchanged

---
 core/shared/conformance.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index eb59242..0a66ea3 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -1,6 +1,7 @@
 package fdoshared
 
 import (
+	"bytes"
 	"fmt"
 
 	lorem "github.com/drhodes/golorem"
@@ -135,6 +136,11 @@ func Conf_RandomCborBufferFuzzing(inputBuff []byte) []byte {
 	var newBuffer []byte = make([]byte, len(inputBuff))
 	copy(newBuffer, NewRandomBuffer(newRandomBuffLength))
 
+	// A short or zero buffer may come out as it was
+	if bytes.Equal(newBuffer, inputBuff) {
+		newBuffer = append(newBuffer, 0xff)
+	}
+
 	return newBuffer
 }
 
-- 
2.43.0


From d763b89d8e972182837ce526b3d8396e30c55ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 41/53] fix: bad encryption tests send something for the CCM
 cipher suites too

---
 core/shared/conformance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index 0a66ea3..4d43e77 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -221,7 +221,7 @@ func Conf_Fuzz_AddWrapping(payload []byte, sessionKeyInfo SessionKeyInfo, cipher
 			encryptedBytes = Conf_RandomCborBufferFuzzing(encryptedBytes)
 		}
 
-	case CIPHER_A128GCM, CIPHER_A256GCM:
+	case CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256:
 		var chosenType Conf_EncFuzzTypes = Conf_EncFuzzTypes_List_EMB[NewRandomInt(0, len(Conf_EncFuzzTypes_List_EMB)-1)]
 
 		encryptedBytes, err = encryptEMB(payload, sessionKeyInfo, cipherSuite)
-- 
2.43.0


From f7d41584f288697c1e81384c6951419e32672504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 42/53] fix: a fuzzed signed message without unprotected header
 is broken elsewhere, it was sent unchanged

---
 core/shared/conformance.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/conformance.go b/core/shared/conformance.go
index 4d43e77..afaf1ed 100644
--- a/core/shared/conformance.go
+++ b/core/shared/conformance.go
@@ -273,6 +273,11 @@ var Conf_CoseSign_Field_List []Conf_CoseSign_Field = []Conf_CoseSign_Field{
 func Conf_Fuzz_CoseSignature(coseSignature CoseSignature) CoseSignature {
 	var chosenType Conf_CoseSign_Field = Conf_CoseSign_Field_List[NewRandomInt(0, len(Conf_CoseSign_Field_List)-1)]
 
+	// Without an unprotected header there is nothing to remove
+	if chosenType == Conf_CoseSign_Field_Unprotected && coseSignature.Unprotected == (UnprotectedHeader{}) {
+		chosenType = Conf_CoseSign_Field_Signature
+	}
+
 	switch chosenType {
 	case Conf_CoseSign_Field_Protected:
 		coseSignature.Protected = NewRandomBuffer(NewRandomInt(5, 49))
-- 
2.43.0


From d9ce2840dd12c01ae0ed2a338c23b4596da46f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 43/53] fix: request test store: leave unknown targets alone
 instead of crashing

---
 core/shared/testcom/dbs/reqt.db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 3b5e4e0..39cc282 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -125,6 +125,7 @@ func (h *RequestTestDB) StartNewRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	newRVTestRun := reqtestsdeps.NewRVTestRun(rvte.Protocol)
@@ -143,6 +144,7 @@ func (h *RequestTestDB) FinishRun(rvteid []byte) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.InProgress = false
@@ -159,6 +161,7 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	rvte.CurrentTestRun.Tests[testID] = testResult
@@ -174,6 +177,7 @@ func (h *RequestTestDB) RemoveTestRun(rvteid []byte, testRunId string) {
 	rvte, err := h.Get(rvteid)
 	if err != nil {
 		log.Printf("%s test entry can not be found.", hex.EncodeToString(rvteid))
+		return
 	}
 
 	var updatedTestsHistory []reqtestsdeps.RequestTestRun = []reqtestsdeps.RequestTestRun{}
-- 
2.43.0


From 11ab9e8ade8f75552aaa3d6b86c879d6e2db0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 44/53] fix: request test store: a result changes only the run
 it belongs to

---
 core/shared/testcom/dbs/reqt.db.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/shared/testcom/dbs/reqt.db.go b/core/shared/testcom/dbs/reqt.db.go
index 39cc282..5cd63cf 100644
--- a/core/shared/testcom/dbs/reqt.db.go
+++ b/core/shared/testcom/dbs/reqt.db.go
@@ -164,8 +164,19 @@ func (h *RequestTestDB) ReportTest(rvteid []byte, testID testcom.FDOTestID, test
 		return
 	}
 
+	if rvte.CurrentTestRun.Tests == nil {
+		log.Printf("%s has no test run to report %s for.", hex.EncodeToString(rvteid), testID)
+		return
+	}
+
 	rvte.CurrentTestRun.Tests[testID] = testResult
-	rvte.TestsHistory[0] = rvte.CurrentTestRun
+
+	// The run could have been removed while it is in progress
+	for i := range rvte.TestsHistory {
+		if rvte.TestsHistory[i].Uuid == rvte.CurrentTestRun.Uuid {
+			rvte.TestsHistory[i] = rvte.CurrentTestRun
+		}
+	}
 
 	err = h.Save(*rvte)
 	if err != nil {
-- 
2.43.0


From b4377572e1dc6037d2853321e88a72c89f1b3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 45/53] fix: listener runs: keep a replaced first run, do not
 repeat or retain a completed one

---
 core/shared/testcom/listener/listenert.db.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 48661db..550ea76 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -69,7 +69,8 @@ func (h *RequestListenerRunnerInst) CheckCmdTestingIsCompleted(currentCmd fdosha
 }
 
 func (h *RequestListenerRunnerInst) StartNewTestRun() {
-	if len(h.TestRunHistory) != 0 {
+	// A completed run is in the history already
+	if h.Running {
 		h.TestRunHistory = append([]ListenerTestRun{h.CurrentTestRun}, h.TestRunHistory...)
 	}
 
@@ -93,7 +94,7 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	var newList []ListenerTestRun = []ListenerTestRun{}
 
-	if h.CurrentTestRun.Uuid == id {
+	if h.Running && h.CurrentTestRun.Uuid == id {
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
 		return nil
-- 
2.43.0


From 597f6d285ac37c3f7278a417be7ee806ccb9cc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 46/53] fix: listener runs: record each result once, and only
 for a test that was sent

---
 core/shared/testcom/listener/listenert.db.go | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/core/shared/testcom/listener/listenert.db.go b/core/shared/testcom/listener/listenert.db.go
index 550ea76..d838ad3 100644
--- a/core/shared/testcom/listener/listenert.db.go
+++ b/core/shared/testcom/listener/listenert.db.go
@@ -8,10 +8,12 @@ import (
 )
 
 type RequestListenerRunnerInst struct {
-	Protocol      fdoshared.FdoToProtocol `cbor:"protocol,omitempty"`
-	LastTestID    testcom.FDOTestID       `cbor:"lastTestID,omitempty"`
-	ExpectedCmd   fdoshared.FdoCmd        `cbor:"expectedCmd,omitempty"`
-	CompletedCmds []fdoshared.FdoCmd      `cbor:"completedCmds,omitempty"`
+	Protocol    fdoshared.FdoToProtocol `cbor:"protocol,omitempty"`
+	LastTestID  testcom.FDOTestID       `cbor:"lastTestID,omitempty"`
+	ExpectedCmd fdoshared.FdoCmd        `cbor:"expectedCmd,omitempty"`
+	// The last test has been sent and has no result yet
+	AwaitingResult bool               `cbor:"awaitingResult,omitempty"`
+	CompletedCmds  []fdoshared.FdoCmd `cbor:"completedCmds,omitempty"`
 
 	CurrentTestIndex int                                      `cbor:"currentTestIndex,omitempty"`
 	Tests            map[fdoshared.FdoCmd][]testcom.FDOTestID `cbor:"tests,omitempty"`
@@ -79,6 +81,8 @@ func (h *RequestListenerRunnerInst) StartNewTestRun() {
 
 	h.CurrentTestRun = NewListenerTestRun(h.Protocol)
 	h.CurrentTestIndex = 0
+	h.LastTestID = ""
+	h.AwaitingResult = false
 	h.CompletedCmds = []fdoshared.FdoCmd{}
 
 	switch h.Protocol {
@@ -97,6 +101,8 @@ func (h *RequestListenerRunnerInst) RemoveTestRun(id string) error {
 	if h.Running && h.CurrentTestRun.Uuid == id {
 		h.CurrentTestRun = ListenerTestRun{}
 		h.Running = false
+		h.LastTestID = ""
+		h.AwaitingResult = false
 		return nil
 	}
 
@@ -123,6 +129,7 @@ func (h *RequestListenerRunnerInst) GetNextTestID() testcom.FDOTestID {
 	selectedTestID := h.Tests[h.ExpectedCmd][h.CurrentTestIndex]
 
 	h.LastTestID = selectedTestID
+	h.AwaitingResult = true
 
 	if h.CurrentTestIndex+1 < len(h.Tests[h.ExpectedCmd]) {
 		h.CurrentTestIndex = h.CurrentTestIndex + 1
@@ -150,10 +157,20 @@ func (h *RequestListenerRunnerInst) CompleteTestRun() {
 	h.TestRunHistory = append(h.TestRunHistory, h.CurrentTestRun)
 }
 
+// pushResult records the result of the last test, once
+func (h *RequestListenerRunnerInst) pushResult(testState testcom.FDOTestState) {
+	if !h.AwaitingResult {
+		return
+	}
+
+	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testState)
+	h.AwaitingResult = false
+}
+
 func (h *RequestListenerRunnerInst) PushFail(errorMsg string) {
-	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewFailTestState(h.GetLastTestID(), errorMsg))
+	h.pushResult(testcom.NewFailTestState(h.GetLastTestID(), errorMsg))
 }
 
 func (h *RequestListenerRunnerInst) PushSuccess() {
-	h.CurrentTestRun.TestRuns = append(h.CurrentTestRun.TestRuns, testcom.NewSuccessTestState(h.GetLastTestID()))
+	h.pushResult(testcom.NewSuccessTestState(h.GetLastTestID()))
 }
-- 
2.43.0


From 369907c55c69c511a3ce41e022d131fab3777b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 47/53] fix: listener runs: draw the next test only to send it
 with an answer to its command

---
 core/do/to2/listener-to2-62-GetOVNextEntry.go         | 3 ++-
 core/do/to2/listener-to2-64-ProveDevice.go            | 3 ++-
 core/do/to2/listener-to2-66-DeviceServiceInfoReady.go | 3 ++-
 core/do/to2/listener-to2-68-DeviceServiceInfo.go      | 3 ++-
 core/do/to2/listener-to2-70-Done.go                   | 3 ++-
 core/rv/listener-to1.go                               | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index ffb8e71..7a25b57 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -34,7 +34,8 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-64-ProveDevice.go b/core/do/to2/listener-to2-64-ProveDevice.go
index 6d5014c..0d85439 100644
--- a/core/do/to2/listener-to2-64-ProveDevice.go
+++ b/core/do/to2/listener-to2-64-ProveDevice.go
@@ -40,7 +40,8 @@ func (h *DoTo2) ProveDevice64(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
index a4cdc14..5346e25 100644
--- a/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
+++ b/core/do/to2/listener-to2-66-DeviceServiceInfoReady.go
@@ -33,7 +33,8 @@ func (h *DoTo2) DeviceServiceInfoReady66(w http.ResponseWriter, r *http.Request)
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-68-DeviceServiceInfo.go b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
index 4bfdca6..f9d05ea 100644
--- a/core/do/to2/listener-to2-68-DeviceServiceInfo.go
+++ b/core/do/to2/listener-to2-68-DeviceServiceInfo.go
@@ -36,7 +36,8 @@ func (h *DoTo2) DeviceServiceInfo68(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/do/to2/listener-to2-70-Done.go b/core/do/to2/listener-to2-70-Done.go
index bfc48ff..1ba0db9 100644
--- a/core/do/to2/listener-to2-70-Done.go
+++ b/core/do/to2/listener-to2-70-Done.go
@@ -34,7 +34,8 @@ func (h *DoTo2) Done70(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To2.PushSuccess()
 		}
 
-		if !testcomListener.To2.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To2.CheckExpectedCmd(currentCmd) && !isLastTestFailed {
 			fdoTestId = testcomListener.To2.GetNextTestID()
 		}
 
diff --git a/core/rv/listener-to1.go b/core/rv/listener-to1.go
index f23c5ea..e8ff10d 100644
--- a/core/rv/listener-to1.go
+++ b/core/rv/listener-to1.go
@@ -181,7 +181,8 @@ func (h *RvTo1) Handle32ProveToRV(w http.ResponseWriter, r *http.Request) {
 			testcomListener.To1.PushSuccess()
 		}
 
-		if !testcomListener.To1.CheckCmdTestingIsCompleted(currentCmd) {
+		// The next test is only sent with an answer to the command it is for
+		if testcomListener.To1.CheckExpectedCmd(currentCmd) {
 			fdoTestId = testcomListener.To1.GetNextTestID()
 		}
 
-- 
2.43.0


From 47aa72e5eadb30b03b7ee555a7896a8b33ab4c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 48/53] fix: listener runs: a device that asks for the next
 entry after a bad one did not refuse it

---
 core/do/to2/listener-to2-62-GetOVNextEntry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/do/to2/listener-to2-62-GetOVNextEntry.go b/core/do/to2/listener-to2-62-GetOVNextEntry.go
index 7a25b57..efdff75 100644
--- a/core/do/to2/listener-to2-62-GetOVNextEntry.go
+++ b/core/do/to2/listener-to2-62-GetOVNextEntry.go
@@ -30,6 +30,9 @@ func (h *DoTo2) GetOVNextEntry62(w http.ResponseWriter, r *http.Request) {
 		if !testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE {
 			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
 			isLastTestFailed = true
+		} else if testcomListener.To2.CheckExpectedCmd(currentCmd) && testcomListener.To2.GetLastTestID() != testcom.FIDO_LISTENER_POSITIVE && session.PrevCMD == fdoshared.TO2_63_OV_NEXTENTRY {
+			testcomListener.To2.PushFail("Expected the device to fail, but it didn't")
+			isLastTestFailed = true
 		} else if testcomListener.To2.CurrentTestIndex != 0 {
 			testcomListener.To2.PushSuccess()
 		}
-- 
2.43.0


From 980cbe9b8d558c0f462a418adb8b388639b6c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 49/53] fix: the virtual device refuses a TO2 owner without
 voucher entries instead of crashing

---
 main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.go b/main.go
index e1f0049..ce49e31 100644
--- a/main.go
+++ b/main.go
@@ -522,6 +522,11 @@ func main() {
 								return nil
 							}
 
+							if len(ovEntries) == 0 {
+								log.Println("Server returned no voucher entries")
+								return nil
+							}
+
 							lastOvEntry := ovEntries[len(ovEntries)-1]
 							loePubKey, _ := lastOvEntry.GetOVEntryPubKey()
 
-- 
2.43.0


From 9566e9b6d11c79c3a710de552d632ed02286afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 50/53] fix: the to1 command reports a blob without addresses
 instead of crashing

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index ce49e31..9742b50 100644
--- a/main.go
+++ b/main.go
@@ -447,6 +447,10 @@ func main() {
 								return fmt.Errorf("error decoding TO1D payload! %s", err.Error())
 							}
 
+							if len(to1dPayload.To1dRV) == 0 {
+								return fmt.Errorf("error decoding TO1D payload! No addresses found")
+							}
+
 							rvdns := to1dPayload.To1dRV[0].RVDNS
 							rvipd := to1dPayload.To1dRV[0].RVIP
 							rvport := to1dPayload.To1dRV[0].RVPort
-- 
2.43.0


From 5ba38efb20fc63dae1a1f3ad4a54064c6040c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 51/53] fix: importing a voucher refuses text whose second
 block is not a private key

---
 core/device/common/common.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/device/common/common.go b/core/device/common/common.go
index d2e9de1..72c8d85 100644
--- a/core/device/common/common.go
+++ b/core/device/common/common.go
@@ -29,6 +29,10 @@ func DecodePemVoucherAndKey(vandvpem string) (*fdoshared.VoucherDBEntry, error)
 		return nil, errors.New("Could not find key PEM data!")
 	}
 
+	if _, err := fdoshared.ExtractPrivateKey(privateKeyBytes.Bytes); err != nil {
+		return nil, fmt.Errorf("Could not decode private key! %s", err.Error())
+	}
+
 	// CBOR decode voucher
 
 	var voucherInst fdoshared.OwnershipVoucher
-- 
2.43.0


From e0ca37bdeeb5f985a2094be7d5fccb4fc63b2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 52/53] fix: generating a voucher with a bad header HMAC
 swapped certificates of the device credential

---
 core/device/genvoucher.go                    | 3 ++-
 core/device/genvoucher_with_provided_keys.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/device/genvoucher.go b/core/device/genvoucher.go
index 0665460..e10e325 100644
--- a/core/device/genvoucher.go
+++ b/core/device/genvoucher.go
@@ -218,7 +218,8 @@ func NewVirtualDeviceAndVoucher(newDi fdoshared.WawDeviceCredential, voucherSgTy
 		voucherInst.OVHeaderHMac = *fdoshared.Conf_RandomTestHashHmac(voucherInst.OVHeaderHMac, ovHeaderBytes, newDi.DCHmacSecret)
 
 		if voucherInst.OVDevCertChain != nil {
-			chainTemp := *voucherInst.OVDevCertChain
+			// The chain is shared with the device credential
+			chainTemp := append([]fdoshared.X509CertificateBytes{}, *voucherInst.OVDevCertChain...)
 			leafCert := chainTemp[0]
 
 			chainTemp[0] = chainTemp[1]
diff --git a/core/device/genvoucher_with_provided_keys.go b/core/device/genvoucher_with_provided_keys.go
index a409d5a..100696c 100644
--- a/core/device/genvoucher_with_provided_keys.go
+++ b/core/device/genvoucher_with_provided_keys.go
@@ -186,7 +186,8 @@ func NewVirtualDeviceAndVoucherWithKeys(
 		voucherInst.OVHeaderHMac = *fdoshared.Conf_RandomTestHashHmac(voucherInst.OVHeaderHMac, ovHeaderBytes, newDi.DCHmacSecret)
 
 		if voucherInst.OVDevCertChain != nil {
-			chainTemp := *voucherInst.OVDevCertChain
+			// The chain is shared with the device credential
+			chainTemp := append([]fdoshared.X509CertificateBytes{}, *voucherInst.OVDevCertChain...)
 			leafCert := chainTemp[0]
 
 			chainTemp[0] = chainTemp[1]
-- 
2.43.0


From 75b13a921a62ddaea59a2eac0c2056cf2313b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 53/53] fix: create DO test targets with RSA owner keys

---
 api/testapi/do.api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/testapi/do.api.go b/api/testapi/do.api.go
index f696cd1..45bb75e 100644
--- a/api/testapi/do.api.go
+++ b/api/testapi/do.api.go
@@ -183,7 +183,8 @@ func (h *DOTestMgmtAPI) Generate(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(sgType)
+	// Only devices' own signature types are seeded
+	guid := mainConfig.SeededGuids.GetRandomTestGuidForSgType(fdoshared.SgType_OwnerToDeviceAttestation[sgType])
 
 	deviceCredential, err := h.DevBaseDB.Get(guid)
 	if err != nil {
-- 
2.43.0

