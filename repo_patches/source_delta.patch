From 5e72a56a266ef19edbe138b925875a752f7aadd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 01/31] fix: BitStream_AppendNBitZero left stale bits in a
 reused buffer

Only the position was advanced, so in streaming mode the previous content of the
buffer was sent instead of zeros.
---
 asn1crt/asn1crt_encoding.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..2ee034a 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -163,19 +163,12 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	while (nbits >= 8) {
+		BitStream_AppendByte(pBitStrm, 0, FALSE);
+		nbits -= 8;
 	}
+	if (nbits > 0)
+		BitStream_AppendPartialByte(pBitStrm, 0, (byte)nbits, FALSE);
 }
 
 void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
-- 
2.43.0


From 5df4a5c518b19591a1ad372c8a83a01d4421340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 02/31] fix: BitStream_AppendPartialByte cleared the wrong bits
 of the second byte

The mask was inverted: the bits to be overwritten were kept (and or-ed) and the
ones after the field were cleared.
---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 2ee034a..e52627c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -474,7 +474,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 9ed6461036ce9310ddf477aa6b22a72eebe5425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 03/31] fix: BitStream_AppendByteArray or-ed stale bits and
 touched one byte too many

The middle bytes were or-ed into the buffer without clearing it first, and a byte
aligned write modified the byte after the last one.
---
 asn1crt/asn1crt_encoding.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e52627c..5d24ee0 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -324,17 +324,23 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
 
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        }
     }
 
     for (int i = 1; i < arr_len - 1; i++) {
         byte v = arr[i];
         byte v1 = (byte)(v >> cb);
         byte v2 = (byte)(v << ncb);
+        pBitStrm->buf[pBitStrm->currentByte] &= mask;
         pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        }
     }
     if (arr_len - 1 > 0) {
         byte v = arr[arr_len - 1];
-- 
2.43.0


From 57b1c71f46004f65d1d06c76be2fa1eb03722885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 04/31] fix: BitStream_ReadByteArray read one byte past the end
 when byte aligned

---
 asn1crt/asn1crt_encoding.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5d24ee0..70fa820 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -399,7 +399,8 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 		*wb = (byte)((*rb) << cb);
 		rb++;
 		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb > 0)
+			*wb |= (byte)((*rb) >> ncb);
 		wb++;
     }
 	pBitStrm->currentByte += arr_len;
-- 
2.43.0


From e109ca65ea1d9dc76645137e425cc9c68ba93be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 05/31] fix: BitStream_DecodeOctetString accepted truncated
 input

The result of reading the content was ignored.
---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 70fa820..0db1842 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1628,10 +1628,10 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 			ret = TRUE;
 			nCountL = asn1SizeMin;
 		}
-		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			*nCount = (int)nCountL;
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From d2fccf17deeef3050733c82233ff8f4243707408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 06/31] fix: reading a bit or a partial byte at the end of the
 input read past the buffer

The end of the stream was only checked after the bits had been read.
---
 asn1crt/asn1crt_encoding.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 0db1842..b8d53d2 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -220,8 +220,21 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 }
 
 
+/* TRUE if nbits more bits are available in the buffer, or can be fetched */
+static flag BitStream_bitsAvailable(const BitStream* pBitStrm, int nbits)
+{
+#ifdef ASN1SCC_STREAMING
+	if (pBitStrm->fetchDataPrm != NULL)
+		return TRUE;
+#endif
+	return pBitStrm->currentByte * 8 + pBitStrm->currentBit + nbits <= pBitStrm->count * 8;
+}
+
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (!BitStream_bitsAvailable(pBitStrm, 1))
+		return FALSE;
+
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -235,7 +248,7 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
-	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
+	return BitStream_bitsAvailable(pBitStrm, 1) && (pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit]);
 }
 
 
@@ -497,6 +510,9 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (!BitStream_bitsAvailable(pBitStrm, nbits))
+		return FALSE;
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
-- 
2.43.0


From e8792877926586e1e506d1ded7952124cf38eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 07/31] fix: streaming mode lost or repeated bytes at the edge
 of the buffer

An unaligned byte crossing the buffer's end was rejected instead of fetching the
next block, byte arrays were read beyond the buffer, and octet strings longer than
the buffer repeated their first part.
---
 asn1crt/asn1crt_encoding.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index b8d53d2..070b4c1 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -375,10 +375,7 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
     int cb = pBitStrm->currentBit;			//bit position in the current byte
 
     //check if the available bytes are enough
-	int requiredBytes = (cb > 0) ? 2 : 1;
-	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
-
-	if (availableBytes < requiredBytes) {
+	if (!BitStream_bitsAvailable(pBitStrm, 8)) {
 		return FALSE;
 	}
 
@@ -400,7 +397,6 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
 #ifndef ASN1SCC_STREAMING
@@ -409,14 +405,14 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
+		if (!BitStream_bitsAvailable(pBitStrm, 8))
+			return FALSE;
+		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
 		if (cb > 0)
-			*wb |= (byte)((*rb) >> ncb);
+			*wb |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 		wb++;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
@@ -1417,6 +1413,7 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 				pBitStrm->count - pBitStrm->currentByte;
 
 			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
+			arr += currentBatch;
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
 			remainingBytesToSend -= currentBatch;
@@ -1458,6 +1455,7 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
                 pBitStrm->count - pBitStrm->currentByte;
 
             memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
+            arr += currentBatch;
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
             remainingBytesToRead -= currentBatch;
-- 
2.43.0


From e2463d53b7ff494d0a7c5284743dafe3d7a3b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 08/31] fix: semi-constrained integers too large for the word
 decoded as values below the bound

---
 asn1crt/asn1crt_encoding.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 070b4c1..53df50e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -957,6 +957,7 @@ void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v, asn1SccSint min)
 {
 	asn1SccSint nBytes;
+	asn1SccUint uv = 0;
 	int i;
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
@@ -967,10 +968,11 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
-	*v += min;
-	return TRUE;
+	*v = (asn1SccSint)(uv + (asn1SccUint)min);
+	/* the sum wraps around when the value does not fit */
+	return *v >= min;
 }
 
 flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint* v, asn1SccUint min)
@@ -989,7 +991,8 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 		*v = (*v << 8) | b;
 	}
 	*v += min;
-	return TRUE;
+	/* the sum wraps around when the value does not fit */
+	return *v >= min;
 }
 
 
-- 
2.43.0


From 6b5e4205d49b03f7f00347e48ca16edde92ed618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 09/31] fix: an unconstrained integer with no content octets
 took its value from the following bit

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 53df50e..7fe8ee8 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1022,7 +1022,7 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
-- 
2.43.0


From f451be3bc444be0697db4d039f93bd6d2b118aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 10/31] fix: ACN integers that do not fit the destination type
 were truncated instead of rejected

---
 asn1crt/asn1crt_encoding_acn.c | 292 ++++++++++++++++-----------------
 1 file changed, 146 insertions(+), 146 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..444d741 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1475,586 +1475,586 @@ asn1SccSint milbus_decode(asn1SccSint val)
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && v == *pIntVal;
 }
 
 
-- 
2.43.0


From f5e3575e882adf1d5da8cad5c3af12666bfd5ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 11/31] fix: with 4-byte words, 64-bit ACN integers ignored
 half the field and lost the sign

---
 asn1crt/asn1crt_encoding_acn.c | 63 ++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 444d741..e3415f4 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -121,6 +121,24 @@ void Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, as
 	Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, intVal, WORD_SIZE);
 }
 
+#if WORD_SIZE!=8
+/* The bytes of a 64 bit field that the word has no room for: they must all be 0x00 or all be 0xFF */
+static flag Acn_ReadFillBytes(BitStream* pBitStrm, byte* pFill)
+{
+    int i;
+    byte b = 0;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        if (!BitStream_ReadByte(pBitStrm, &b))
+            return FALSE;
+        if (i == 0)
+            *pFill = b;
+        else if (b != *pFill)
+            return FALSE;
+    }
+    return *pFill == 0x0 || *pFill == 0xFF;
+}
+#endif
+
 static void Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(BitStream* pBitStrm,
 	asn1SccUint intVal,
 	int size)
@@ -213,7 +231,11 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    byte fill = 0;
+    if (!Acn_ReadFillBytes(pBitStrm, &fill) || fill != 0)
+        return FALSE;
+#endif
 
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
@@ -255,7 +277,10 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
     flag ret;
 	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    byte fill = 0;
+    ret = ret && Acn_ReadFillBytes(pBitStrm, &fill) && fill == 0;
+#endif
     return ret;
 }
 
@@ -349,7 +374,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    }
+#endif
+    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, int2uint(intVal), WORD_SIZE);
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -364,7 +395,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, int2uint(intVal), WORD_SIZE);
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    }
+#endif
 }
 
 
@@ -426,9 +463,18 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
-	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &tmp))
+#if WORD_SIZE!=8
+	byte fill = 0;
+	if (!Acn_ReadFillBytes(pBitStrm, &fill))
+		return FALSE;
+#endif
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, &tmp, WORD_SIZE))
 		return FALSE;
 	*pIntVal = uint2int(tmp, WORD_SIZE);
+#if WORD_SIZE!=8
+	if ((*pIntVal < 0) != (fill != 0))
+		return FALSE;
+#endif
 	return TRUE;
 }
 
@@ -453,9 +499,14 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint* pIntVal)
 {
 	asn1SccUint tmp = 0;
-	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &tmp))
+	if (!Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, &tmp, WORD_SIZE))
 		return FALSE;
 	*pIntVal = uint2int(tmp, WORD_SIZE);
+#if WORD_SIZE!=8
+	byte fill = 0;
+	if (!Acn_ReadFillBytes(pBitStrm, &fill) || (*pIntVal < 0) != (fill != 0))
+		return FALSE;
+#endif
 	return TRUE;
 }
 
-- 
2.43.0


From 2586cc4fbf4ee1449c6144fdc1b751dbde159bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 12/31] fix: ACN BCD and ASCII integers accepted non-digits and
 wrapped around, and rejected long BCD numbers

---
 asn1crt/asn1crt_encoding_acn.c | 35 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index e3415f4..c36c387 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -590,6 +590,15 @@ static int Acn_Get_Int_Size_BCD(asn1SccUint intVal)
 
 
 
+/* Appends a decimal digit to the number; FALSE if it is no digit or if the number does not fit */
+static flag Acn_AddDecimalDigit(asn1SccUint* pIntVal, byte digit)
+{
+	if (digit > 9 || *pIntVal > ((asn1SccUint)MAX_INT - digit) / 10)
+		return FALSE;
+	*pIntVal = *pIntVal * 10 + digit;
+	return TRUE;
+}
+
 void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int encodedSizeInNibbles)
 {
 	int i = 0;
@@ -625,9 +634,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AddDecimalDigit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInNibbles--;
 	}
@@ -655,8 +663,6 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
-		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
 
@@ -685,11 +691,10 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
-		if (digit>9)
+		if (digit == 0xF)
 			break;
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AddDecimalDigit(&ret, digit))
+			return FALSE;
 
 	}
 	*pIntVal = ret;
@@ -746,10 +751,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
 		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AddDecimalDigit(&ret, (byte)(digit - '0')))
+			return FALSE;
 
 		encodedSizeInBytes--;
 	}
@@ -922,10 +925,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_AddDecimalDigit(&ret, (byte)(digit - '0')))
+			return FALSE;
 	}
 
 	*pIntVal = ret;
-- 
2.43.0


From 5f7194851421b7a9d39c4bf74a990f30c17650a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 13/31] fix: ACN signed ASCII integers with too large a
 magnitude decoded as some other number

---
 asn1crt/asn1crt_encoding_acn.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index c36c387..7a4f670 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -761,12 +761,28 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	return TRUE;
 }
 
+/* FALSE if the signed number does not fit */
+static flag Acn_ApplySign(asn1SccUint absIntVal, flag isNegative, asn1SccSint* pIntVal)
+{
+	const asn1SccUint limit = (asn1SccUint)MAX_INT / 2;	/* of the positive numbers */
+
+	if (absIntVal > limit + (isNegative ? 1 : 0))
+		return FALSE;
+	if (isNegative && absIntVal > 0)
+		*pIntVal = -(asn1SccSint)(absIntVal - 1) - 1;
+	else
+		*pIntVal = (asn1SccSint)absIntVal;
+	return TRUE;
+}
+
 flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int encodedSizeInBytes)
 {
 	byte digit;
 	asn1SccUint ret = 0;
 	int sign = 1;
 
+	if (encodedSizeInBytes < 1)
+		return FALSE;
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
 	if (digit == '+')
@@ -783,10 +799,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
-	return TRUE;
+	return Acn_ApplySign(ret, sign < 0, pIntVal);
 
 }
 
@@ -950,10 +963,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
-	return TRUE;
+	return Acn_ApplySign(ret, isNegative, pIntVal);
 }
 
 
-- 
2.43.0


From 0fa0c5a62003d77c247a2c008cb93d43f447560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 14/31] fix: Acn_Dec_String_Ascii_Null_Terminated_mult wrote
 one byte past the end of the string

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 7a4f670..3378402 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1396,7 +1396,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From 174b338274c64cd065dd4cbc18bd7a84def07a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 15/31] fix: let the compiler strip the runtime helpers added
 by the previous fixes when they are unused

---
 StgC/LangGeneric_c.fs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/StgC/LangGeneric_c.fs b/StgC/LangGeneric_c.fs
index 7f06813..1ced3dd 100644
--- a/StgC/LangGeneric_c.fs
+++ b/StgC/LangGeneric_c.fs
@@ -636,6 +636,10 @@ type LangGeneric_c() =
                 "Acn_Get_Int_Size_BCD"
                 "To_UInt"
                 "Encode_UnsignedInteger"
+                "BitStream_bitsAvailable"
+                "Acn_ReadFillBytes"
+                "Acn_AddDecimalDigit"
+                "Acn_ApplySign"
                 "Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N"
                 "Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N"
                 "Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N"
-- 
2.43.0


From a1411e2f1c36dd3b429a25093fe7aa2ff756dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 16/31] fix: a terminated bit field of maximum size zero was
 never accepted

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 7fe8ee8..b2b8904 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1379,7 +1379,7 @@ int BitStream_checkBitPatternPresent(BitStream* pBitStrm, const byte bit_termina
 flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_terminated_pattern[], size_t bit_terminated_pattern_size_in_bits, byte* BuffToWrite, int nMaxReadBits, int *bitsRead)
 {
 
-	int checkBitPatternPresentResult = 0;
+	int checkBitPatternPresentResult = 1;
 	*bitsRead = 0;
 	int ret = TRUE;
 	flag bitVal;
-- 
2.43.0


From 6ffe119d79b78be2b85d2afbca7990ede60418c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 17/31] fix: ACN alignment left stale bits of a reused buffer
 in the skipped part

---
 asn1crt/asn1crt_encoding_acn.c | 35 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 3378402..225e0e9 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -17,6 +17,9 @@ void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 
 	if (pBitStrm->currentBit != 0)
 	{
+		/* the skipped bits are zero also when the buffer has been used before */
+		if (bEncode)
+			pBitStrm->buf[pBitStrm->currentByte] &= (byte)(0xFF << (NO_OF_BITS_IN_BYTE - pBitStrm->currentBit));
 		pBitStrm->currentBit = 0;
 		pBitStrm->currentByte++;
 		if (bEncode)
@@ -34,12 +37,16 @@ void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 		& (NO_OF_BITS_IN_INT16 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
-		bitstream_fetch_data_if_required(pBitStrm);
+	while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT16 != 0)
+	{
+		if (bEncode && pBitStrm->currentByte < pBitStrm->count)
+			pBitStrm->buf[pBitStrm->currentByte] = 0;
+		pBitStrm->currentByte++;
+		if (bEncode)
+			bitstream_push_data_if_required(pBitStrm);
+		else
+			bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
@@ -51,12 +58,16 @@ void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 		& (NO_OF_BITS_IN_INT32 - 1));
 
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
-		bitstream_fetch_data_if_required(pBitStrm);
+	while (pBitStrm->currentByte % NO_OF_BYTES_IN_INT32 != 0)
+	{
+		if (bEncode && pBitStrm->currentByte < pBitStrm->count)
+			pBitStrm->buf[pBitStrm->currentByte] = 0;
+		pBitStrm->currentByte++;
+		if (bEncode)
+			bitstream_push_data_if_required(pBitStrm);
+		else
+			bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
-- 
2.43.0


From 3cda25c4e4bb5140d7e5ee79572254035f087782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 18/31] fix: object identifiers with more components than their
 array holds passed validation

---
 asn1crt/asn1crt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..53df95f 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,11 +116,11 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
-	return pVal->nCount > 0;
+	return (pVal->nCount > 0) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH);
 }
 
 flag ObjectIdentifier_equal(const Asn1ObjectIdentifier *pVal1, const Asn1ObjectIdentifier *pVal2) {
-- 
2.43.0


From d7004a5828becd26100100a5250aabf603c9349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 19/31] fix: object identifiers 2.40 and above were refused and
 decoded with a wrong first arc

---
 asn1crt/asn1crt.c               | 2 +-
 asn1crt/asn1crt_encoding_uper.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index 53df95f..8daebd5 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,7 +116,7 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) && (pVal->values[0] <= 2) && (pVal->values[0] == 2 || pVal->values[1] <= 39);
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..adbbeae 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -127,8 +127,9 @@ flag ObjectIdentifier_uper_decode(BitStream* pBitStrm, Asn1ObjectIdentifier *pVa
 	if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
 		return FALSE;
 	pVal->nCount = 2;
-	pVal->values[0] = si / 40;
-	pVal->values[1] = si % 40;
+	//the first arc is 0, 1 or 2 and only below 2 is the second arc limited to 0..39 (X.690 8.19.4)
+	pVal->values[0] = si < 80 ? si / 40 : 2;
+	pVal->values[1] = si - pVal->values[0] * 40;
 	while (totalSize > 0 && pVal->nCount < OBJECT_IDENTIFIER_MAX_LENGTH)
 	{
 		if (!ObjectIdentifier_subidentifiers_uper_decode(pBitStrm, &totalSize, &si))
-- 
2.43.0


From 55f25cae6d0d9486cb301082bb0f4c2d5f30ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 20/31] fix: object identifiers with overlong or incomplete
 components decoded as some other identifier

---
 asn1crt/asn1crt_encoding_uper.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index adbbeae..2681f69 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -95,10 +95,14 @@ static flag ObjectIdentifier_subidentifiers_uper_decode(BitStream* pBitStrm, asn
 
 		bLastOctet = ((curByte & 0x80) == 0);
 		curOctetValue = curByte & 0x7F;
+		//the component does not fit in an asn1SccUint
+		if ((*siValue >> (8 * sizeof(asn1SccUint) - 7)) != 0)
+			return FALSE;
 		(*siValue) <<= 7;
 		(*siValue) |= curOctetValue;
 	}
-	return TRUE;
+	//FALSE when the contents end before the last octet of the component
+	return bLastOctet;
 }
 
 static flag ObjectIdentifier_uper_decode_length(BitStream* pBitStrm, asn1SccSint* totalSize) {
-- 
2.43.0


From 6b3cbed6491c757fb4e7e1b2e6f837bb345438eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 21/31] fix: subnormal REAL values were encoded as other
 numbers

---
 asn1crt/asn1crt_encoding.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index b2b8904..179ecb8 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1113,14 +1113,22 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 	*mantissa = 0;
 
 #if FP_WORD_SIZE==8
-	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
+	*exponent = (int)((ll & ExpoBitMask) >> 52);
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (*exponent == 0)
+		*exponent = 1;	/* subnormal: no hidden bit */
+	else
+		(*mantissa) |= MantisaExtraBit;
+	*exponent -= 1023 + 52;
 #else
-	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
+	*exponent = (int)((ll & ExpoBitMask) >> 23);
 
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
+	if (*exponent == 0)
+		*exponent = 1;	/* subnormal: no hidden bit */
+	else
+		(*mantissa) |= MantisaExtraBit;
+	*exponent -= 127 + 23;
 #endif
 }
 
-- 
2.43.0


From c7f49a3c1f4912b21103a1b67bd5d4d5938e75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 22/31] fix: small REAL values decoded as zero, and large
 exponents took billions of steps

---
 asn1crt/asn1crt_encoding.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 179ecb8..55519b3 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1137,25 +1137,20 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
+	asn1Real ret = (asn1Real)mantissa;
+	asn1Real power = exponent < 0 ? (asn1Real)0.5 : (asn1Real)2.0;
+	unsigned int n = exponent < 0 ? 0U - (unsigned int)exponent : (unsigned int)exponent;
 	if (mantissa == 0)
 		return 0.0;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
-	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	/* by repeated squaring; 2^exponent itself may be out of range when the result is not */
+	while (n) {
+		if (n & 1)
+			ret = ret * power;
+		power = power * power;
+		n >>= 1;
 	}
+	return ret;
 #endif
 }
 
-- 
2.43.0


From 50307e73cf455e88dc68c3f4b599ac328b46478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 23/31] fix: minus zero was encoded as plus zero

---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 55519b3..9f80bb3 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1171,12 +1171,12 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 		return;
 	}
 
-	if (v == 0.0)
+	if (v == 0.0 && !signbit(v))
 	{
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
+	if (v == 0.0) {
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
 		return;
-- 
2.43.0


From 66d6be9b5c7d4a14f0c8a93427c237b730537460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 24/31] fix: REAL encodings that are not supported or truncated
 were decoded as some number

---
 asn1crt/asn1crt_encoding.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 9f80bb3..048d864 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1252,6 +1252,9 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
+	if (header < 0x80 && length != 1)
+		return FALSE;
+
 	if (header == 0x40)
 	{
 		*v = INFINITY;
@@ -1283,14 +1286,16 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
-	int exponent;
-	flag expIsNegative = FALSE;
+	int exponent = 0;
 	int expFactor = 1;
 	asn1SccUint N = 0;
 	int i;
 
+	/* only the binary encoding, in base 2, 8 or 16, with an exponent of up to three bytes */
+	if (!(header & 0x80) || (header & 0x30) == 0x30 || (header & 0x03) == 0x03)
+		return FALSE;
+
 	if (header & 0x40)
 		sign = -1;
 	if (header & 0x10) {
@@ -1303,19 +1308,16 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
 
 	if (expLen>length)
 		return FALSE;
-	expIsNegative = BitStream_PeekBit(pBitStrm);
-	exponent = expIsNegative ? 0xFFFFFFFF : 0;
 	for (i = 0; i<expLen; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		exponent = exponent << 8 | b;
+		exponent = i == 0 ? (int)(int8_t)b : exponent * 256 + b;
 	}
 
 	length -= expLen;
@@ -1324,12 +1326,14 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		if (N >> (8 * sizeof(N) - 8))
+			return FALSE;
 		N = N << 8 | b;
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/*  *v = N*2^F * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, expFactor*exponent + F);
 
 	if (sign<0)
 		*v = -(*v);
-- 
2.43.0


From de63187cc45e730da7f2cdc679a53bd7a07c1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 25/31] fix: with 4-byte words, REAL values lost the upper half
 of the mantissa

---
 asn1crt/asn1crt_encoding.c | 23 ++++++++++-------------
 asn1crt/asn1crt_encoding.h |  2 +-
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 048d864..83b751e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1132,7 +1132,7 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #endif
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
@@ -1162,6 +1162,7 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 	byte header = 0x80;
 	int nExpLen;
 	int nManLen;
+	int i;
 	int exponent;
 	asn1SccUint64 mantissa;
 
@@ -1203,7 +1204,9 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 	CalculateMantissaAndExponent(v, &exponent, &mantissa);
 	nExpLen = GetLengthInBytesOfSInt(exponent);
-	nManLen = GetLengthInBytesOfUInt(mantissa);
+	/* the mantissa may be longer than asn1SccUint */
+	for (nManLen = 1; nManLen < (int)sizeof(mantissa) && (mantissa >> (8 * nManLen)) != 0; nManLen++)
+		;
 	assert(nExpLen <= 3);
 	if (nExpLen == 2)
 		header |= 1;
@@ -1218,19 +1221,13 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 	BitStream_EncodeConstraintWholeNumber(pBitStrm, header, 0, 0xFF);
 
 	/* encode exponent */
-	if (exponent >= 0) {
-		BitStream_AppendNBitZero(pBitStrm, nExpLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)exponent));
-		BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)exponent);
-	}
-	else {
-		BitStream_AppendNBitOne(pBitStrm, nExpLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-exponent - 1)));
-		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-exponent - 1), 1);
-	}
+	for (i = nExpLen - 1; i >= 0; i--)
+		BitStream_AppendByte(pBitStrm, (byte)((unsigned int)exponent >> (8 * i)), 0);
 
 
 	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	for (i = nManLen - 1; i >= 0; i--)
+		BitStream_AppendByte(pBitStrm, (byte)(mantissa >> (8 * i)), 0);
 
 }
 
@@ -1289,7 +1286,7 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int expLen;
 	int exponent = 0;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
 
 	/* only the binary encoding, in base 2, 8 or 16, with an exponent of up to three bytes */
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From aab0cfd029f8583cd6d7a972ea8bb002ec48f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 26/31] fix: empty strings in fragmented form were refused, too
 short ones accepted

---
 asn1crt/asn1crt_encoding.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 83b751e..cb520a7 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1601,7 +1601,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if (nLengthTmp1 <= asn1SizeMax) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1656,7 +1656,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		}
 	}
 	else {
-		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax);
+		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax) && *nCount >= asn1SizeMin;
 	}
 	return ret;
 }
@@ -1789,7 +1789,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From db2723965a81c23acc8a030f75267bec66f94b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 27/31] fix: bit strings longer or shorter than their size
 range were encoded as another length

---
 asn1crt/asn1crt_encoding.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index cb520a7..2f10ab1 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1663,6 +1663,9 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 
 
 flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
+	if (nCount < asn1SizeMin || nCount > asn1SizeMax)
+		return FALSE;
+
 	if (asn1SizeMax < 65536) {
 		if (asn1SizeMin != asn1SizeMax) {
 			BitStream_EncodeConstraintWholeNumber(pBitStrm, nCount, asn1SizeMin, asn1SizeMax);
-- 
2.43.0


From 17f2003ed026b765c8c13a627c438f5ed6a27f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 28/31] fix: uPER numbered the enumerators in the order they
 are written, not by value

---
 BackendAst/DAstUPer.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..f74e857 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,7 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
-- 
2.43.0


From 5765b6794acb126e8681b78d17dfab7c84c8069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 29/31] fix: negative element counts and characters outside the
 string type passed validation

---
 BackendAst/DastValidate2.fs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..0bed1dc 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -193,6 +193,12 @@ let foldSizeRangeTypeConstraint (r:Asn1AcnAst.AstRoot)   (lm:LanguageMacros)  ge
         st
 
 
+(* In C the element count is a signed integer: a size constraint does not admit a negative one, even where its lower bound is zero *)
+let sizeIsNotNegative (lm:LanguageMacros) getSizeFunc : (CodegenScope -> ValidationCodeBlock) list =
+    match ProgrammingLanguage.ActiveLanguages.Head with
+    | ProgrammingLanguage.C -> [fun p -> VCBExpression (Lte lm true "0" (getSizeFunc lm p))]
+    | _                     -> []
+
 let foldSizableConstraint (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) hasCount compareSingValueFunc  getSizeFunc  (c:SizableTypeConstraint<'v>) st =
     foldSizableTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
         (fun _ v  s           -> (fun p -> compareSingValueFunc p v) ,s)
@@ -668,16 +674,40 @@ let createBoolFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.A
 
 let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.OctetString) (typeDefinition:TypeDefinitionOrReference) (equalFunc:EqualFunction) (printValue  : string -> (Asn1ValueKind option) -> (Asn1ValueKind) -> string) (us:State)  =
     let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> octetStringConstraint2ValidationCodeBlock r l  t.id o equalFunc c us) us
+    let fncs =
+        match o.isFixedSize || o.minSize.uper > 0I with
+        | true  -> fncs
+        | false -> (sizeIsNotNegative l (fun _ p -> l.lg.Length (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath)))@fncs
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.BitString) (typeDefinition:TypeDefinitionOrReference) (defOrRef:TypeDefinitionOrReference) (equalFunc:EqualFunction) (printValue  : string -> (Asn1ValueKind option) -> (Asn1ValueKind) -> string) (us:State)  =
     let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> bitStringConstraint2ValidationCodeBlock r l  t.id o equalFunc c us) us
+    let fncs =
+        match o.isFixedSize || o.minSize.uper > 0I with
+        | true  -> fncs
+        | false -> (sizeIsNotNegative l (fun _ p -> l.lg.Length (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath)))@fncs
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
+let typeAlphabet (l:LanguageMacros) (o:Asn1AcnAst.StringType) : (CodegenScope -> string) option =
+    match ProgrammingLanguage.ActiveLanguages.Head with
+    | ProgrammingLanguage.C when o.isNumeric -> Some (fun p -> l.isvalid.stringContainsChar (" 0123456789".IDQ) (p.accessPath.joined l.lg))
+    | ProgrammingLanguage.C                  -> Some (fun p -> sprintf "(byte)%s <= 127" (p.accessPath.joined l.lg))
+    | _                                      -> None
+
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
     let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
+    //characters outside the alphabet of the type itself, when no permitted alphabet constraint excludes them
+    let fncs, ns =
+        let chars = typeAlphabet l o
+        match chars with
+        | Some body when ns.alphaFuncs.IsEmpty ->
+            let alphaFuncName = ToC (((t.id.AcnAbsPath |> Seq.skip 1 |> Seq.StrJoin("-")).Replace("#","elm")) + "_CharsAreValid_0")
+            let alphaFunc = {AlphaFunc.funcName = alphaFuncName; funcBody = (fun (p:CodegenScope) -> l.isvalid.Print_AlphabetCheckFunc alphaFuncName [body p]) }
+            fncs@[fun (p:CodegenScope) -> VCBExpression (sprintf "%s(%s)" alphaFuncName (p.accessPath.joined l.lg))],
+            {ns with alphaIndex = 1; alphaFuncs = [alphaFunc]}
+        | _ -> fncs, ns
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
@@ -747,6 +777,10 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Ac
     let callBaseTypeFunc    = l.isvalid.call_base_type_func
 
     let vcbs, ns2 = o.cons |> Asn1Fold.foldMap(fun cs c -> sequenceOfConstraint2ValidationCodeBlock r l t.id o (childType:Asn1Type) equalFunc c cs) us
+    let vcbs =
+        match o.isFixedSize || o.minSize.uper > 0I with
+        | true  -> vcbs
+        | false -> (sizeIsNotNegative l (fun _ p -> l.lg.Length (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath)))@vcbs
 
     let chp (p:CodegenScope) = 
         let i = sprintf "i%d" (p.accessPath.SequenceOfLevel + 1)
-- 
2.43.0


From be650a8f43eb3302c486e95686b7fbbb68719d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:04 +0000
Subject: [PATCH 30/31] fix: ACN-inserted BOOLEANs ignored true-value and
 false-value

---
 BackendAst/Acn/AcnPrimitives.fs | 73 ++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/BackendAst/Acn/AcnPrimitives.fs b/BackendAst/Acn/AcnPrimitives.fs
index 53c8fe4..7043cdb 100644
--- a/BackendAst/Acn/AcnPrimitives.fs
+++ b/BackendAst/Acn/AcnPrimitives.fs
@@ -286,51 +286,50 @@ let nestChildItems (lm:LanguageMacros) (codec:CommonTypes.Codec) children =
     DAstUtilFunctions.nestItems lm.isvalid.JoinItems2 children
 
 
+let private booleanFuncBody (lm:LanguageMacros) (codec:CommonTypes.Codec) (acnProperties:AcnGenericTypes.BooleanAcnProperties) (errCode:ErrorCode) (p:CodegenScope) =
+    let Boolean         = lm.uper.Boolean
+    let acnBoolean      = lm.acn.Boolean
+    let BooleanTrueFalse = lm.acn.BooleanTrueFalse
+    let pvalue, ptr, resultExpr =
+        match codec, lm.lg.decodingKind with
+        | Decode, Copy ->
+            let resExpr = p.accessPath.asIdentifier
+            resExpr, resExpr, Some resExpr
+        | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
+    match acnProperties.encodingPattern with
+    | None ->
+        let pp, resultExpr = adaptArgument lm codec p
+        Boolean pp errCode.errCodeName codec, resultExpr
+    | Some (TrueValueEncoding pattern)  ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
+        let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (FalseValueEncoding pattern) ->
+        let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
+        let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
+        let nSize = pattern.Value.Length
+        acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
+    | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
+        let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
+        let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
+        let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
+        let nSize = trPattern.Value.Length
+        BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+
 let createAcnBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec)  (typeId : ReferenceToType) (o:Asn1AcnAst.AcnBoolean)  (us:State)  =
     AcnPrimitiveFactory.createAcnOnlyPrimitive codec typeId us (fun errCode ->
         fun (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) ->
-            let pp, resultExpr = adaptArgument lm codec p
-            let Boolean         = lm.uper.Boolean
-            let funcBodyContent = Boolean pp errCode.errCodeName codec
+            let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties errCode p
             let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux "BOOLEAN" "BOOLEAN" None o.acnMinSizeInBits o.acnMaxSizeInBits None
             Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]; icdResult = Some icd})
 
 let createBooleanFunction (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Boolean) (typeDefinition:TypeDefinitionOrReference) (baseTypeUperFunc : AcnFunction option) (isValidFunc: IsValidFunction option) (us:State)  =
     let funcBody (errCode:ErrorCode) (acnArgs: (AcnGenericTypes.RelativePath*AcnGenericTypes.AcnParameter) list) (nestingScope: NestingScope) (p:CodegenScope) =
-        let Boolean         = lm.uper.Boolean
-        let acnBoolean      = lm.acn.Boolean
-        let BooleanTrueFalse = lm.acn.BooleanTrueFalse
-
-        let funcBodyContent, resultExpr=
-            let pvalue, ptr, resultExpr =
-                match codec, lm.lg.decodingKind with
-                | Decode, Copy ->
-                    let resExpr = p.accessPath.asIdentifier
-                    resExpr, resExpr, Some resExpr
-                | _ -> lm.lg.getValue p.accessPath, lm.lg.getPointer p.accessPath, None
-            match o.acnProperties.encodingPattern with
-            | None ->
-                let pp, resultExpr = adaptArgument lm codec p
-                Boolean pp errCode.errCodeName codec, resultExpr
-            | Some (TrueValueEncoding pattern)  ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray pattern
-                let arrFalseValueAsByteArray = arrTrueValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr true (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (FalseValueEncoding pattern) ->
-                let arrBits = pattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseValueAsByteArray = bitStringValueToByteArray pattern
-                let arrTrueValueAsByteArray = arrFalseValueAsByteArray |> Array.map (~~~)
-                let nSize = pattern.Value.Length
-                acnBoolean pvalue ptr false (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrBits errCode.errCodeName codec, resultExpr
-            | Some (TrueFalseValueEncoding(trPattern, fvPatten)) ->
-                let arrTrueBits = trPattern.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrFalseBits = fvPatten.Value.ToCharArray() |> Seq.mapi(fun i x -> ((i+1).ToString()) + "=>" + if x='0' then "0" else "1") |> Seq.toList
-                let arrTrueValueAsByteArray = bitStringValueToByteArray trPattern
-                let arrFalseValueAsByteArray = bitStringValueToByteArray fvPatten
-                let nSize = trPattern.Value.Length
-                BooleanTrueFalse pvalue ptr (BigInteger nSize) arrTrueValueAsByteArray arrFalseValueAsByteArray arrTrueBits arrFalseBits errCode.errCodeName codec, resultExpr
+        let funcBodyContent, resultExpr = booleanFuncBody lm codec o.acnProperties errCode p
         let icd = AcnPrimitiveFactory.buildPrimitiveIcdAux (getASN1Name t) (getASN1Name t) None o.acnMinSizeInBits o.acnMaxSizeInBits t.unitsOfMeasure
         let aux = lm.lg.generateBooleanAuxiliaries r ACN t o nestingScope p.accessPath codec
         Some {AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; userDefinedFunctions=[]; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=aux; icdResult = Some icd}
-- 
2.43.0


From 7f22fd53b95a08404b6ff33fe47f5f41bd261ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:04 +0000
Subject: [PATCH 31/31] fix: a determinant shared by several fields left an
 error code behind although encoding succeeded

---
 StgC/acn_c.stg | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..4924990 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1161,6 +1161,9 @@ MultiAcnUpdate(v, sV0, sErrCode, arrsLocalDeclarations, arrsLocalUpdateStatement
         if (ret) {
             ret = (<arrsLocalCheckEquality; separator=" && ">);
             <v>_is_initialized = TRUE;
+            if (ret) {
+                *pErrCode = 0;
+            }
         }
     }
 }
-- 
2.43.0

