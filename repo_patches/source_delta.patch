From e8a6642c7d7abd6d143bb8ad1487590d2483451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 01/33] fix: bignumber sign handling: no negative zero, sign
 flag stays 0/1

---
 src/com/bignumber.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..5e87285 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -332,6 +332,8 @@ int BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		ret = _BnAdd(r, a, b);
 		r->sign = a->sign;
 	}
+	if (BN_ISZERO(r))
+		r->sign = 0;
 	return ret;
 }
 
@@ -353,6 +355,8 @@ int BnSub(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 			r->sign = !a->sign;
 		}
 	}
+	if (BN_ISZERO(r))
+		r->sign = 0;
 	return ret;
 }
 
@@ -706,7 +710,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 #endif
 
 	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	r->sign = BN_ISZERO(r) ? 0 : a->sign;
 
 	BnFree(aa);
 	BnFree(bb);
@@ -892,7 +896,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	BnShiftR(rr, (uint32_t)bit);
 
-	rr->sign = a->sign;
+	rr->sign = BN_ISZERO(rr) ? 0 : a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
 		BnSubInt(q, 1);
 		BnAdd(r, rr, b);
@@ -900,6 +904,8 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	else {
 		BnSet(r, rr);
 	}
+	if (BN_ISZERO(q))
+		q->sign = 0;
 
 	BnFree(aa);
 	BnFree(bb);
@@ -974,7 +980,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1007,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1087,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1104,6 +1110,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1121,7 +1128,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1140,6 +1147,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1182,6 +1190,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1214,6 +1223,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1961,7 +1971,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
@@ -1979,6 +1989,8 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 	if (i == al && a->length > 1 && (*--ad) == 0) {
 		a->length--;
 	}
+	if (BN_ISZERO(a))
+		a->sign = 0;
 	return RA_ERR_SUCCESS;
 }
 
-- 
2.43.0


From f20927fc79d8736a3a891ef906284495ae80f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 02/33] fix: word division when a partial dividend equals the
 divisor

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 5e87285..0ba9ace 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1098,7 +1098,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1134,7 +1134,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1178,7 +1178,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1210,7 +1210,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1253,7 +1253,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1273,7 +1273,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From b44e703ad4e30de579509c68da89198506b3362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 03/33] fix: BnMod used the caller's result as scratch and
 wrote past its capacity

---
 src/com/bignumber.c | 50 +++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 0ba9ace..40e8125 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -579,6 +579,7 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -610,11 +611,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -626,33 +629,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -666,11 +669,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -679,13 +682,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -698,23 +701,26 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = BN_ISZERO(r) ? 0 : a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = BN_ISZERO(rr) ? 0 : a->sign;
+
+	BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 7ccdf6a80da1997c52d0c338e399a425ad3feef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 04/33] fix: BnDiv (32-bit words) read a stale word when
 estimating a quotient digit

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 40e8125..61b00af 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -864,7 +864,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
-- 
2.43.0


From ce56fd0afd667b16a4d88da948dc3eb09f5927b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 05/33] fix: portable 128/64 division did not saturate on
 overflow

---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 61b00af..3fbc7b4 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -2077,6 +2077,10 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	bn_uint128_t bq;
 	int bit;
 
+	if (a.high >= b) {
+		// overflow
+		return UINT64_C(0xFFFFFFFFFFFFFFFF);
+	}
 	q = 0;
 
 	// make (ru / bu) fit to 32bit integer (ru = highst 64bit of r, bu = highst 32bit of bb)
-- 
2.43.0


From 5541226cb3458be370f6c5e232a3ece86bfbd5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 06/33] fix: multiplying by the word 0 left a denormalised or
 negative zero

---
 src/com/bignumber.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 3fbc7b4..a2725aa 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -985,8 +985,12 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
-		bn->sign = !bn->sign;
+		bn->sign = BN_ISZERO(bn) ? 0 : !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1012,8 +1016,12 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
-		bn->sign = !bn->sign;
+		bn->sign = BN_ISZERO(bn) ? 0 : !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1041,6 +1049,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1063,6 +1075,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
 		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
-- 
2.43.0


From 047c6e9b3bbde82d452b8552991751bb6e83a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 07/33] fix: shifting out every word left an empty number,
 shifting zero a denormalised one

---
 src/com/bignumber.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index a2725aa..931f91f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1318,7 +1318,7 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 	bn_uint_t val;
 	bn_uint_t val_prev;
 
-	if (bit == 0) {
+	if (bit == 0 || BN_ISZERO(bn)) {
 		return RA_ERR_SUCCESS;
 	}
 
@@ -1384,6 +1384,10 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 		return RA_ERR_SUCCESS;
 	}
 
+	if (bit / BN_WORD_BIT >= (uint32_t)bn->length) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	word = bit / BN_WORD_BIT;
 	bit %= BN_WORD_BIT;
 
@@ -1414,6 +1418,8 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	bn->length = (int)(intptr_t)(dest - bn->data);
 	if ( bn->length > 1 && *(--dest) == 0 )
 		bn->length--;
+	if (BN_ISZERO(bn))
+		bn->sign = 0;
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From b04dbac929c986326ba8e3e489e393ed6bc1c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 08/33] fix: shift counts near 2^32 wrapped around in the
 capacity check of BnShiftL

---
 src/com/bignumber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 931f91f..082672d 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1322,11 +1322,11 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 		return RA_ERR_SUCCESS;
 	}
 
-	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+	word = (int)(((uint64_t)bit + BN_WORD_BIT - 1) / BN_WORD_BIT);
 
 	if (bn->max_length < bn->length + word) {
 		// calculate the accurate required word length
-		word = (BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+		word = (int)(((uint64_t)BnGetBitLength(bn) + bit + BN_WORD_BIT - 1) / BN_WORD_BIT);
 		if (bn->max_length < word) {
 			assert(0);
 			return RA_ERR_NUMBER_SIZE;
-- 
2.43.0


From e3fd5f247cad91d653fc99bb1f2edc6fbe9c4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 09/33] fix: BnCmpUInt reported equality for negative numbers
 whose low word is 0

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 082672d..327dbe8 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -309,7 +309,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a))
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 09b633ccd4667b8d263590f1692b457821bb15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 10/33] fix: BnGenRandom masked with an int shift, kept a stale
 sign and ignored generator errors

---
 src/com/bignumber.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 327dbe8..483ad93 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1445,6 +1445,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int ret;
 	int word;
 
 	if (bit <= 0) {
@@ -1458,13 +1459,16 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	ret = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (ret != RA_ERR_SUCCESS)
+		return ret;
 
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
+	bn->sign = 0;
 	bn->length = word;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
-- 
2.43.0


From 38ef9bcf6ed765c5d87bf21fbbad7946ab0bb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 11/33] fix: BnAdd wrote past the result when only the second
 operand was too long for it

---
 src/com/bignumber.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 483ad93..fb90e3f 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1654,7 +1654,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
@@ -1805,6 +1805,10 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	al = a->length;
 	bl = b->length;
 
+	if (a->max_length < b->length) {
+		assert(0);
+		return RA_ERR_NUMBER_SIZE;
+	}
 	if (a->length < b->length) {
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
-- 
2.43.0


From 2383a46523716a481c5d96cc5c7c3c7a4f18bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 12/33] fix: importing a negative number ignored the overflow
 of its last carry

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index fb90e3f..ac182d6 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -242,7 +242,7 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 		bn->length--;
 	}
 	if (bn->sign)
-		BnSubInt(bn, 1);
+		return BnSubInt(bn, 1);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From a3a3f33c5326a7c202672a9440fd8b947fde1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 13/33] fix: BnToByteArray wrote a byte before checking the
 buffer size and dereferenced a failed clone

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index ac182d6..360d2d0 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1538,13 +1538,12 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL)
+			return 0;
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0xff;		// negative
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (neg->length - 1) * BN_WORD_BYTE;
@@ -1556,6 +1555,8 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 			BnFree(neg);
 			return 0;
 		}
+		if (offset > 0)
+			buffer[0] = 0xff;		// negative
 		bit = (bit / 8) * 8;
 		for (i = neg->length - 1; i >= 0; i--) {
 			word = ~neg->data[i];
@@ -1574,9 +1575,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0x00;		// positive
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (bn->length - 1) * BN_WORD_BYTE;
@@ -1586,6 +1584,8 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		if (bufferlen < len) {
 			return 0;
 		}
+		if (offset > 0)
+			buffer[0] = 0x00;		// positive
 		bit = (bit / 8) * 8;
 		for (i = bn->length - 1; i >= 0; i--) {
 			word = bn->data[i];
-- 
2.43.0


From edb189ca6b3458b92e3f5765a47c76d121d771e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 14/33] fix: BnClearFree of NULL and BnGetRandomRSA of no bits
 accessed invalid memory

---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 360d2d0..47a69c6 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,6 +67,8 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
+	if (bn == NULL)
+		return;
 	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
@@ -1497,6 +1499,8 @@ int BnGetRandomRSA(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
 
+	if (bit <= 0)
+		return RA_ERR_INVALID_PARAM;
 	bn->data[0] |= 1;
 	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
 	bit = ((bit - 1) % BN_WORD_BIT);
-- 
2.43.0


From 23bf24efbd50340e28539f86f7f028a00413de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 15/33] fix: BnDouble lost its carries when doubling in place

---
 src/com/bignumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 47a69c6..7b02781 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -367,6 +367,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	bn_uint_t val;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -380,8 +381,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
-		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		val = *ad;
+		*rd = (val << 1) + c;
+		c = (int)((val >> (BN_WORD_BIT - 1)) & 1);
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From a68d851166a9953220c6ca9c4898d0db29213198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 16/33] fix: word operations with the most negative word
 overflowed and gave wrong results

---
 src/com/bignumber.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 7b02781..f2ad138 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -77,7 +77,7 @@ void BnSetInt(struct RaBigNumber *bn, bn_int_t value)
 {
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		value = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)value);
 	}
 	else {
 		bn->sign = 0;
@@ -90,7 +90,7 @@ void BnSetInt32(struct RaBigNumber *bn, int32_t value)
 {
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		value = (int32_t)((uint32_t)0 - (uint32_t)value);
 	}
 	else {
 		bn->sign = 0;
@@ -103,7 +103,7 @@ void BnSetInt64(struct RaBigNumber *bn, int64_t value)
 {
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		value = (int64_t)((uint64_t)0 - (uint64_t)value);
 	}
 	else {
 		bn->sign = 0;
@@ -290,7 +290,7 @@ int BnCmpInt(struct RaBigNumber *a, bn_int_t val)
 	else {
 		if (a->length > 1 || val > 0)
 			return -1;
-		val = -val;
+		val = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)val);
 		if (a->data[0] > (bn_uint_t)val)
 			return -1;
 		else if (a->data[0] < (bn_uint_t)val)
@@ -937,9 +937,9 @@ int BnAddInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, (bn_uint_t)0 - (bn_uint_t)val);
 		else
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, (bn_uint_t)0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -965,9 +965,9 @@ int BnSubInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, (bn_uint_t)0 - (bn_uint_t)val);
 		else
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, (bn_uint_t)0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -995,7 +995,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	}
 	if (multiplier < 0) {
 		bn->sign = BN_ISZERO(bn) ? 0 : !bn->sign;
-		multiplier = -multiplier;
+		multiplier = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)multiplier);
 	}
 	val.high = 0;
 	val.low = 0;
@@ -1026,7 +1026,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	}
 	if (multiplier < 0) {
 		bn->sign = BN_ISZERO(bn) ? 0 : !bn->sign;
-		multiplier = -multiplier;
+		multiplier = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)multiplier);
 	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1114,7 +1114,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		divisor = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)divisor);
 	}
 
 	val.high = 0;
@@ -1155,7 +1155,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	}
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		divisor = (bn_int_t)((bn_uint_t)0 - (bn_uint_t)divisor);
 	}
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
-- 
2.43.0


From e095e65a5894da5853c1fac82aac937c4c2274e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 17/33] fix: /dev/urandom opened as descriptor 0 was taken for
 a failure

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..228a554 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -156,7 +156,7 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 	int size;
 	result = RA_ERR_INVALID_DATA;
 	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
+	if (fd >= 0) {
 		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
 		if (size == RA_RAND_SEED_LEN - 4) {
 			result = RA_ERR_SUCCESS;
-- 
2.43.0


From 04f01d460b062679fe5a24e9f34f83ba16892189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 18/33] fix: RaRandomInt over the full 32-bit range always
 returned the lower bound and RaRandom could return 0

---
 src/com/random.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/com/random.c b/src/com/random.c
index 228a554..795d33c 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -244,13 +244,19 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
 
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
-	uint32_t range = max - min + 1;
-	return min + (uint32_t)(range * RaRandom(ctx));
+	uint64_t range = (uint64_t)max - min + 1;
+	uint8_t rnd_buffer[4];
+	uint32_t rnd_val;
+
+	RaRandomBytes(ctx, 4, rnd_buffer);
+	rnd_val = ((uint32_t)rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
+
+	return min + (uint32_t)((range * rnd_val) >> 32);
 }
-- 
2.43.0


From 90692de46774d69b8a42b6fa581f3083cd55e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 19/33] fix: gcd of negative numbers was negative and results
 that did not fit were ignored

---
 src/com/gcd.c | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/com/gcd.c b/src/com/gcd.c
index 684f4eb..c796202 100644
--- a/src/com/gcd.c
+++ b/src/com/gcd.c
@@ -45,7 +45,9 @@ int GetGCD(/*out*/struct RaBigNumber *r, struct RaBigNumber *m, struct RaBigNumb
 		if (BnCmpUInt(r2, 0) == 0)
 			break;
 	}
-	BnSet(r, m);
+	result = BnSet(r, m);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+	r->sign = 0;
 
 	result = RA_ERR_SUCCESS;
 _EXIT:
@@ -130,11 +132,15 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 			break;
 
 		// s[k] = s[k-2] - q[k]*s[k-1]
-		BnMul(tmp, q, s_1);
-		BnSub(s_0, s_2, tmp);
+		result = BnMul(tmp, q, s_1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		result = BnSub(s_0, s_2, tmp);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		// t[k] = t[k-2] - q[k]*t[k-1]
-		BnMul(tmp, q, t_1);
-		BnSub(t_0, t_2, tmp);
+		result = BnMul(tmp, q, t_1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		result = BnSub(t_0, t_2, tmp);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		//
 		swap = s_2;
 		s_2 = s_1;
@@ -156,11 +162,15 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 			break;
 
 		// s[k] = s[k-2] - q[k]*s[k-1]
-		BnMul(tmp, q, s_1);
-		BnSub(s_0, s_2, tmp);
+		result = BnMul(tmp, q, s_1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		result = BnSub(s_0, s_2, tmp);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		// t[k] = t[k-2] - q[k]*t[k-1]
-		BnMul(tmp, q, t_1);
-		BnSub(t_0, t_2, tmp);
+		result = BnMul(tmp, q, t_1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		result = BnSub(t_0, t_2, tmp);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		//
 		swap = s_2;
 		s_2 = s_1;
@@ -171,25 +181,36 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 		t_1 = t_0;
 		t_0 = swap;
 	}
+	// the remainder has the sign of the dividend, the gcd is positive
+	if (BN_ISNEG(m1)) {
+		if (!BN_ISZERO(s_1))
+			s_1->sign ^= 1;
+		if (!BN_ISZERO(t_1))
+			t_1->sign ^= 1;
+	}
 	if (r != NULL) {
-		BnSet(r, m1);
+		result = BnSet(r, m1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+		r->sign = 0;
 	}
 	if (a != NULL) {
 		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		if (isUnsigned && BN_ISNEG(s_1)) {
-			BnAdd(a, s_1, n);
+			result = BN_ISNEG(n) ? BnSub(a, s_1, n) : BnAdd(a, s_1, n);
 		}
 		else {
-			BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
+			result = BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (b != NULL) {
 		if (isUnsigned && BN_ISNEG(t_1)) {
-			BnAdd(b, t_1, m);
+			result = BN_ISNEG(m) ? BnSub(b, t_1, m) : BnAdd(b, t_1, m);
 		}
 		else {
-			BnSet(b, t_1);
+			result = BnSet(b, t_1);
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From 0698734b031de422141dda8a1f336c5bb5720be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 20/33] fix: RaMontCreate freed uninitialised pointers on error
 and accepted even moduli

---
 src/com/montexpmod.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..70a6b15 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -58,7 +58,7 @@ static inline void _RaMontMul128(bn_uint128_t* r, uint64_t a, uint64_t b)
 };
 #endif
 
-// N must be prime number
+// N must be odd number
 int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 {
 	int result;
@@ -66,15 +66,19 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 	struct RaBigNumber *B = NULL;
 
 	if (BN_ISZERO(N)) {
-		assert(0);
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
+	if (BN_ISEVEN(N)) {		// R has no inverse
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	ctx = (struct RaMontCtx*)malloc(sizeof(struct RaMontCtx));
 	if (ctx == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
-- 
2.43.0


From 71a3888aa1a66dd7369f1760943c6638196248e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 21/33] fix: the primality test did not terminate for 3 and for
 negative odd numbers and dereferenced a failed clone

---
 src/com/prime.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..3db3f94 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,12 +286,20 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
+	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISNEG(bn) || BN_ISEVEN(bn) ) {
 		*probable = BN_ISTWO(bn);
 		return RA_ERR_SUCCESS;
 	}
+	if (BnCmpUInt(bn, 3) == 0) {		// there is no base to try
+		*probable = 1;
+		return RA_ERR_SUCCESS;
+	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
-- 
2.43.0


From ed9030e052a6fe0c887e82a42f7de18c1cba19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:03 +0000
Subject: [PATCH 22/33] fix: generated primes below 64 bits could get one bit
 too long, and errors of prime generation leaked

---
 src/com/prime.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 3db3f94..12316a5 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -384,6 +384,7 @@ _EXIT:
 
 static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	uint32_t *mods = NULL;
 	int i;
 	uint32_t add;
@@ -396,7 +397,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
@@ -419,10 +424,13 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		if (val + add < val)
 			continue;
 
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) != bit)
+			continue;
+
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
@@ -460,22 +468,20 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 				break;
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		if (isPrime) {
 			break;
 		}
 	}
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From 26ddc1c3087cf6eb2a2c63429cb326239084a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 23/33] fix: ASN.1 parser stopped at empty or doubly ended
 elements and ignored nesting errors

---
 src/pk/asn1.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..6034001 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -187,21 +187,32 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
-			continue;
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
-
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
-			result = ASN1Pop(ctx);
-			if (result == RA_ERR_OUT_OF_BUFFER) {
-				result = RA_ERR_SUCCESS;
+		else if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
+			if (ctx->dataSP == 0)
 				break;
+			if (ctx->dataStack[ctx->dataSP - 1].dataIndex != -1) {		// not in indefinite length
+				result = RA_ERR_INVALID_DATA;
+				goto _EXIT;
 			}
+			result = ASN1Pop(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
+
+		// leave every definite length object which ends here
+		while (ctx->dataSP > 0 && ctx->dataIndex >= ctx->dataEnd && ctx->dataStack[ctx->dataSP - 1].dataIndex != -1) {
+			result = ASN1Pop(ctx);
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
 	};
 
+	if (ctx->dataSP > 0) {		// end-of-content is missing
+		result = RA_ERR_OUT_OF_BUFFER;
+		goto _EXIT;
+	}
+
 	result = RA_ERR_SUCCESS;
 _EXIT:
 	return result;
-- 
2.43.0


From e1cf509425d3b35e890f8f2ef2c725cc5d938255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 24/33] fix: RSA key import read past empty integers and short
 object identifiers and took negative integers

---
 src/pk/asn1.c |  3 +--
 src/pk/rsa.c  | 12 ++++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index 6034001..7bd37c2 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -158,8 +158,7 @@ static int ASN1Read(struct RaAsn1Ctx *ctx)
 		}
 		ctx->cur->dataLength = 0;
 		while (length-- > 0) {
-			ctx->cur->dataLength <<= 8;
-			ctx->cur->dataLength += ctx->data[ctx->dataIndex++];
+			ctx->cur->dataLength = (int)(((uint32_t)ctx->cur->dataLength << 8) + ctx->data[ctx->dataIndex++]);
 		}
 	}
 
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..6fd3790 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -286,8 +286,16 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	if (node->dataLength <= 0) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
+	if ((asn1Data[node->dataOffset] & 0x80) != 0) {		// negative
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
 	bit = node->dataLength * 8;
-	if (asn1Data[node->dataOffset] == 0x00 || asn1Data[node->dataOffset] == 0xff) {
+	if (asn1Data[node->dataOffset] == 0x00 && node->dataLength > 1) {
 		bit -= 8;
 	}
 
@@ -439,7 +447,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From c4dc716e7b55ddbe8e7f5a113f054debd31168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 25/33] fix: RSA key export dropped integers more than eight
 times as long as the modulus

---
 src/pk/rsa.c | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 6fd3790..801b0bd 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -559,6 +559,32 @@ static const uint8_t rsakeyVersion[] = {
 	0x02, 0x01, 0x00
 };
 
+// number of bytes enough for every integer of the key
+static int RaRsaGetMaxByteLength(struct RaRsaKeyPair *key)
+{
+	struct RaBigNumber *bn[8];
+	int max = 0;
+	int len;
+	int i;
+
+	bn[0] = key->mod;
+	bn[1] = key->pub;
+	bn[2] = key->priv;
+	bn[3] = key->prime1;
+	bn[4] = key->prime2;
+	bn[5] = key->exp1;
+	bn[6] = key->exp2;
+	bn[7] = key->coeff;
+	for (i = 0; i < 8; i++) {
+		if (bn[i] == NULL)
+			continue;
+		len = BnToByteArray(bn[i], NULL, 0);
+		if (len > max)
+			max = len;
+	}
+	return max < 5 ? 5 : max;		// ASN1EncodeLength() needs up to 5 bytes
+}
+
 int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, int dataLen, /*out*/int *resultLen)
 {
 	int result;
@@ -566,11 +592,9 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 	uint8_t *temp = NULL;
 	int bufferlen;
 	int offset;
-	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = RaRsaGetMaxByteLength(key);
 
 	if (key->priv == NULL) {
 		result = RA_ERR_INVALID_DATA;
@@ -739,11 +763,9 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	uint8_t *temp = NULL;
 	int bufferlen;
 	int offset;
-	int bit;
 	int bytelen;
 	int len;
-	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = RaRsaGetMaxByteLength(key);
 
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
-- 
2.43.0


From a25ed5f0f690402816f850245e4c1d3c7b96b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 26/33] fix: RSA key generation did not check that the public
 exponent is invertible and destroyed an uninitialised key on errors

---
 src/pk/rsa.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 801b0bd..1eb207f 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -39,6 +39,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(key, 0, sizeof(struct RaRsaKeyPair));
 	key->mod = BnNew(bit);
 	key->pub = BnNew(32);
 	key->priv = BnNew(bit);
@@ -66,6 +67,7 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 
 	BnSetUInt(key->pub, 65537);
 
+_RETRY:
 	do {
 		result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -81,9 +83,11 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	BnSubInt(key->prime1, 1);
 	BnSubInt(key->prime2, 1);
 	BnMul(phi, key->prime1, key->prime2);
-	result = GetGCDEx(NULL, key->priv, NULL, key->pub, phi, 1);
+	result = GetGCDEx(key->exp1, key->priv, NULL, key->pub, phi, 1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-	
+	if (!BN_ISONE(key->exp1))		// public exponent has no inverse
+		goto _RETRY;
+
 	//*
 	result = BnMod(key->exp1, key->priv, key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From 4d772e66ec85459984912145963b354a9f6f04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 27/33] fix: RaRsaVerify ignored a failing exponentiation and
 aborted on overlong signatures

---
 src/pk/rsa.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 1eb207f..401ce9b 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -185,11 +185,18 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	int result;
 	struct RaBigNumber *decrypted;
 
+	if (secure->length > key->mod->length)
+		return RA_ERR_INVALID_DATA;
+
 	decrypted = BnNewW(key->mod->length);
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result != RA_ERR_SUCCESS) {
+		BnFree(decrypted);
+		return result;
+	}
 	result = BnCmp(message, decrypted);
 
 	BnFree(decrypted);
-- 
2.43.0


From b589036f473d3540ff30731180b62a955b5a5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 28/33] fix: key verification rejected valid keys (d modulo
 lcm, odd bit splits), accepted equal primes and crashed on a zero exponent or
 failed allocation

---
 src/pk/rsa.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 401ce9b..6544c79 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -217,12 +217,13 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 {
 	int result;
 	struct RaBigNumber *temp = NULL;
-	struct RaBigNumber *phi = NULL;
+	struct RaBigNumber *rem = NULL;
 	struct RaBigNumber *prime1Sub1 = NULL;
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
 
 	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
+	CHECK_KEY_DATA(BnCmpUInt(key->pub, 1) > 0);
 
 	if (key->priv == NULL) {
 		result = RA_ERR_SUCCESS;
@@ -230,10 +231,18 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	bit = BnGetBitLength(key->mod);
-	temp = BnNew(bit);
-	phi = BnNew(bit);
+	temp = BnNew(bit * 2);
+	rem = BnNew(bit);
+	if (temp == NULL || rem == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
-	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
+	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
+	CHECK_KEY_DATA(BnCmp(key->prime1, key->prime2) != 0);
+
+	// product of two numbers can be one bit shorter
+	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) <= bit + 1);
 
 	result = RaIsPrimeNumber(key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -254,23 +263,32 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	BnSubInt(prime1Sub1, 1);
 	BnSubInt(prime2Sub1, 1);
 
-	BnMul(phi, prime1Sub1, prime2Sub1);
-
-	result = GetGCDEx(NULL, temp, NULL, key->pub, phi, 1);
+	result = BnMod(temp, key->priv, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	CHECK_KEY_DATA(BnCmp(temp, key->priv) == 0);
+	CHECK_KEY_DATA(BnCmp(temp, key->exp1) == 0);
 
-	result = BnMod(temp, key->priv, prime1Sub1);
+	// e*d = 1 mod (prime1 - 1), it is enough to be valid on lcm(prime1 - 1, prime2 - 1)
+	result = BnMul(temp, key->pub, key->exp1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+	result = BnMod(rem, temp, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	CHECK_KEY_DATA(BnCmp(temp, key->exp1) == 0);
+	CHECK_KEY_DATA(BN_ISONE(rem));
 
 	result = BnMod(temp, key->priv, prime2Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 	CHECK_KEY_DATA(BnCmp(temp, key->exp2) == 0);
 
+	// e*d = 1 mod (prime2 - 1), it is enough to be valid on lcm(prime1 - 1, prime2 - 1)
+	result = BnMul(temp, key->pub, key->exp2);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+	result = BnMod(rem, temp, prime2Sub1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISONE(rem));
+
 	result = GetGCDEx(NULL, temp, NULL, key->prime2, key->prime1, 1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
@@ -280,7 +298,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 _EXIT:
 	BN_SAFEFREE(temp);
-	BN_SAFEFREE(phi);
+	BN_SAFEFREE(rem);
 	BN_SAFEFREE(prime1Sub1);
 	BN_SAFEFREE(prime2Sub1);
 
-- 
2.43.0


From d64d762b8cff5b0f470f941d3d75d37ccc61ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:34 +0000
Subject: [PATCH 29/33] fix: the compiler removed the clearing of destroyed
 contexts, keys and numbers

---
 src/cipher/aes.c          | 2 +-
 src/cipher/aria.c         | 2 +-
 src/cipher/blowfish.c     | 2 +-
 src/cipher/des.c          | 2 +-
 src/cipher/rc4.c          | 2 +-
 src/cipher/seed.c         | 2 +-
 src/com/bignumber.c       | 2 +-
 src/com/montexpmod.c      | 2 +-
 src/com/random.c          | 4 ++--
 src/digest/has160.c       | 2 +-
 src/digest/md2.c          | 2 +-
 src/digest/md4.c          | 2 +-
 src/digest/md5.c          | 2 +-
 src/digest/sha1.c         | 2 +-
 src/digest/sha2.c         | 2 +-
 src/include/racrypt_com.h | 9 +++++++++
 src/pk/rsa.c              | 2 +-
 17 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..3cd465b 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		_RaClearMemory(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..03eda1b 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		_RaClearMemory(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..ec0868a 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		_RaClearMemory(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..10026a4 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		_RaClearMemory(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..10f3199 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..eeeca04 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		_RaClearMemory(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f2ad138..92efd28 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -69,7 +69,7 @@ void BnClearFree(struct RaBigNumber* bn)
 {
 	if (bn == NULL)
 		return;
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	_RaClearMemory(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 70a6b15..9f51a6d 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -133,7 +133,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 		BnClearFree(ctx->BB);
 		BnClearFree(ctx->tmp);
 		BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		_RaClearMemory(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index 795d33c..afbefb6 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -40,7 +40,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		_RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -68,7 +68,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		_RaClearMemory(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..e55eb38 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..75ae6f2 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..3589d16 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..d2b6978 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..9459fe1 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..059444f 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		_RaClearMemory(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..9d61293 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -3,6 +3,9 @@
 #ifndef __RA_COM_H__
 #define __RA_COM_H__
 
+#include <stddef.h>
+#include <string.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -15,6 +18,12 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+/* Clears memory that is about to be released. A plain memset would be removed by the optimizer. */
+static inline void _RaClearMemory(void *data, size_t len)
+{
+	void *(*volatile fnClear)(void *, int, size_t) = memset;
+	fnClear(data, 0, len);
+}
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 6544c79..78ae1d8 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -151,7 +151,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	_RaClearMemory(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From d02318e2efe67e894a5568e70073226c65b16933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 30/33] fix: BnDiv rounded a negative quotient up when the
 dividend had fewer words than the divisor

---
 src/com/bignumber.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 92efd28..2d25cff 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -765,8 +765,15 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
-		BnSet(r, a);
-		BnSetInt(q, 0);
+		if (a->sign != b->sign && !BN_ISZERO(a)) {
+			// negative quotient is rounded down
+			BnAdd(r, a, b);
+			BnSetInt(q, -1);
+		}
+		else {
+			BnSet(r, a);
+			BnSetInt(q, 0);
+		}
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 8307dec15311f57de8371195b09fb38b9a168e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 31/33] fix: prime generation below 16 bits did not end: the
 sieve rejected the primes of its own table

---
 src/com/prime.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 12316a5..28dd29c 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -391,6 +391,9 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	uint64_t val;
 	bn_uint_t mod;
 
+	if (bit < 2) {		// no prime number is that short
+		return RA_ERR_INVALID_PARAM;
+	}
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
 	if (mods == NULL) {
 		return RA_ERR_OUT_OF_MEMORY;
@@ -408,9 +411,12 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 			mods[i] = (uint32_t)mod;
 		}
 		add = 0;
+		val = _BnGetUInt64(bn);
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
 				if ((mods[i] + add) % primes[i] == 0) {
+					if (bit < 32 && val + add == primes[i])		// it is this prime number
+						continue;
 					add += 2;
 					break;
 				}
@@ -420,7 +426,6 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		}
 
 		// avoid overflow. if a random value is 0xffff....fff0 and an add value is 0x10, bit count will be unexpectedly increased. 
-		val = _BnGetUInt64(bn);
 		if (val + add < val)
 			continue;
 
-- 
2.43.0


From f4734dabd89286855a01dd9c40b1f4db7b755b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 32/33] fix: RSA key generation of a modulus not above the
 public exponent did not end

---
 src/pk/rsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 78ae1d8..e76d125 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -29,6 +29,10 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 
 	assert((bit % 2) == 0);
 
+	if (bit < 18) {		// the modulus must be greater than the public exponent 65537
+		return RA_ERR_INVALID_PARAM;
+	}
+
 	result = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &rnd);
 	if (result != RA_ERR_SUCCESS) {
 		goto _EXIT;
-- 
2.43.0


From d247274b0e8b3664cb056363d4bfdfe1a5430c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 33/33] fix: Blowfish with an empty key divided by zero

---
 src/cipher/blowfish.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index ec0868a..18a1712 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -329,6 +329,12 @@ void RaBlowfishInit(struct RaBlowfishCtx *ctx, const uint8_t *key, int keyLen, e
 	uint32_t data_l;
 	uint32_t data_r;
 	int p;
+	uint8_t zero = 0;
+
+	if (key == NULL || keyLen <= 0) {
+		key = &zero;
+		keyLen = 1;
+	}
 
 	RaBlockCipherInit(&ctx->blockCipher, RaBlowfishEncryptBlock, RaBlowfishDecryptBlock, opMode, RA_BLOCK_LEN_BLOWFISH, ctx->iv, ctx->buffer);
 
-- 
2.43.0

