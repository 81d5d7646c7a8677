From 0b3660760e6ae0ea5b32fd3347439064e5a8b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 01/19] fix: an invalid view never matches a valid empty view

---
 strview.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..3f94c07 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,7 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +75,7 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From fb12c6b45782d7d2441946f151bea7ea877d2b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 02/19] fix: recognise the complete word infinity when parsing
 floating point

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..f78016f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From dbb60cefc6d8c6e063d9b7542796c90c5a250357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 03/19] fix: bytes 0xB0 and 0xB1 are not binary digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index f78016f..4c3b621 100644
--- a/strnum.c
+++ b/strnum.c
@@ -887,7 +887,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return (c & 0xFE) == 0x30;
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From b2980b831515d1f93676f5bd37eb1bcf5619642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 04/19] fix: scale every group of digits by its own power of
 ten

Groups of integral digits after the first were scaled by the wrong power, a
zero times an overflowing power of ten gave nan, and digits and exponent which
under/overflow on their own were lost although their product is in range.
---
 strnum.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/strnum.c b/strnum.c
index 4c3b621..20081af 100644
--- a/strnum.c
+++ b/strnum.c
@@ -2,6 +2,7 @@
 */
 
 	#ifndef STRNUM_NOFLOAT
+		#include <float.h>
 		#include <math.h>
 	#endif
 	#include <limits.h>
@@ -546,16 +547,30 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
+//	add ull * 10^power to result, in two steps when 10^power alone would be less than the smallest normal value of typ
+#define add_scaled(typ, powfunc, min_10_exp)									\
+	if(ull)																		\
+	{																			\
+		part = (typ)ull;														\
+		if(power < min_10_exp)													\
+		{																		\
+			part *= powfunc(10, min_10_exp);									\
+			power -= min_10_exp;												\
+		};																		\
+		result += part * powfunc(10, power);									\
+	};
+
+#define make_float_type(typ, powfunc, min_10_exp)								\
 	typ result = 0.0;															\
-	typ fractional_part;														\
+	typ part;																	\
 	unsigned long long ull;														\
-	int fractional_power = 0;													\
+	long long power;															\
+	long long fractional_power = 0;												\
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		power = (long long)exp_value + integral_digits.size;					\
+		add_scaled(typ, powfunc, min_10_exp)									\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
@@ -563,26 +578,24 @@ static int consume_exponent(float_components_t* fc)
 		fractional_power -= fractional_digits.size;								\
 		consume_decimal_digits(&ull, &fractional_digits);						\
 		fractional_power += fractional_digits.size;								\
-		fractional_part = (typ)ull;												\
-		fractional_part *= powfunc(10, fractional_power);						\
-		result += fractional_part;												\
+		power = exp_value + fractional_power;									\
+		add_scaled(typ, powfunc, min_10_exp)									\
 	};																			\
-	result *= powfunc(10, exp_value);											\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, powf, FLT_MIN_10_EXP)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, pow, DBL_MIN_10_EXP)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, powl, LDBL_MIN_10_EXP)
 }
 
 #endif
-- 
2.43.0


From 5621432621bb4e480a548b4d3436940be30f2a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 05/19] fix: strnum_consume_float() without a source reports
 EINVAL instead of crashing

---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 20081af..f105d65 100644
--- a/strnum.c
+++ b/strnum.c
@@ -322,10 +322,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From 0599f7df52bc48ffb8a73decfa8d0a895b94e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 06/19] fix: strnum_value() compiles with STRNUM_NOFLOAT

---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 99fe301d1963314da53723ca83a68e53f84bafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 07/19] fix: empty the buffer when vsnprintf() reports an error

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..c16a6a0 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From 948beac98865ae861ee1ddfe5bf3d88e3194fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 08/19] fix: strbuf_strip() with stripchars viewing the buffer
 itself

---
 strbuf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index c16a6a0..5298821 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -525,15 +525,21 @@ strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)
 	strbuf_t* buf;
 	char* ptr;
 	int count;
+	bool strip[UCHAR_MAX+1];
+	int c;
 
 	if(buf_ptr && *buf_ptr && strview_is_valid(stripchars))
 	{
+		// stripchars may view the buffer itself, so evaluate it before anything is moved
+		for(c = 0; c <= UCHAR_MAX; c++)
+			strip[c] = view_contains_char(stripchars, (char)c);
+
 		buf = *buf_ptr;
 		count = buf->size;
 		ptr = buf->cstr;
 		while(count)
 		{
-			if(view_contains_char(stripchars, *ptr))
+			if(strip[(unsigned char)*ptr])
 			{
 				memmove(ptr, ptr+1, count);
 				buf->size--;
-- 
2.43.0


From 67ab696f56fb5be5829ff88e26a870ac4fb97178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 09/19] fix: detect sizes exceeding INT_MAX without relying on
 signed overflow

---
 strbuf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 5298821..eb5cb08 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -286,15 +286,16 @@ strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va
 {
 	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
+	int initial_size;
 	int char_count;
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
 
-		char_count = buf->size;
-		char_count += vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		initial_size = buf->size;
+		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
 
-		if(char_count > buf->size || char_count < 0)
+		if(char_count > buf->size - initial_size || char_count < 0)
 			empty_buf(buf);
 
 		str = strbuf_view(&buf);
@@ -605,7 +606,8 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	{
 		str = va_arg(va, strview_t);
 		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
@@ -796,9 +798,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b >= 0 ? a > INT_MAX - b : a < INT_MIN - b;
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 5b7b63ea8a2c5d13168371551835079cce76539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 10/19] fix: printf into a buffer having INT_MAX free capacity

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index eb5cb08..5ad0299 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb);
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From b561b50c97e729b2fe89eb2e00b97f81fe3856c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 11/19] fix: strview_split_line() leaves the source unmodified
 without a line ending

---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 3f94c07..78cc4db 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From 0b858f909f9b81a35c2220a0ed3854245e48a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 12/19] fix: strbuf_encrypt()/strbuf_decrypt() return a view of
 the buffer

---
 accessories/strbuf_crypt/strbuf_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..e730e98 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -77,6 +77,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->cstr[buf->size] = 0;
 		};
 		*buf_ptr = buf;	
+		retval = strbuf_view(buf_ptr);
 	};
 
 	return retval;
-- 
2.43.0


From 7d2dd620c26d0a61c16393a7376f0fe9f8a3d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 13/19] fix: decrypting does not require spare capacity in the
 buffer

---
 accessories/strbuf_crypt/strbuf_crypt.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index e730e98..fb53b2e 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -34,7 +34,7 @@
 	static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int cypher_size(int content_size);
 	static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16]);
-	static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
+	static strview_t strbuf_crypt(encdec_fptr_t fptr, int required_capacity, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
 
 //********************************************************************************************************
 // Public functions
@@ -42,19 +42,19 @@
 
 strview_t strbuf_encrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
 {
-	return strbuf_crypt(enc256cbc, buf_ptr, key, ivec);
+	return strbuf_crypt(enc256cbc, (buf_ptr && *buf_ptr) ? cypher_size((*buf_ptr)->size) : 0, buf_ptr, key, ivec);
 }
 
 strview_t strbuf_decrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
 {
-	return strbuf_crypt(dec256cbc, buf_ptr, key, ivec);
+	return strbuf_crypt(dec256cbc, 0, buf_ptr, key, ivec);	// the decrypted content is always smaller
 }
 
 //********************************************************************************************************
 // Private functions
 //********************************************************************************************************
 
-static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
+static strview_t strbuf_crypt(encdec_fptr_t fptr, int required_capacity, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
 {
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
@@ -65,13 +65,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		buf = *buf_ptr;
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			strbuf_grow(&buf, required_capacity);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(buf->capacity >= required_capacity)
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-- 
2.43.0


From acb7fe49dcf13a9a0e6651f12fa52210ff6a8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 14/19] fix: decrypting invalid data empties the buffer instead
 of corrupting memory

---
 accessories/strbuf_crypt/strbuf_crypt.c | 35 ++++++++++++++++++-------
 accessories/strbuf_crypt/strbuf_crypt.h |  3 ++-
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index fb53b2e..be0fcff 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -59,6 +59,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, int required_capacity, strbuf_
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	int new_size;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -67,17 +68,21 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, int required_capacity, strbuf_
 		{
 			strbuf_grow(&buf, required_capacity);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			new_size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
 		}
 		else if(buf->capacity >= required_capacity)
 		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-		};
+			new_size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
+		}
+		else
+			new_size = buf->size;	// not enough capacity, leave the content as is
+
+		buf->size = new_size < 0 ? 0 : new_size;
+		buf->cstr[buf->size] = 0;
 		*buf_ptr = buf;	
-		retval = strbuf_view(buf_ptr);
+		if(new_size >= 0)
+			retval = strbuf_view(buf_ptr);
 	};
 
 	return retval;
@@ -114,17 +119,21 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 // decrypt buf, using 256bit key and 128bit init vector.
 // len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if len or the padding is not valid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
-	int out_len;
+	int out_len = -1;
 	int pad_len;
+	int i;
 	uint8_t buf1[AES_BLOCK_SIZE];
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
 	uint8_t (*next_xor)[AES_BLOCK_SIZE] = &buf2;
 
+	if(len <= 0 || len % AES_BLOCK_SIZE)
+		return -1;
+
 	aes256_init(key, ctx);
 	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
 	while(block_count--)
@@ -137,7 +146,15 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	};
 
 	pad_len = buf[-1];
-	out_len = len - pad_len;
+	if(pad_len >= 1 && pad_len <= AES_BLOCK_SIZE)
+	{
+		out_len = len - pad_len;
+		for(i = 1; i <= pad_len; i++)
+		{
+			if(buf[-i] != pad_len)
+				out_len = -1;
+		};
+	};
 
 	return out_len;
 }
diff --git a/accessories/strbuf_crypt/strbuf_crypt.h b/accessories/strbuf_crypt/strbuf_crypt.h
index 3e3363c..c9a7d06 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.h
+++ b/accessories/strbuf_crypt/strbuf_crypt.h
@@ -32,7 +32,8 @@
 /**
  * @brief Decrypt the contents of the buffer with AES256 CBC and PKCS#7 padding
  * @param buf_ptr The address of a pointer to the buffer.
- * @return A view of the decrypted buffer.
+ * @return A view of the decrypted buffer. If the content is not a whole number of blocks, or has
+ *  invalid padding, the buffer is emptied and an invalid view is returned.
  * @note For static buffers, the AES context of 240 bytes will be allcoated on the stack.
  * @note For dynamic buffer, the buffers own allocator will be used to create the 240byte AES context.
     **********************************************************************************/
-- 
2.43.0


From 1d843a55d9e3202c82d447e93a09f98934509681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 15/19] fix: packing a variable named tmp

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..d8b3f28 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0


From 273ac4a73697bda1237ff3aae885d039a19aeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 16/19] fix: strview_dequote() only removes quotes

---
 strview.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 78cc4db..85a5f72 100644
--- a/strview.c
+++ b/strview.c
@@ -505,11 +505,12 @@ static strview_t split_index(strview_t* strview_ptr, int index)
 strview_t strview_dequote(strview_t src)
 {
 	strview_t result = src;
-	char quote_char;
+	char quote_char = 0;
 
 	if(result.size > 1)
 		quote_char = result.data[0];
-	while( 	(result.size > 1)
+	while( 	(quote_char == '\'' || quote_char == '\"')
+	 && 	(result.size > 1)
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From e5bf165cfa0863c74a06191ddb36b37fc2aa6dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:53 +0000
Subject: [PATCH 17/19] fix: encrypting content too large for its ciphertext
 wrote past the end of the buffer

The ciphertext size wrapped for content of more than INT_MAX-16 bytes. A dynamic buffer
is emptied instead, and a fixed buffer left as is.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index be0fcff..57f9549 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -5,6 +5,7 @@
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
 	#include <stdint.h>
+	#include <limits.h>
 
 	#include "strbuf.h"
 	#include "strview.h"
@@ -42,7 +43,10 @@
 
 strview_t strbuf_encrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
 {
-	return strbuf_crypt(enc256cbc, (buf_ptr && *buf_ptr) ? cypher_size((*buf_ptr)->size) : 0, buf_ptr, key, ivec);
+	int required_capacity = 0;
+	if(buf_ptr && *buf_ptr)
+		required_capacity = (*buf_ptr)->size > INT_MAX - AES_BLOCK_SIZE ? -1 : cypher_size((*buf_ptr)->size);
+	return strbuf_crypt(enc256cbc, required_capacity, buf_ptr, key, ivec);
 }
 
 strview_t strbuf_decrypt(strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16])
@@ -64,7 +68,9 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, int required_capacity, strbuf_
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
-		if(buf->allocator.allocator)
+		if(required_capacity < 0)	// the result would exceed the maximum size, so a dynamic buffer is emptied, and a fixed buffer left as is
+			new_size = buf->allocator.allocator ? -1 : buf->size;
+		else if(buf->allocator.allocator)
 		{
 			strbuf_grow(&buf, required_capacity);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-- 
2.43.0


From 70f7018f007c97ba34993b9d2096319f033c09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 18/19] fix: strview_unpack.h includes limits.h for INT_MAX

---
 accessories/strview_unpack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strview_unpack.h b/accessories/strview_unpack.h
index 51f2b13..01fb99d 100644
--- a/accessories/strview_unpack.h
+++ b/accessories/strview_unpack.h
@@ -8,6 +8,7 @@
 #ifndef _STRVIEW_UNPACK_H_
 	#define _STRVIEW_UNPACK_H_
 
+	#include <limits.h>
 	#include "string.h"
 	#include "strview.h"
 	#include "xendian.h"
-- 
2.43.0


From 61f1ae95c9b094de8e1789f5916ef1c62e8ff888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:38 +0000
Subject: [PATCH 19/19] fix: INF and INFINITY were not recognised in a Turkish
 locale

---
 strnum.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/strnum.c b/strnum.c
index f105d65..f223ed0 100644
--- a/strnum.c
+++ b/strnum.c
@@ -53,6 +53,7 @@
 #ifndef STRNUM_NOFLOAT
 	static int process_float_components(float_components_t* fc);
 	static float consume_float_special(float_components_t* fc);
+	static bool consume_word(strview_t* src, const char* lower_case_word);
 	static int consume_exponent(float_components_t* fc);
 
 	static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value);
@@ -514,24 +515,27 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinity"))
-	{
+	if(consume_word(&fc->num, "infinity") || consume_word(&fc->num, "inf"))
 		value = INFINITY;
-		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-	}
-	else if(strview_starts_with_nocase(fc->num, "inf"))
-	{
-		value = INFINITY;
-		fc->num = strview_sub(fc->num, strlen("inf"), INT_MAX);
-	}
-	else if(strview_starts_with_nocase(fc->num, "nan"))
-	{
+	else if(consume_word(&fc->num, "nan"))
 		value = NAN;
-		fc->num = strview_sub(fc->num, strlen("nan"), INT_MAX);
-	};
 	return value;
 }
 
+//	consume a word given in lower case from the start of src, ignoring case. Not by strview_starts_with_nocase(), which
+//	uses the case conversion of the locale ('i' and 'I' are different letters in a Turkish locale)
+static bool consume_word(strview_t* src, const char* lower_case_word)
+{
+	int i = 0;
+	bool found;
+	while(i < src->size && lower_case_word[i] && (src->data[i] | 0x20) == lower_case_word[i])
+		i++;
+	found = !lower_case_word[i];
+	if(found)
+		*src = strview_sub(*src, i, INT_MAX);
+	return found;
+}
+
 static int consume_exponent(float_components_t* fc)
 {
 	int err = 0;
-- 
2.43.0

