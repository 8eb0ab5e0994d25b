From 549b124b782607556d6651bba02c051962654cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:43 +0000
Subject: [PATCH 01/27] fix: strview_is_match() must not match an invalid view
 with a valid empty view

---
 strview.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..4fc49e2 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,7 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return strview_is_valid(str1) == strview_is_valid(str2) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +75,7 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return strview_is_valid(str1) == strview_is_valid(str2) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From ce3cd95bb547ff8face235a9b64c52579a9f4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 02/27] fix: strview_split_line() removed a pending eol partner
 from the source without finding a line

---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index 4fc49e2..842a168 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From 53ee4a568544137b6860ee48599081cb9afafdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 03/27] fix: strview_dequote() must only remove quote
 characters

---
 strview.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 842a168..809fec4 100644
--- a/strview.c
+++ b/strview.c
@@ -505,11 +505,12 @@ static strview_t split_index(strview_t* strview_ptr, int index)
 strview_t strview_dequote(strview_t src)
 {
 	strview_t result = src;
-	char quote_char;
+	char quote_char = 0;
 
 	if(result.size > 1)
 		quote_char = result.data[0];
-	while( 	(result.size > 1)
+	while( 	(quote_char == '\"' || quote_char == '\'')
+	 && 	(result.size > 1)
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From b623a09bb7dd2b37822b15665a505c6ef36f4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 04/27] fix: detect strbuf size overflow without overflowing

---
 strbuf.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..0f68b17 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)buf->capacity - buf->size + 1, format, vb);
 		else
 			empty_buf(buf);
 
@@ -598,8 +598,9 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	while(i++ != n_args)
 	{
 		str = va_arg(va, strview_t);
-		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		failed = failed || add_will_overflow_int(size_needed, str.size);
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
@@ -790,9 +791,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b < 0 ? (a < INT_MIN - b) : (a > INT_MAX - b);
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 69ace19a981e4c08e6f40aace0a6270531939ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/27] fix: strbuf_append_vprintf() must not apply a vsnprintf
 error as a size

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 0f68b17..5c9a186 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From 13b6df4fdb7705ba784d683ffe16ab8bc5011622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/27] fix: strbuf_strip() with stripchars sourced from the
 buffer itself

---
 strbuf.c | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 5c9a186..f302690 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -46,7 +46,6 @@
 	static bool buf_is_dynamic(strbuf_t* buf);
 	static void empty_buf(strbuf_t* buf);
 	static bool add_will_overflow_int(int a, int b);
-	static bool view_contains_char(strview_t view, char c);
 
 #ifdef STRBUF_PROVIDE_PRNF
 	static void char_handler_for_prnf(void* dst, char c);
@@ -525,15 +524,19 @@ strview_t strbuf_strip_strview(strbuf_t** buf_ptr, strview_t stripchars)
 	strbuf_t* buf;
 	char* ptr;
 	int count;
+	unsigned char strip_set[(UCHAR_MAX+1)/CHAR_BIT] = {0};	// a bit for each character, as stripchars may view data within this buffer
 
 	if(buf_ptr && *buf_ptr && strview_is_valid(stripchars))
 	{
+		for(count = 0; count < stripchars.size; count++)
+			strip_set[(unsigned char)stripchars.data[count]/CHAR_BIT] |= 1 << ((unsigned char)stripchars.data[count]%CHAR_BIT);
+
 		buf = *buf_ptr;
 		count = buf->size;
 		ptr = buf->cstr;
 		while(count)
 		{
-			if(view_contains_char(stripchars, *ptr))
+			if(strip_set[(unsigned char)*ptr/CHAR_BIT] & (1 << ((unsigned char)*ptr%CHAR_BIT)))
 			{
 				memmove(ptr, ptr+1, count);
 				buf->size--;
@@ -794,23 +797,6 @@ static bool add_will_overflow_int(int a, int b)
 	return b < 0 ? (a < INT_MIN - b) : (a > INT_MAX - b);
 }
 
-static bool view_contains_char(strview_t view, char c)
-{
-	bool retval = false;
-
-	if(strview_is_valid(view))
-	{
-		while(!retval && view.size)
-		{
-			retval |= (*view.data == c);
-			view.data++;
-			view.size--;
-		};
-	};
-
-	return retval;
-}
-
 #ifdef STRBUF_PROVIDE_PRNF
 static void char_handler_for_prnf(void* dst, char c)
 {
-- 
2.43.0


From b0cd8540c539b609aab6a262fe5972feebd9fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 07/27] fix: consume the whole of infinity

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..f78016f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From e581200f9c001a93e2c202a4234b02d23906c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 08/27] fix: bytes 0xB0 and 0xB1 are not binary digits

---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index f78016f..d7d46ae 100644
--- a/strnum.c
+++ b/strnum.c
@@ -887,7 +887,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return c == '0' || c == '1';
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From ed0edd437135f6a8863fc8b2f9d9990b482b4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/27] fix: scale of floating point values with three or more
 chunks of integral digits

---
 strnum.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strnum.c b/strnum.c
index d7d46ae..c35d4b5 100644
--- a/strnum.c
+++ b/strnum.c
@@ -548,14 +548,16 @@ static int consume_exponent(float_components_t* fc)
 
 #define make_float_type(typ, powfunc)											\
 	typ result = 0.0;															\
+	typ integral_part;															\
 	typ fractional_part;														\
 	unsigned long long ull;														\
 	int fractional_power = 0;													\
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		integral_part = (typ)ull;												\
+		integral_part *= powfunc(10, integral_digits.size);						\
+		result += integral_part;												\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From 24d491af2707129e7921f56018a2bcfe38ee45dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:49 +0000
Subject: [PATCH 10/27] fix: do not convert a zero or overflowed mantissa with
 an extreme exponent to NaN

---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index c35d4b5..69aefe7 100644
--- a/strnum.c
+++ b/strnum.c
@@ -569,7 +569,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result != 0 && result != INFINITY)										\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From 733bbb200f19ac66b99d821e618055a03ca908c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:50 +0000
Subject: [PATCH 11/27] fix: strnum_consume_float() dereferenced a NULL source

---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 69aefe7..9c63f3f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From cee4499a09f14d8fe7185ad3a1209f81c92855c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 12/27] fix: strnum ignored only spaces of the documented
 leading whitespace

---
 strnum.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index 9c63f3f..e202a6d 100644
--- a/strnum.c
+++ b/strnum.c
@@ -17,6 +17,7 @@
 //	#define DBG(_fmtarg, ...) printf("%s:%.4i - "_fmtarg"\n" , __FILE__, __LINE__ ,##__VA_ARGS__)
 
 	#define BASE_PREFIX_LEN	2
+	#define WHITESPACE		" \t\n\v\f\r"
 
 #ifndef STRNUM_NOFLOAT
 	typedef struct float_components_t
@@ -480,7 +481,7 @@ static int process_float_components(float_components_t* fc)
 
 	//consume whitespace
 	if(!err && !(fc->options & STRNUM_NOSPACE))
-		fc->num = strview_trim_start(fc->num, " ");
+		fc->num = strview_trim_start(fc->num, WHITESPACE);
 
 	//consume sign
 	if(!err && !(fc->options & STRNUM_NOSIGN))
@@ -611,7 +612,7 @@ static int consume_signed(long long* dst, strview_t* src, int options, long long
 
 	//consume whitespace
 	if(!err && !(options & STRNUM_NOSPACE))
-		num = strview_trim_start(num, " ");
+		num = strview_trim_start(num, WHITESPACE);
 
 	//consume sign
 	if(!err && !(options & STRNUM_NOSIGN))
@@ -676,7 +677,7 @@ static int consume_unsigned(unsigned long long* dst, strview_t* src, int options
 
 	//consume whitespace
 	if(!err && !(options & STRNUM_NOSPACE))
-		num = strview_trim_start(num, " ");
+		num = strview_trim_start(num, WHITESPACE);
 
 	//consume base prefix and digits
 	if(!err)
-- 
2.43.0


From 993030e4619cfe42a12b628f677780285c0d1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 13/27] fix: strnum_value() did not compile with STRNUM_NOFLOAT

---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 0ff40cd4fa9de051778f465589e773c92a3e9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 14/27] fix: strbuf_encrypt() and strbuf_decrypt() return the
 documented view

---
 accessories/strbuf_crypt/strbuf_crypt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..1311e17 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -59,6 +59,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	strview_t retval = STRVIEW_INVALID;
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
+	bool processed = true;
 
 	if(buf_ptr && *buf_ptr)
 	{
@@ -75,8 +76,12 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
-		};
+		}
+		else
+			processed = false;
 		*buf_ptr = buf;	
+		if(processed)
+			retval = strbuf_view(&buf);
 	};
 
 	return retval;
-- 
2.43.0


From 31054a07464e3d0b7bdba46cb2a296cebfd05575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 15/27] fix: strbuf_decrypt() validates the length and the
 padding before using them

---
 accessories/strbuf_crypt/strbuf_crypt.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1311e17..7c76018 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,15 +70,18 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
-		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-		}
 		else
 			processed = false;
+
+		if(buf->size < 0)
+		{
+			buf->size = 0;
+			processed = false;
+		};
+		buf->cstr[buf->size] = 0;
 		*buf_ptr = buf;	
 		if(processed)
 			retval = strbuf_view(&buf);
@@ -117,8 +120,7 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 }
 
 // decrypt buf, using 256bit key and 128bit init vector.
-// len must be a multiple of 16
-// returns the size of the decoded output in bytes
+// returns the size of the decoded output in bytes, or -1 if len is not a non-zero multiple of 16, or if the padding is invalid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
@@ -128,6 +130,11 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	uint8_t buf2[AES_BLOCK_SIZE];
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
 	uint8_t (*next_xor)[AES_BLOCK_SIZE] = &buf2;
+	bool valid;
+	int i;
+
+	if(block_count == 0 || len % AES_BLOCK_SIZE)
+		return -1;
 
 	aes256_init(key, ctx);
 	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
@@ -141,7 +148,11 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	};
 
 	pad_len = buf[-1];
-	out_len = len - pad_len;
+	valid = (0 < pad_len && pad_len <= AES_BLOCK_SIZE);
+	for(i = 1; valid && i <= pad_len; i++)
+		valid = (buf[-i] == pad_len);
+
+	out_len = valid ? len - pad_len : -1;
 
 	return out_len;
 }
-- 
2.43.0


From beffe7662be3ae91dc48639677897cd69fec6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 16/27] fix: strbuf_decrypt() of a full fixed buffer silently
 did nothing

---
 accessories/strbuf_crypt/strbuf_crypt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 7c76018..a337f7f 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -60,18 +60,20 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	aes256_ctx_t* ctx_ptr;
 	strbuf_t* buf;
 	bool processed = true;
+	int required_capacity;
 
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
+		required_capacity = (fptr == enc256cbc) ? cypher_size(buf->size) : buf->size;
 		if(buf->allocator.allocator)
 		{
-			strbuf_grow(&buf, cypher_size(buf->size));
+			strbuf_grow(&buf, required_capacity);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(buf->capacity >= required_capacity)
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 		else
 			processed = false;
-- 
2.43.0


From 5980b1bd44e1d9b8b3c951d458b25fa0230a2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 17/27] fix: STRBUF_PACK macros captured an argument named tmp

---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..d8b3f28 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) _strbuf_pack_tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&_strbuf_pack_tmp, .size=sizeof(_strbuf_pack_tmp)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0


From 2eeac7234c7ce5d542d8d026b7ee14239fe90fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 18/27] fix: strview_unpack.h uses INT_MAX without including
 limits.h

---
 accessories/strview_unpack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strview_unpack.h b/accessories/strview_unpack.h
index 51f2b13..01fb99d 100644
--- a/accessories/strview_unpack.h
+++ b/accessories/strview_unpack.h
@@ -8,6 +8,7 @@
 #ifndef _STRVIEW_UNPACK_H_
 	#define _STRVIEW_UNPACK_H_
 
+	#include <limits.h>
 	#include "string.h"
 	#include "strview.h"
 	#include "xendian.h"
-- 
2.43.0


From 63fc122fb94062faf9baafc0940220de83a33da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 19/27] fix: strbuf_append_vprintf() trusted the result of the
 second vsnprintf()

---
 strbuf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index f302690..35bc527 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -221,7 +221,10 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], (size_t)buf->capacity - buf->size + 1, format, vb);
+			failed = vsnprintf(&buf->cstr[buf->size], (size_t)buf->capacity - buf->size + 1, format, vb) != append_size;
+
+		if(!failed)
+			buf->size = size;
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From 0acc4207430781584ed44defc9d3c2f9cea39b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 20/27] fix: strbuf_append_vprnf() overflowed an int when the
 buffer is nearly INT_MAX long

---
 strbuf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 35bc527..e5b9e97 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -288,15 +288,16 @@ strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va
 {
 	strbuf_t* buf;
 	strview_t str = STRVIEW_INVALID;
+	int initial_size;
 	int char_count;
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
 
-		char_count = buf->size;
-		char_count += vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		initial_size = buf->size;
+		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
 
-		if(char_count > buf->size || char_count < 0)
+		if(char_count != buf->size - initial_size)
 			empty_buf(buf);
 
 		str = strbuf_view(&buf);
-- 
2.43.0


From d17aeb0f22f3ef8bff3d06eb098d53fc70bf288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 21/27] fix: strbuf_to_cstr() overflowed an int for a buffer of
 INT_MAX bytes

---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index e5b9e97..4b11c6f 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -379,7 +379,7 @@ char* strbuf_to_cstr(strbuf_t** buf_ptr)
 			allocator = (*buf_ptr)->allocator;
 			str = (void*)(*buf_ptr);
 			memmove(str, (*buf_ptr)->cstr, len);
-			str = allocator.allocator(&allocator, str, len+1);
+			str = allocator.allocator(&allocator, str, (size_t)len+1);
 		}
 		else
 			str = (*buf_ptr)->cstr;
-- 
2.43.0


From a651888344a451faa68420708132150f527271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:27 +0000
Subject: [PATCH 22/27] fix: floating point digits and exponents beyond the
 normal powers of ten lost precision or vanished

---
 strnum.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/strnum.c b/strnum.c
index e202a6d..8d06808 100644
--- a/strnum.c
+++ b/strnum.c
@@ -3,6 +3,7 @@
 
 	#ifndef STRNUM_NOFLOAT
 		#include <math.h>
+		#include <float.h>
 	#endif
 	#include <limits.h>
 	#include <ctype.h>
@@ -546,7 +547,20 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
+// Multiply value by 10^power, in two steps if 10^power itself is outside of the normal range of the type
+#define scale_by_pow10(value, power, powfunc, min_10_exp, max_10_exp)			\
+	do																			\
+	{																			\
+		int remaining_power = (power);											\
+		if(remaining_power < (min_10_exp) || remaining_power > (max_10_exp))	\
+		{																		\
+			(value) *= powfunc(10, remaining_power/2);							\
+			remaining_power -= remaining_power/2;								\
+		};																		\
+		(value) *= powfunc(10, remaining_power);								\
+	}while(0)
+
+#define make_float_type(typ, powfunc, min_10_exp, max_10_exp)					\
 	typ result = 0.0;															\
 	typ integral_part;															\
 	typ fractional_part;														\
@@ -566,26 +580,26 @@ static int consume_exponent(float_components_t* fc)
 		consume_decimal_digits(&ull, &fractional_digits);						\
 		fractional_power += fractional_digits.size;								\
 		fractional_part = (typ)ull;												\
-		fractional_part *= powfunc(10, fractional_power);						\
+		scale_by_pow10(fractional_part, fractional_power, powfunc, min_10_exp, max_10_exp);	\
 		result += fractional_part;												\
 	};																			\
 	if(result != 0 && result != INFINITY)										\
-		result *= powfunc(10, exp_value);										\
+		scale_by_pow10(result, exp_value, powfunc, min_10_exp, max_10_exp);		\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, powf, FLT_MIN_10_EXP, FLT_MAX_10_EXP)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, pow, DBL_MIN_10_EXP, DBL_MAX_10_EXP)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, powl, LDBL_MIN_10_EXP, LDBL_MAX_10_EXP)
 }
 
 #endif
-- 
2.43.0


From 28fbdcb7c07cc0e4f12d63b138df6e842cd7d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 23/27] fix: byte swapping did not compile for char and long
 long as documented

---
 accessories/xendian.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/accessories/xendian.h b/accessories/xendian.h
index 5a34bd9..0f56d8e 100644
--- a/accessories/xendian.h
+++ b/accessories/xendian.h
@@ -60,14 +60,19 @@
 
 	#define xendian_SWAP(a)							\
 	_Generic((a), 									\
-	uint8_t:	(a),								\
-	int8_t:		(a),								\
-	uint16_t:	((uint16_t)xendian_swap16(a)),		\
-	int16_t:	(xendian_swap16(a)),				\
-	uint32_t:	((uint32_t)xendian_swap32(a)),		\
-	int32_t:	(xendian_swap32(a)),				\
-	uint64_t:	((uint64_t)xendian_swap64(a)),		\
-	int64_t:	(xendian_swap64(a))	)
+	char:				(a),						\
+	signed char:		(a),						\
+	unsigned char:		(a),						\
+	short:				((short)xendian_swap_sized(a)),					\
+	unsigned short:		((unsigned short)xendian_swap_sized(a)),		\
+	int:				((int)xendian_swap_sized(a)),					\
+	unsigned int:		((unsigned int)xendian_swap_sized(a)),			\
+	long:				((long)xendian_swap_sized(a)),					\
+	unsigned long:		((unsigned long)xendian_swap_sized(a)),			\
+	long long:			((long long)xendian_swap_sized(a)),				\
+	unsigned long long:	((unsigned long long)xendian_swap_sized(a))	)
+
+	#define xendian_swap_sized(a)	(sizeof(a) == 8 ? xendian_swap64(a) : sizeof(a) == 4 ? xendian_swap32(a) : xendian_swap16(a))
 
 #ifndef __BYTE_ORDER__
 	#error "__BYTE_ORDER__ is not defined" 
-- 
2.43.0


From b4c6324c51a8764d3f847e458f79194c4a3eda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 24/27] fix: encrypting a buffer of nearly INT_MAX bytes
 overflowed an int and overran the buffer

---
 accessories/strbuf_crypt/strbuf_crypt.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index a337f7f..5cc8e18 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -4,6 +4,7 @@
 	https://www.javainuse.com/aesgenerator
 	https://en.wikipedia.org/wiki/Block_cipher_mode_of_operation#Cipher_block_chaining_(CBC)
 */
+	#include <limits.h>
 	#include <stdint.h>
 
 	#include "strbuf.h"
@@ -65,8 +66,17 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 	if(buf_ptr && *buf_ptr)
 	{
 		buf = *buf_ptr;
-		required_capacity = (fptr == enc256cbc) ? cypher_size(buf->size) : buf->size;
-		if(buf->allocator.allocator)
+		required_capacity = buf->size;
+		if(fptr == enc256cbc)
+		{
+			processed = (buf->size <= INT_MAX - AES_BLOCK_SIZE);
+			if(processed)
+				required_capacity = cypher_size(buf->size);
+		};
+
+		if(!processed)
+			;	// the padded contents would exceed INT_MAX
+		else if(buf->allocator.allocator)
 		{
 			strbuf_grow(&buf, required_capacity);
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-- 
2.43.0


From c9d019b4e0f1b31ec1c9d6a8082678800486bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:26 +0000
Subject: [PATCH 25/27] fix: pass characters to isdigit() and isxdigit() as
 unsigned char

The argument must be a value of unsigned char or EOF, where char is signed
any byte from 0x80 up was passed as a negative number.
---
 strnum.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/strnum.c b/strnum.c
index 8d06808..a666abe 100644
--- a/strnum.c
+++ b/strnum.c
@@ -776,7 +776,7 @@ static int consume_decimal_digits(unsigned long long* dst, strview_t* str)
 	unsigned long long post_add;
 	unsigned long long next_weight;
 
-	if(str->size && isdigit(str->data[0]))
+	if(str->size && isdigit((unsigned char)str->data[0]))
 		err = 0;
 	else
 		err = EINVAL;
@@ -784,19 +784,19 @@ static int consume_decimal_digits(unsigned long long* dst, strview_t* str)
 	if(!err)
 	{
 		*str = strview_trim_start(*str, "0");
-		while(str->size && isdigit(str->data[0]) && res_ui < UI_LIMIT)
+		while(str->size && isdigit((unsigned char)str->data[0]) && res_ui < UI_LIMIT)
 		{
 			res_ui *= 10;
 			res_ui += strview_pop_first_char(str) & 0x0F;
 		};
 		res_ul = res_ui;
-		while(str->size && isdigit(str->data[0]) && res_ul < UL_LIMIT)
+		while(str->size && isdigit((unsigned char)str->data[0]) && res_ul < UL_LIMIT)
 		{
 			res_ul *= 10;
 			res_ul += strview_pop_first_char(str) & 0x0F;
 		};
 		res_ull = res_ul;
-		while(str->size && isdigit(str->data[0]) && !err)
+		while(str->size && isdigit((unsigned char)str->data[0]) && !err)
 		{
 			if(res_ull > ULLONG_MAX/10)	// if number is too big to multiply by 10, ERANGE
 				err = ERANGE;
@@ -829,7 +829,7 @@ static int consume_hex_digits(unsigned long long* dst, strview_t* str)
 	unsigned long long result = 0;
 	int err;
 
-	if(str->size && isxdigit(str->data[0]))
+	if(str->size && isxdigit((unsigned char)str->data[0]))
 	{
 		err = 0;
 		*str = strview_trim_start(*str, "0");
@@ -837,7 +837,7 @@ static int consume_hex_digits(unsigned long long* dst, strview_t* str)
 	else
 		err = EINVAL;
 
-	while(str->size && isxdigit(str->data[0]) && !err)
+	while(str->size && isxdigit((unsigned char)str->data[0]) && !err)
 	{
 		if(!upper_nibble_ull_is_zero(result))
 			err = ERANGE;
@@ -910,11 +910,11 @@ static bool isbdigit(char c)
 static strview_t split_digits(strview_t* src)
 {
 	strview_t result = STRVIEW_INVALID;
-	if(src && src->size && isdigit(src->data[0]))
+	if(src && src->size && isdigit((unsigned char)src->data[0]))
 	{
 		result.data = src->data;
 		result.size = 0;
-		while(src->size && isdigit(src->data[0]))
+		while(src->size && isdigit((unsigned char)src->data[0]))
 		{
 			strview_pop_first_char(src);
 			result.size++;
-- 
2.43.0


From 8201b7fd37889daba0a257456ee9bad927a9e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:33 +0000
Subject: [PATCH 26/27] fix: formatting with prnf lost the buffer if the
 allocator caught a failure part way

Each character may move the buffer, but the caller's variable was only updated at the end. An allocator which
catches a failed allocation by not returning (longjmp) left it pointing to a released block.
---
 strbuf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index 4b11c6f..172c4ea 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -260,7 +260,8 @@ strview_t strbuf_vprnf(strbuf_t** buf_ptr, const char* format, va_list va)
 		buf = *buf_ptr;
 		empty_buf(buf);
 
-		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		char_count = vfptrprnf(char_handler_for_prnf, buf_ptr,  format, va);
+		buf = *buf_ptr;
 
 		if(char_count > buf->size)
 			empty_buf(buf);
@@ -295,7 +296,8 @@ strview_t strbuf_append_vprnf(strbuf_t** buf_ptr, const char* format, va_list va
 		buf = *buf_ptr;
 
 		initial_size = buf->size;
-		char_count = vfptrprnf(char_handler_for_prnf, &buf,  format, va);
+		char_count = vfptrprnf(char_handler_for_prnf, buf_ptr,  format, va);
+		buf = *buf_ptr;
 
 		if(char_count != buf->size - initial_size)
 			empty_buf(buf);
-- 
2.43.0


From 297bf7f5ecfc4d5ffcfa4e75a6c7180692fa289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:48 +0000
Subject: [PATCH 27/27] fix: encrypting lost the buffer if the allocator caught
 a failure to get the cipher's context

The buffer may have moved by then, but the caller's variable was not updated yet.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 5cc8e18..7c0d7bd 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -79,6 +79,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		else if(buf->allocator.allocator)
 		{
 			strbuf_grow(&buf, required_capacity);
+			*buf_ptr = buf;
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-- 
2.43.0

