From 47d90b89fed68b92b149a41d3ce946593fc2208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 01/61] fix: vector: grow from zero capacity, keep max_size
 when realloc fails

---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..ebc5743 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, (new_max * vec->item_size));
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From 040b593bf8316e7913365430693a8847b3892ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 02/61] fix: vector: vector_append_ptr must keep the slack byte
 vector_append relies on

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index ebc5743..d033686 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -55,7 +55,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 
 	if (vec->count == vec->max_size) {
 		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
-		void *array = realloc(vec->items, (new_max * vec->item_size));
+		void *array = realloc(vec->items, (new_max * vec->item_size) + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
-- 
2.43.0


From 0d75053d55e41cd76fcb463b242a0cdf3cae87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 03/61] fix: vector: vector_get returns NULL past the last
 element

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index d033686..da76691 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 6ab7d30191a7149dec1e228bb3fec18f6b49b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 04/61] fix: sparse_dict: overwriting a key must not free the
 interior key pointer

---
 src/simple_sparsehash.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..b269a01 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -388,14 +388,12 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From 71bd200145281a09de0771722a9d5b2402769e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 05/61] fix: sparse_dict: probe sequence must reach every slot

---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index b269a01..c7a6374 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular probing: visits every slot when maximum is a power of two. */
+#define QUADRATIC_PROBE(maximum) (key_hash + (num_probes * (num_probes + 1)) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 511201ebaa0ae25575a57f02b378de2b506bbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 06/61] fix: sparse_dict: keys of 256 bytes or more hang the
 hash function

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index c7a6374..0b9a5d0 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -16,9 +16,9 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
+	const size_t iterations = klen;
 
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
-- 
2.43.0


From fb242230a2b5ab7312ff0dfd46b9ff2d104789d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 07/61] fix: sparse_array: index equal to the maximum is out of
 bounds

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 0b9a5d0..865f5fc 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -214,7 +214,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -225,7 +225,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 23bb718f2a8737096722363adf7d39f85375517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:02 +0000
Subject: [PATCH 08/61] fix: hash_string_fnv1a hangs on strings of 256 bytes or
 more

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f1e50eb..4275190 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -101,9 +101,9 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
+	const size_t iterations = siz;
 
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
 	for(i = 0; i < iterations; i++) {
-- 
2.43.0


From 94df10e81a9e7e4e65a89d94d98ff11ebecea0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 09/61] fix: strnstr misses a match that ends exactly at the
 bound

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 4275190..b445087 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i<=(int)(len-needle_len); i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 516812f634a46513699c317cef7c35162db64800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 10/61] fix: m38_get_cookie_value matches whole cookie names
 and drops the separator

---
 src/utils.c | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index b445087..fc04e47 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -121,29 +121,31 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
-
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+	const size_t needle_siz = strlen(needle);
+	const char *cookie_loc = cookie_string;
+	const char *cookie_end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+
+	while (cookie_loc < cookie_end) {
+			/* Skip the whitespace in front of the cookie's name. */
+			if (*cookie_loc == ' ' || *cookie_loc == '\t') {
+					cookie_loc++;
+					continue;
+			}
+
+			const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_end - cookie_loc);
+			if (!cookie_string_end) {
+					/* This is okay, it might be at the end of the cookie. */
+					cookie_string_end = cookie_end;
+			}
+
+			const size_t cookie_string_size = cookie_string_end - cookie_loc;
+			if (cookie_string_size > needle_siz && cookie_loc[needle_siz] == '=' &&
+					strncmp(cookie_loc, needle, needle_siz) == 0)
+					/* +1 here is for the '=': */
+					return strndup(cookie_loc + needle_siz + 1, cookie_string_size - needle_siz - 1);
+
+			cookie_loc = cookie_string_end + 1;
 	}
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
-
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
-
-	return data;
+	return NULL;
 }
-- 
2.43.0


From a5f7ad3768a065cc85715a242ebdf8e7049456c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 11/61] fix: header lookup must match whole field names at the
 start of a line

---
 src/parse.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..577a971 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -101,12 +101,26 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
 	/* TODO: Make sure this function handles bad input. */
 	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
+	const size_t header_siz = strlen(header);
+	const char *request_end = request + strnlen(request, request_siz);
+
+	/* Header fields start after the request line, one per line, up to the blank line. */
+	const char *header_loc = memmem(request, request_end - request, "\r\n", strlen("\r\n"));
+	while (header_loc) {
+		header_loc += strlen("\r\n");
+		if ((size_t)(request_end - header_loc) <= header_siz || *header_loc == '\r')
+			return NULL;
+		if (strncasecmp(header_loc, header, header_siz) == 0 && header_loc[header_siz] == ':')
+			break;
+		header_loc = memmem(header_loc, request_end - header_loc, "\r\n", strlen("\r\n"));
+	}
 	if (!header_loc)
 		return NULL;
 
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
+	const char *header_value_start = header_loc + header_siz + strlen(":");
+	while (header_value_start < request_end && (*header_value_start == ' ' || *header_value_start == '\t'))
+		header_value_start++;
+	const char *header_value_end = memmem(header_value_start, request_end - header_value_start, "\r\n", strlen("\r\n"));
 	if (!header_value_end)
 		return NULL;
 
-- 
2.43.0


From 52a055dad025b9ae226d92c6be16bacc77b1e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:23 +0000
Subject: [PATCH 12/61] fix: range header parser must not look at a stale errno

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 577a971..6a6686d 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -48,6 +48,7 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 		return rng;
 	}
 
+	errno = 0;
 	long int _fn = strtol(actual_value, NULL, 10);
 	if ((_fn == LONG_MIN || _fn == LONG_MAX) && errno == ERANGE) {
 		m38_log_msg(LOG_WARN, "Malformed range query, could not parse first_num: %s", range_query);
-- 
2.43.0


From 675b46161cb3c8136fd64562538dc5fab4713027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 13/61] fix: request headers and bodies containing NUL bytes
 are truncated

---
 src/parse.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 6a6686d..e4e67fa 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -16,6 +16,16 @@
 #include "simple_sparsehash.h"
 #include "utils.h"
 
+/* Like strndup, but does not stop at NULL bytes. */
+static unsigned char *_copy_bytes(const char *bytes, const size_t siz) {
+	unsigned char *copied = malloc(siz + 1);
+	if (!copied)
+		return NULL;
+	memcpy(copied, bytes, siz);
+	copied[siz] = '\0';
+	return copied;
+}
+
 m38_range_header m38_parse_range_header(const char *range_query) {
 	/* bytes=0- */
 	/* bytes=12345-55555 */
@@ -176,7 +186,7 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	out->full_header = (char *)_copy_bytes((char *)to_read, header_length);
 	out->header_len = header_length;
 
 	return 0;
@@ -194,15 +204,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = _copy_bytes(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_bytes(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = _copy_bytes(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From 8460648ff2c76efcacff9252358a094de3e50f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 14/61] fix: form parsing destroys and leaks the request body

---
 src/parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index e4e67fa..4d4ee7b 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -230,13 +230,14 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
 	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
+	char *remaining_body = duplicated_body;
 	if (!duplicated_body) {
 		goto err;
 	}
 
 	new_dict = sparse_dict_init();
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
+	while ((potential_kv_pair = strsep(&remaining_body, "&")) != NULL) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-- 
2.43.0


From a94b9e7442e8a096897f4fc654a797ebd29827e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 15/61] fix: form values containing '=' are truncated

---
 src/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.c b/src/parse.c
index 4d4ee7b..d38e412 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -241,7 +241,7 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 		char *key = NULL;
 		char *value = NULL;
 		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+		value = potential_kv_pair;
 
 		if (!key || !value) {
 			continue;
-- 
2.43.0


From 8a251d9381f1aadbcbe4a32e53996abe8da45208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 16/61] fix: decoded form values overflow their buffer and stop
 at %00

---
 src/parse.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index d38e412..abf7ae4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -247,9 +247,10 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
-		if (m38_url_decode(value, decoded_buffer) > 0) {
-			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
+		const int decoded_siz = m38_url_decode(value, decoded_buffer);
+		if (decoded_siz > 0) {
+			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, decoded_siz - 1);
 		} else {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
 		}
-- 
2.43.0


From f60eafaaefb1d7a62576718ec7b6af0767a8a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:29 +0000
Subject: [PATCH 17/61] fix: rejected requests use uninitialised memory and
 leak, form dictionaries leak

---
 src/grengine.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..a6d89e0 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -18,6 +18,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -386,10 +387,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -400,6 +397,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
@@ -635,17 +636,20 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	vector_free(response.extra_headers);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-- 
2.43.0


From 9956a78f8db6c1fc3756b623841f5b24f7b1a9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 18/61] fix: the Content-Type value of every request leaks

---
 src/grengine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index a6d89e0..15645f7 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -445,10 +445,12 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (rc != 0) {
 			/* application/x-www-form-urlencoded */
 			m38_log_msg(LOG_ERR, "Could not parse form-urlencoded body.");
+			free(content_type);
 			goto error;
 		}
 	
 	}
+	free(content_type);
 
 	/* Find our matching route: */
 	int64_t i;
-- 
2.43.0


From 433b0feb50a32af3e21cb8a14d8ab6b944c7942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 19/61] fix: custom headers overflow a stack buffer

---
 src/grengine.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 15645f7..d7dc6ea 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -572,8 +572,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
 								    + strlen("\r\n") + 1;
 			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
 			strncat(actual_response, buf, siz);
 		}
 		strcat(actual_response, r_final);
-- 
2.43.0


From 90d3fcd98ad4183d09ff0931b74a5e76db25906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 20/61] fix: m38_insert_custom_header reports failure on
 success

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index d7dc6ea..3ae4112 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -296,7 +296,7 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
 	vector_append_ptr(response->extra_headers, new_pair);
 
-	return 0;
+	return 1;
 }
 
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-- 
2.43.0


From cf6f473919d80ec44c59b668011e6658c3aa204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 21/61] fix: read requests until they are complete, whatever
 their segmentation

---
 src/grengine.c | 105 +++++++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 61 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3ae4112..1f75879 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -2,7 +2,9 @@
 #ifdef __clang__
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
+#define _GNU_SOURCE
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <regex.h>
 #include <stdio.h>
@@ -315,20 +317,51 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
+/* Content-Length of a request, or 0 if it does not have a sensible one. */
+static size_t content_length(const char *header, const size_t header_len) {
+	size_t clength_num = 0;
+	char *clength = m38_get_header_value_raw(header, header_len, "Content-Length");
+	if (clength == NULL) {
+		m38_log_msg(LOG_WARN, "Could not parse content length.");
+	} else {
+		const long parsed = strtol(clength, NULL, 10);
+		clength_num = parsed > 0 ? parsed : 0;
+		free(clength);
+	}
+	return clength_num;
+}
+
+/* Reads until we have the whole request: its header and as much body as it says it has. */
 static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
+	ssize_t read_this_time = 0;
+	size_t header_len = 0, clength_num = 0;
 	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
+		if (read_this_time < 0) {
+			if (errno == EINTR)
+				continue;
+			m38_log_msg(LOG_ERR, "Could not read request.");
+			goto error;
+		}
+		/* The end of the header could straddle two reads. */
+		const size_t search_from = *num_read > 3 ? *num_read - 3 : 0;
 		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
+
+		if (header_len == 0) {
+			const unsigned char *header_end = memmem(*to_read + search_from, *num_read - search_from, "\r\n\r\n", 4);
+			if (header_end) {
+				header_len = header_end + 4 - *to_read;
+				clength_num = content_length((char *)*to_read, header_len);
+			}
+		}
+		if (header_len != 0 && *num_read - header_len >= clength_num)
 			break;
-		read_this_time = 0;
 
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
+		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN + 1);
 		if (!(*to_read)) {
 			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
 			goto error;
 		}
-		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
+		memset(*to_read + *num_read, '\0', MAX_READ_LEN + 1);
 		if (*num_read >= MAX_REQUEST_SIZE)
 			break;
 	}
@@ -339,42 +372,8 @@ error:
 	return -1;
 }
 
-static int attempt_reread_from_socket(
-		const int accept_fd, const size_t clength_num,
-		const size_t post_body_len, m38_http_request *out) {
-
-	unsigned char *to_read = NULL;
-	size_t num_read = 0;
-
-	/* If we have a post_body_len > 0, we don't have to reread from the socket. */
-	/* In addition, if we have a longer content-length than we have known post-body
-	 * length, than we should attempt to re-read from the client. */
-	if ((post_body_len <= 0 && clength_num > 0) ||
-		(post_body_len > 0 && post_body_len < clength_num)) {
-
-		to_read = calloc(1, MAX_READ_LEN);
-
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
-		/* ------------------------------------- */
-		/* XXX: Do a select here with a timeout. */
-		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-		if (rc != 0)
-			goto error;
-	}
-
-	out->full_body = to_read;
-	out->body_len = num_read;
-	return 0;
-
-error:
-	free(to_read);
-	return -1;
-}
-
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
-	unsigned char *to_read = calloc(1, MAX_READ_LEN);
+	unsigned char *to_read = calloc(1, MAX_READ_LEN + 1);
 	char *actual_response = NULL;
 	m38_http_response response = {
 		.mimetype = {0},
@@ -407,30 +406,14 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		goto error;
 	}
 
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
-	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		clength_num = atoi(clength);
-		free(clength);
-	}
+	const size_t clength_num = content_length(request.full_header, request.header_len);
 
 	/* Do we have a POST body or something? */
 	const size_t post_body_len = num_read - request.header_len;
-	if (post_body_len <= 0 && clength_num > 0) {
-		/* re-read will just copy into the m38_http_request. */
-		rc = attempt_reread_from_socket(accept_fd, clength_num, post_body_len, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not reread from socket and parse body.");
-			goto error;
-		}
-	} else {
-		rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not parse body.");
-			goto error;
-		}
+	rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse body.");
+		goto error;
 	}
 
 	/* Parses form encoding, if applicable: */
-- 
2.43.0


From ce56767b5cb555f038a672ec6066039870af63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 22/61] fix: partial responses carry the wrong bytes, length
 and Content-Range

---
 src/grengine.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 1f75879..8e55fee 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -508,10 +508,13 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.outsize > 0) {
 		response_code = 206;
 	}
 
+	if (response.mimetype[0] == '\0')
+		memcpy(response.mimetype, "text/html", strlen("text/html"));
+
 	/* Figure out what header we need to use: */
 	const code_to_message *matched_response = NULL;
 	const code_to_message *response_headers = get_response_headers();
@@ -531,9 +534,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			response_code == 302 ||response_code == 400 || response_code == 403 ||
 			response_code == 500) {
 		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
-
 		header_size = strlen(response.mimetype) + strlen(matched_response->message)
 			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
 
@@ -564,47 +564,50 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		memcpy(actual_response + header_size, response.out, response.outsize);
 	} else if (response_code == 206) {
 		/* Byte range queries have some extra shit. */
-		m38_range_header byte_range = m38_parse_range_header(range_header_value);
+		m38_range_header byte_range = m38_parse_range_header(range_header_value ? range_header_value : "bytes=0-");
 		/* TODO: Add the custom header stuff here (for 206), too. */
 
 		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
 
+		/* The limit is the last byte of the range, if there is one: */
 		size_t end_byte = 0;
 		if (byte_range.limit == 0) {
 			end_byte = response.outsize - 1;
 		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
+			end_byte = byte_range.limit;
 		}
 
 		if (end_byte >= response.outsize)
 			end_byte = response.outsize - 1;
 		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
 		const size_t max_size = response.outsize; /* Should be the same as file size. */
+		const size_t range_size = end_byte - start_byte + 1;
 		const size_t integer_length = UINT_LEN(max_size);
+		const size_t range_len = UINT_LEN(range_size);
 
 		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
 		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
 		/* Compute the size of the header */
 		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
+			+ range_len + minb_len + maxb_len + integer_length
 			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
+		actual_response_siz = range_size + header_size;
 		/* malloc the full response */
 		actual_response = malloc(actual_response_siz + 1);
 		actual_response[actual_response_siz] = '\0';
 
 		/* snprintf the header because it's just a string: */
 		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
+			response.mimetype, range_size,
 			start_byte, end_byte, max_size);
 		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
 
 		strcat(actual_response, r_final);
 
 		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+		memcpy(actual_response + header_size, response.out + start_byte, range_size);
 	}
+	free(range_header_value);
 
 	log_request(&request, &response, response_code);
 
-- 
2.43.0


From 13f70e5c94bc010a18e5fea7ff82d2c10540de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:24 +0000
Subject: [PATCH 23/61] fix: short writes to the client lose part of the
 response

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 8e55fee..4249192 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -663,7 +663,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From 403ab45bce34b2e8a7516008e212250745d1b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:27 +0000
Subject: [PATCH 24/61] fix: bodies leak when the client goes away before
 reading them

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 4249192..18da8b6 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -682,7 +682,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 5f9bdfd06abf897cb0722258dd0adfcdec5f4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 25/61] fix: extension search underflows for file names shorter
 than 16 characters

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 18da8b6..f3486fa 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -230,7 +230,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	unsigned int i = sizeof(ending);
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
+	for (i = res_len; i > 0 && i + sizeof(ending) > res_len; i--) {
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
-- 
2.43.0


From 8528d93b084e742bdddd883926ca9a8d53039119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 26/61] fix: dots in directory names are taken for the file's
 extension

---
 src/grengine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index f3486fa..0844d4c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -231,6 +231,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
 	for (i = res_len; i > 0 && i + sizeof(ending) > res_len; i--) {
+		if (file_path[i] == '/')
+			break;
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
-- 
2.43.0


From 7f49a07d50e3b7571771bdde203adc91ee649779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 27/61] fix: empty files are answered with 404

---
 src/grengine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 0844d4c..97b5c74 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -206,7 +206,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	const size_t c_offset = offset != NULL ? *offset : 0;
 	const size_t c_limit = limit != NULL ? (*limit - c_offset) : (st.st_size - c_offset);
 
-	response->out = mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
+	/* Empty files cannot be mapped. */
+	response->out = c_limit == 0 ? (void *)"" : mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
 	response->outsize = c_limit - c_offset;
 
 	if (response->out == MAP_FAILED) {
-- 
2.43.0


From 5c0c26621c6a0ce33664b2c8d318efa7f8a11aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 28/61] fix: m38_render_file leaks the context when the file is
 missing

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 97b5c74..40b0234 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -156,8 +156,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
-- 
2.43.0


From 8553a9ca0508622dbdb158118b552041ab8a5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 29/61] fix: worker threads read their arguments from a dead
 stack slot

---
 src/server.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..40e8fcd 100644
--- a/src/server.c
+++ b/src/server.c
@@ -222,6 +222,8 @@ int m38_http_serve(m38_app *app) {
 	mqd_t po_handled_queue = -1;
 	/* Handlers take accepted sockets and turn them into responses: */
 	pthread_t handlers[app->num_threads];
+	/* The handlers read their arguments at any time after they've been created. */
+	handler_arg handler_args[app->num_threads];
 	/* The responder is responsible for sending bytes back over the wire: */
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
@@ -282,7 +284,8 @@ int m38_http_serve(m38_app *app) {
 			.app = app,
 			.worker_ident = i
 		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		memcpy(&handler_args[i], &args, sizeof(args));
+		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
-- 
2.43.0


From 8f0d6b6d2f8e67a90ce424097bdd79831e21e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 30/61] fix: connections of rejected requests are never closed

---
 src/server.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 40e8fcd..abc8927 100644
--- a/src/server.c
+++ b/src/server.c
@@ -162,9 +162,15 @@ static void *handler(void *arg) {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
-				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			if (req == NULL) {
+				/* The request was bogus, there is nothing to respond with. */
+				m38_log_msg(LOG_ERR, "Worker %i: Could not generate a response.", worker_ident);
+				close(new_fd);
+			} else {
+				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				if (msg_size == -1)
+					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From 635a381d69f108b3516949433f229e81f926cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 31/61] fix: the responder deadlocks when more large responses
 are in flight than fit in its queue

---
 src/server.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index abc8927..703174e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -112,13 +112,18 @@ static void *responder(void *arg) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
-			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
-				m38_log_msg(LOG_FUN, "Responder: Response sent.");
+			while (new_req != NULL) {
+				/* We are the only one emptying this queue, so never block on it: if it's full,
+				 * just keep on sending. */
+				const struct timespec no_wait = {0};
+				ssize_t msg_size = mq_timedsend(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0, &no_wait);
+				if (msg_size == 0)
+					break;
+				new_req = m38_send_response(new_req);
 			}
+
+			if (new_req == NULL)
+				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 		}
 	}
 
-- 
2.43.0


From 0f39dc97fb8751640e0089c2f380e1870f0450ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 32/61] fix: failure to open the handled queue goes unnoticed

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 703174e..562f937 100644
--- a/src/server.c
+++ b/src/server.c
@@ -265,7 +265,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From fbda4b3045d7a48e71051dd9aeb381997c9aae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 33/61] fix: a transient accept error stops the server from
 accepting for good

---
 src/server.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 562f937..f7fce40 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -75,7 +76,13 @@ static void *acceptor(void *arg) {
 
 		if (new_fd == -1) {
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			/* Only give up if the socket itself is gone (eg. closed by a signal handler),
+			 * not if this connection was aborted or we're out of resources for now. */
+			if (errno == EBADF || errno == EINVAL || errno == ENOTSOCK)
+				return NULL;
+			if (errno == EMFILE || errno == ENFILE || errno == ENOBUFS || errno == ENOMEM)
+				usleep(1000);
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From ef713043a6ef658d0ab4193cebd88dce5055c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 34/61] fix: gshkl_render reads past the end of unterminated
 templates, returns NULL for empty ones

---
 src/greshunkel.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..159f5f1 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -977,12 +977,18 @@ static inline void _destroy_regex(struct compiled_regex *all_regex) {
 	regfree(&all_regex->c_conditional_inverse_regex);
 }
 
-char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const size_t original_size, size_t *outsize) {
-	assert(to_render != NULL);
+char *gshkl_render(const greshunkel_ctext *ctext, const char *template, const size_t original_size, size_t *outsize) {
+	assert(template != NULL);
 	assert(ctext != NULL);
 
+	/* The regexes need a NULL-terminated string and the template doesn't have to be one. */
+	char *to_render = calloc(1, original_size + 1);
+	if (to_render == NULL)
+		return NULL;
+	memcpy(to_render, template, original_size);
+
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
+	char *rendered = calloc(1, 1);
 	size_t intermediate_outsize = 0;
 
 	struct compiled_regex all_regex;
@@ -1032,6 +1038,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		free(to_append.data);
 	}
 	_destroy_regex(&all_regex);
+	free(to_render);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
@@ -1039,6 +1046,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	return rendered;
 
 error:
+	free(to_render);
 	free(rendered);
 	return NULL;
 }
-- 
2.43.0


From 1e46be29f86878e2ff893227bd2b3ba5551e0106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 35/61] fix: gshkl_render reports a size one byte short when
 the output ends with a newline

---
 src/greshunkel.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 159f5f1..e2d20a9 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -248,11 +248,11 @@ void gshkl_free_context(greshunkel_ctext *ctext) {
 	free(ctext);
 }
 
-static line read_line(const char *buf) {
+static line read_line(const char *buf, const size_t max_read) {
 	char c = '\0';
 
 	size_t num_read = 0;
-	while (1) {
+	while (num_read < max_read) {
 		c = buf[num_read];
 		num_read++;
 		if (c == '\0' || c == '\n' || c == '\r')
@@ -492,6 +492,12 @@ done:
 	return (*operating_line);
 }
 
+/* Blocks and included files are usually followed by a newline of their own, so the one that
+ * ends their content is not part of it. */
+static size_t _without_last_newline(const char *buf, const size_t siz) {
+	return siz > 0 && buf[siz - 1] == '\n' ? siz - 1 : siz;
+}
+
 static line
 _include_line(const greshunkel_ctext *ctext, const line *current_line, const struct compiled_regex *all_regex) {
 	line interpolated_line = {0};
@@ -526,7 +532,7 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
-		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		rendered_piece.data = gshkl_render(ctext, template_file, _without_last_newline(template_file, template_file_siz), &rendered_piece.size);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
@@ -638,7 +644,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 
 		line to_render_line;
 		to_render_line.data = strndup(loop_meat.start, loop_meat.len);
-		to_render_line.size = loop_meat.len;
+		to_render_line.size = _without_last_newline(to_render_line.data, loop_meat.len);
 
 		vector *cur_vector_p = tuple->value.arr;
 
@@ -808,7 +814,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		if (should_render) {
 			line to_render_line;
 			to_render_line.data = strndup(conditional_meat.start, conditional_meat.len);
-			to_render_line.size = conditional_meat.len;
+			to_render_line.size = _without_last_newline(to_render_line.data, conditional_meat.len);
 
 			line rendered_piece = {0};
 
@@ -996,7 +1002,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *template, const si
 
 	size_t num_read = 0;
 	while (num_read < original_size) {
-		line current_line = read_line(to_render + num_read);
+		line current_line = read_line(to_render + num_read, original_size - num_read);
 
 		line to_append = {0};
 		size_t loop_readahead = 0;
@@ -1042,7 +1048,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *template, const si
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
-		*outsize = intermediate_outsize - 1;
+		*outsize = intermediate_outsize;
 	return rendered;
 
 error:
-- 
2.43.0


From 01748edbe3009d102d9f17835de803fbaae7af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 36/61] fix: lines mixing variables, includes and filters are
 freed twice or leak

---
 src/greshunkel.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index e2d20a9..967d505 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -588,14 +588,19 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 		memset(match, 0, sizeof(match));
 	}
 
+	/* Every step returns either the line it was given or a new one. The original line belongs
+	 * to our caller, everything in between is ours to clean up. */
+	if (operating_line->data != _operating_line.data && _operating_line.data != current_line.data)
+		free(_operating_line.data);
+
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
+	if (included_line.data != operating_line->data && operating_line->data != current_line.data)
 		free(operating_line->data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
 }
-- 
2.43.0


From 11b95da878992c902ce1facb688c4b5a415383df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:52 +0000
Subject: [PATCH 37/61] fix: UNLESS bodies are rendered as a single line,
 without loops or includes

---
 src/greshunkel.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 967d505..6609b1b 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -929,8 +929,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			to_render_line.data = strndup(conditional_meat.start, conditional_meat.len);
 			to_render_line.size = conditional_meat.len;
 
-			/* TODO: This should use gshkl_render. See _interpolate_loop */
-			line rendered_piece = _interpolate_line(ctext, to_render_line, all_regex);
+			line rendered_piece = {0};
+			rendered_piece.data = gshkl_render(ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
@@ -941,8 +941,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
-			if (rendered_piece.data != to_render_line.data)
-				free(rendered_piece.data);
+			free(rendered_piece.data);
 			free(to_render_line.data);
 		}
 	}
-- 
2.43.0


From 7e8f5037b67998adba8af5f3f0431737dbd60bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 38/61] fix: looping over sub contexts frees them after the
 first pass, arrays leak them otherwise

---
 src/greshunkel.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 6609b1b..5361091 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -229,6 +229,12 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		greshunkel_tuple *next = (greshunkel_tuple *)vector_get(to_free->value.arr, i);
+		if (next->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
@@ -675,6 +681,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
+			/* Sub contexts belong to the array, not to the temporary context. */
+			_temp_ctext->values->count = 0;
 			gshkl_free_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
-- 
2.43.0


From ceb70cd81f67c8c8dc3a58996d0a7fe97265d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 39/61] fix: blocks with an empty body swallow everything up to
 the last end marker

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 5361091..eaccc87 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -633,10 +633,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -779,10 +777,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -859,10 +855,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From fcae933049f8559e354ce2e537e1971ce3f8b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 40/61] fix: strings that merely start with FALSE are falsey

---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index eaccc87..f9ed564 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -712,7 +712,7 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 	}
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_falsey: is_string SF: %i", says_false);
 			return says_false;
 		} else if (is_loop) {
@@ -743,7 +743,7 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_truthy: !is_null is_string SF: %i", !says_false);
 			return !says_false;
 		} else if (is_loop) {
-- 
2.43.0


From 7653d76a2e90f491b8fad82ba2e1c04958c54559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 41/61] fix: empty strings render neither UNLESS nor UNLESS NOT

---
 src/greshunkel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index f9ed564..07b59e8 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -724,8 +724,9 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	/* Neither truthy, so it's falsey. */
+	m38_log_msg(LOG_DEBUG, "_is_falsey: return 1");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
-- 
2.43.0


From 59b273cf9659622d4a8b33076e6336ca08977e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 42/61] fix: names of sub context members are copied with two
 bytes too many

---
 src/greshunkel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 07b59e8..b29a756 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -802,7 +802,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -877,7 +877,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -906,7 +906,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
 				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From 918f130820c3a2e5a75e50fd47b16c7da13c3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:49 +0000
Subject: [PATCH 43/61] fix: included files are cut off at 2048 bytes and
 overflow their buffer there

---
 src/greshunkel.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index b29a756..fbe9a34 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -522,9 +522,9 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
-		size_t template_file_siz = 0;
+		const size_t chunk_siz = 2048;
+		char *template_file = NULL;
+		size_t template_file_siz = 0, read_this_time = 0;
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
@@ -533,12 +533,17 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		do {
+			template_file = realloc(template_file, template_file_siz + chunk_siz);
+			assert(template_file != NULL);
+			read_this_time = fread(template_file + template_file_siz, 1, chunk_siz, include_file);
+			template_file_siz += read_this_time;
+		} while (read_this_time == chunk_siz);
 		fclose(include_file);
-		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, _without_last_newline(template_file, template_file_siz), &rendered_piece.size);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
-- 
2.43.0


From 93ee79c0b83b1067e466c584bafa5ca54a9faade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 44/61] fix: filters without arguments get the rest of the line
 as their argument

---
 src/greshunkel.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index fbe9a34..6229de5 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -357,8 +357,9 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 			const size_t new_len = start_of_first_XxX - argument.start;
 
-			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			/* Render the argument out so we can pass it to the filter function. If the filter ends
+			 * before the argument starts, we've matched into the next filter and there is none. */
+			char *rendered_argument = start_of_first_XxX < argument.start ? NULL : strndup(argument.start, new_len);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From 805789d0083b925e008710664d618a33089af1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 45/61] fix: python binding truncates context pointers to 32
 bits

---
 python/greshunkel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..fbbaffd 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -16,9 +16,14 @@ lib38moths = cdll.LoadLibrary("lib38moths.so")
 lib38moths.gshkl_init_context.restype = c_void_p
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +45,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From c0be7fe20494ba2cae10acb0ba2126492e82bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 46/61] fix: python binding cuts off templates with non-ASCII
 text

---
 python/greshunkel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index fbbaffd..6b8fc56 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -70,6 +70,7 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        template_bytes = self.template.encode()
+        template_c_string = c_char_p(template_bytes)
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(template_bytes), None)
         return ret_c_str.decode()
-- 
2.43.0


From ab84caa66bf8f6e876173e4a0de9f92a8aebf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 47/61] fix: python filters are garbage collected while the
 context still uses them

---
 python/greshunkel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 6b8fc56..6eec680 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -61,6 +61,8 @@ def _add_item_to_greshunkel_context(ctext, key, value):
 
 class Context(object):
     def __init__(self, context_dict):
+        # The library only has pointers to the filters, so keep them alive.
+        self.context_dict = context_dict
         self.gshkl_ctext = lib38moths.gshkl_init_context()
         for key, value in context_dict.items():
             _add_item_to_greshunkel_context(self.gshkl_ctext, key, value)
-- 
2.43.0


From 57a97154d25ac01cc1e5feb7cca2b7a2aaa68f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 48/61] fix: a blank filter argument becomes no argument when
 another filter follows

---
 src/greshunkel.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 6229de5..c3dbae9 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -358,8 +358,13 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 			const size_t new_len = start_of_first_XxX - argument.start;
 
 			/* Render the argument out so we can pass it to the filter function. If the filter ends
-			 * before the argument starts, we've matched into the next filter and there is none. */
-			char *rendered_argument = start_of_first_XxX < argument.start ? NULL : strndup(argument.start, new_len);
+			 * before the argument starts, we've matched into the next filter: there is no argument,
+			 * or a blank one. */
+			char *rendered_argument = NULL;
+			if (start_of_first_XxX >= argument.start)
+				rendered_argument = strndup(argument.start, new_len);
+			else if (start_of_first_XxX > function_name.start + function_name.len)
+				rendered_argument = strdup("");
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From b5ce981a0052c32558dbb27f36c818dc3624fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:10 +0000
Subject: [PATCH 49/61] fix: a listen() backlog of 0 makes simultaneous clients
 wait, and lose the start of their request to SYN cookies

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index f7fce40..c0e3ebb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -221,7 +221,7 @@ static inline int create_socket(const int port) {
 		goto error;
 	}
 
-	rc = listen(sock_fd, 0);
+	rc = listen(sock_fd, SOMAXCONN);
 	if (rc < 0) {
 		m38_log_msg(LOG_ERR, "Could not listen on main socket.");
 		goto error;
-- 
2.43.0


From ee4bfb1a190a3fa73c188a29d78953558de6fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 50/61] fix: conditions on dotted names of 512 bytes or more
 overflow stack buffers

---
 src/greshunkel.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index c3dbae9..2057cbb 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -810,8 +810,10 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 			/* TODO: Check sub-context. */
-			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+			char sub_context_name[conditional_variable.len + 1];
+			char sub_item_name[conditional_variable.len + 1];
+			memset(sub_context_name, '\0', sizeof(sub_context_name));
+			memset(sub_item_name, '\0', sizeof(sub_item_name));
 			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
@@ -885,8 +887,10 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
 			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+				char sub_context_name[conditional_variable.len + 1];
+				char sub_item_name[conditional_variable.len + 1];
+				memset(sub_context_name, '\0', sizeof(sub_context_name));
+				memset(sub_item_name, '\0', sizeof(sub_item_name));
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
@@ -914,8 +918,10 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				should_render = 1;
 			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
+				char sub_context_name[conditional_variable.len + 1];
+				char sub_item_name[conditional_variable.len + 1];
+				memset(sub_context_name, '\0', sizeof(sub_context_name));
+				memset(sub_item_name, '\0', sizeof(sub_item_name));
 				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
 				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) - strlen("."));
 
-- 
2.43.0


From 42b395a4df83b45422a21dae7524df783d2c0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:27 +0000
Subject: [PATCH 51/61] fix: dictionary keys that hash alike are compared as C
 strings, beyond their ends

---
 src/simple_sparsehash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 865f5fc..7fc45ce 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -277,7 +277,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -385,8 +385,8 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				void *existing_val = existing_bucket->val;
@@ -441,8 +441,8 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From c9f98e158c4b7403aace152e940397aa3cd0feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 52/61] fix: substring and suffix tests count in 32 bits, so
 they fail or never end on strings over 2 GiB

---
 src/utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index fc04e47..6efcc02 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -52,7 +52,7 @@ int endswith(const char *string, const char *suffix) {
 	if (string_siz < suffix_siz)
 		return 0;
 
-	unsigned int i = 0;
+	size_t i = 0;
 	for (; i < suffix_siz; i++) {
 		if (suffix[i] != string[string_siz - suffix_siz + i])
 			return 0;
@@ -62,7 +62,7 @@ int endswith(const char *string, const char *suffix) {
 
 /* Pulled from here: http://stackoverflow.com/a/25705264 */
 char *strnstr(const char *haystack, const char *needle, size_t len) {
-	int i;
+	size_t i;
 	size_t needle_len;
 
 	/* segfault here if needle is not NULL terminated */
@@ -72,7 +72,7 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<=(int)(len-needle_len); i++)
+	for (i=0; i+needle_len<=len; i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 46c64845c0416e0d8d8c9398c0eb6f4ebc90ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 53/61] fix: files cannot be served by a process whose
 descriptor 0 is closed

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 40b0234..d6d0d64 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -192,7 +192,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
-- 
2.43.0


From a629bfe8949a38b8d4f40e808bcc1d628f1f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 54/61] fix: the server does not start when descriptor 0 is
 closed

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index c0e3ebb..1ba40e6 100644
--- a/src/server.c
+++ b/src/server.c
@@ -202,7 +202,7 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
 		goto error;
 	}
-- 
2.43.0


From cb665823c1a5cad5b0bb8c249b8a8a0189d31b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:08 +0000
Subject: [PATCH 55/61] fix: decoding many escapes takes quadratic time, 12 s
 for a form of 2 MB

---
 src/utils.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 6efcc02..d44bd11 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -23,6 +23,10 @@ inline static int _ishex(int x) {
 		(x >= 'A' && x <= 'F');
 }
 
+inline static int _hexval(int x) {
+	return x <= '9' ? x - '0' : (x | 0x20) - 'a' + 10;
+}
+
 /* Taken from the wikipedia page on URL decoding. */
 int m38_url_decode(const char *s, char *dec) {
 	char *o;
@@ -32,10 +36,12 @@ int m38_url_decode(const char *s, char *dec) {
 	for (o = dec; s <= end; o++) {
 		c = *s++;
 		if (c == '+') c = ' ';
-		else if (c == '%' && (!_ishex(*s++) ||
-					!_ishex(*s++) ||
-					!sscanf(s - 2, "%2x", &c)))
-			return -1;
+		else if (c == '%') {
+			if (!_ishex(*s++) || !_ishex(*s++))
+				return -1;
+			/* Not sscanf, which looks for the end of the whole string every time. */
+			c = _hexval(s[-2]) * 16 + _hexval(s[-1]);
+		}
 
 		if (dec) {
 			*o = c;
-- 
2.43.0


From 29ca62cd0fa8791ed103d427bd5e80bf891eed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 56/61] fix: looking up a cookie among many takes quadratic
 time

---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index d44bd11..7e4efe2 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -138,7 +138,7 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 					continue;
 			}
 
-			const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_end - cookie_loc);
+			const char *cookie_string_end = memchr(cookie_loc, ';', cookie_end - cookie_loc);
 			if (!cookie_string_end) {
 					/* This is okay, it might be at the end of the cookie. */
 					cookie_string_end = cookie_end;
-- 
2.43.0


From ce1e04f5259f5c6a599ed0875631f57611804300 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 57/61] fix: servers that start at the same time share each
 other's queues, and with them connections

---
 src/server.c | 81 +++++++++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 55 deletions(-)

diff --git a/src/server.c b/src/server.c
index 1ba40e6..bc0d75d 100644
--- a/src/server.c
+++ b/src/server.c
@@ -34,15 +34,19 @@
 
 typedef struct {
 	const int main_sock_fd;
+	const mqd_t accepted_queue;
 } acceptor_arg;
 
 typedef struct {
 	const m38_app *app;
 	const int worker_ident;
+	const mqd_t accepted_queue;
+	const mqd_t handled_queue;
 } handler_arg;
 
-static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
-	(void) flags;
+/* Creates a queue of our own. The threads share its descriptor instead of opening it by name, which
+ * another server could have taken over by then. */
+static inline mqd_t _open_queue(const char *queue_name, const size_t size) {
 	struct mq_attr asq_attr = {
 		.mq_flags = 0,
 		.mq_maxmsg = 10,
@@ -50,23 +54,19 @@ static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t
 		.mq_curmsgs = 0
 	};
 
-	mqd_t to_return = mq_open(queue_name, O_WRONLY | O_CREAT, 0644, &asq_attr);
+	mqd_t to_return = -1;
+	do {
+		to_return = mq_open(queue_name, O_RDWR | O_CREAT | O_EXCL, 0644, &asq_attr);
+	} while (to_return == -1 && errno == EEXIST && mq_unlink(queue_name) == 0);
 	if (to_return == -1)
 		perror("Could not open queue");
 
 	return to_return;
 }
 static void *acceptor(void *arg) {
-	mqd_t accepted_socket_queue = 0;
 	const acceptor_arg *args = arg;
 	const int main_sock_fd = args->main_sock_fd;
-
-	accepted_socket_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_WRONLY, sizeof(int));
-	if (accepted_socket_queue == -1) {
-		m38_log_msg(LOG_ERR, "Acceptor: Could not open accepted_socket_queue.");
-		perror("Acceptor: ");
-		return NULL;
-	}
+	const mqd_t accepted_socket_queue = args->accepted_queue;
 
 	while(1) {
 		struct sockaddr_storage their_addr = {0};
@@ -97,15 +97,7 @@ static void *acceptor(void *arg) {
 }
 
 static void *responder(void *arg) {
-	UNUSED(arg);
-
-	mqd_t handled_queue = -1;
-	handled_queue = mq_open(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR);
-	if (handled_queue == -1) {
-		m38_log_msg(LOG_ERR, "Responder: Could not open handled queue.");
-		perror("Responder: ");
-		return NULL;
-	}
+	const mqd_t handled_queue = *(const mqd_t *)arg;
 
 	while(1) {
 		m38_handled_request *req = NULL;
@@ -134,31 +126,15 @@ static void *responder(void *arg) {
 		}
 	}
 
-	mq_close(handled_queue);
-
 	return NULL;
 }
 
 static void *handler(void *arg) {
-	mqd_t accepted_socket_queue = -1;
-	mqd_t handled_queue = -1;
 	const handler_arg *args = arg;
 	const m38_app *app = args->app;
 	const int worker_ident = args->worker_ident;
-
-	accepted_socket_queue = mq_open(ACCEPTED_SOCKET_QUEUE_NAME, O_RDONLY);
-	if (accepted_socket_queue == -1) {
-		m38_log_msg(LOG_ERR, "Worker %i: Could not open accepted_socket_queue.", worker_ident);
-		perror("Worker: ");
-		return NULL;
-	}
-
-	handled_queue = mq_open(HANDLED_CONNECTION_QUEUE_NAME, O_WRONLY);
-	if (handled_queue == -1) {
-		m38_log_msg(LOG_ERR, "Worker %i: Could not open handled queue.", worker_ident);
-		perror("Worker: ");
-		return NULL;
-	}
+	const mqd_t accepted_socket_queue = args->accepted_queue;
+	const mqd_t handled_queue = args->handled_queue;
 
 	while(1) {
 		int new_fd = 0;
@@ -194,8 +170,6 @@ static void *handler(void *arg) {
 		}
 	}
 
-	mq_close(accepted_socket_queue);
-
 	return NULL;
 }
 
@@ -263,15 +237,15 @@ int m38_http_serve(m38_app *app) {
 		m38_log_msg(LOG_INFO, "Purged old handled queue.");
 	}
 
-	/* We precreate the queue here to guarantee that everyone else will have access to it. */
-	po_accepted_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(int));
+	/* We create the queues here to guarantee that everyone else will have access to them. */
+	po_accepted_queue = _open_queue(ACCEPTED_SOCKET_QUEUE_NAME, sizeof(int));
 	if (po_accepted_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen accepted_socket_queue.");
 		perror("Main Thread");
 		goto error;
 	}
 
-	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
+	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, sizeof(m38_handled_request *));
 	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
@@ -280,6 +254,7 @@ int m38_http_serve(m38_app *app) {
 
 	acceptor_arg args = {
 		.main_sock_fd = *main_sock_fd,
+		.accepted_queue = po_accepted_queue,
 	};
 
 	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
@@ -289,7 +264,7 @@ int m38_http_serve(m38_app *app) {
 
 	m38_log_msg(LOG_INFO, "Acceptor thread started.");
 
-	if (pthread_create(&responder_worker, NULL, responder, NULL) != 0) {
+	if (pthread_create(&responder_worker, NULL, responder, &po_handled_queue) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start responder thread.");
 		goto error;
 	}
@@ -300,7 +275,9 @@ int m38_http_serve(m38_app *app) {
 	for (i = 0; i < app->num_threads; i++) {
 		handler_arg args = {
 			.app = app,
-			.worker_ident = i
+			.worker_ident = i,
+			.accepted_queue = po_accepted_queue,
+			.handled_queue = po_handled_queue
 		};
 		memcpy(&handler_args[i], &args, sizeof(args));
 		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
@@ -309,16 +286,6 @@ int m38_http_serve(m38_app *app) {
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
 	}
 
-	if (mq_close(po_accepted_queue) == -1) {
-		m38_log_msg(LOG_ERR, "Main thread: Could not close accepted queue.");
-		goto error;
-	}
-
-	if (mq_close(po_handled_queue) == -1) {
-		m38_log_msg(LOG_ERR, "Main thread: Could not close handled queue.");
-		goto error;
-	}
-
 	for (i = 0; i < app->num_threads; i++) {
 		pthread_join(handlers[i], NULL);
 		m38_log_msg(LOG_INFO, "Worker thread %i stopped.", i);
@@ -326,6 +293,10 @@ int m38_http_serve(m38_app *app) {
 	pthread_join(acceptor_enqueuer, NULL);
 	m38_log_msg(LOG_INFO, "Acceptor thread stopped.");
 
+	/* The responder is still waiting on the other queue. */
+	if (mq_close(po_accepted_queue) == -1)
+		m38_log_msg(LOG_ERR, "Main thread: Could not close accepted queue.");
+
 	close(*main_sock_fd);
 	return 0;
 
-- 
2.43.0


From 8bf16a0f9c493f96f048ba4cd1f566c5c640c4c6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 58/61] fix: signals stop the server's workers and make it drop
 connections

---
 src/server.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index bc0d75d..504d722 100644
--- a/src/server.c
+++ b/src/server.c
@@ -85,7 +85,10 @@ static void *acceptor(void *arg) {
 			continue;
 		}
 
-		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		ssize_t msg_size = -1;
+		do {
+			msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		} while (msg_size == -1 && errno == EINTR);
 		if (msg_size == -1) {
 			/* We want to continue from this error. Maybe the queue is full or something. */
 			m38_log_msg(LOG_ERR, "Acceptor: Could not queue new accepted connection.");
@@ -103,7 +106,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -140,7 +145,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
@@ -155,7 +162,10 @@ static void *handler(void *arg) {
 				m38_log_msg(LOG_ERR, "Worker %i: Could not generate a response.", worker_ident);
 				close(new_fd);
 			} else {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				ssize_t msg_size = -1;
+				do {
+					msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+				} while (msg_size == -1 && errno == EINTR);
 				if (msg_size == -1)
 					m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
 			}
-- 
2.43.0


From 1a7c72b96a7f6cd132d1a774a6db380313ae0c95 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 59/61] fix: a signal while a response is sent cuts it off

---
 src/grengine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grengine.c b/src/grengine.c
index d6d0d64..8717d24 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -663,6 +663,8 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
 	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	if (rc < 0 && errno == EINTR)
+		return hreq; /* Nothing was sent yet, so this is to be continued. */
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
-- 
2.43.0


From 56c5e03418adb3a73d4faaeeff296519b8e90f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 60/61] fix: sizes over 2 GB are logged wrongly

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 8717d24..489e4b8 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -310,7 +310,7 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
 	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
 
-	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %i \"%s\"",
+	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %zu \"%s\"",
 		visitor_ip_addr == NULL ? "NOIP" : visitor_ip_addr,
 		request->verb,
 		request->resource,
-- 
2.43.0


From 02eada0289c910a4e0dfaff3d63fd5cb62a38929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 61/61] fix: log messages of several threads get each other's
 time

---
 src/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..57c50ab 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -30,9 +30,10 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 
 	/* Time stuff */
 	struct timeval timest;
+	struct tm local;
 	gettimeofday(&timest, NULL);
 	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+			localtime_r(&timest.tv_sec, &local));
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0

