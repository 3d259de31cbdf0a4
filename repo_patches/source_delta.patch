From 52cf044301337c87fa5c5b64e49871c20aa7700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 01/25] fix: do not abort when the expected size of an index is
 0

Seeds that are small compared to the average chunk size, as well as empty
seeds, side-loaded indices and images, led to an assertion failure.
---
 index.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..0db92cf 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,11 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// the size is just an estimate and is legitimately 0 for empty or
+	// very small stores
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From d0d1012af5877e065718a2c480e0a4c61544aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 02/25] fix: refuse index entries that do not advance or are
 too large

A repeated offset led to an assertion failure in index_insert(), while a
decreasing one or a gap of more than 4 GiB was silently skipped, so that the
extraction of such an index was incomplete but still reported as successful.
---
 caibx.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..3c876bd 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,15 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		// Offsets have to be strictly increasing (going backwards shows
+		// up as a huge length here) and we need to be able to represent
+		// the length. Ignoring the entry is not an option since the
+		// result would be incomplete.
+		if (len == 0 || len > UINT32_MAX) {
+			u_log(ERR, "entry %zu has invalid length %"PRIu64, i, len);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,13 +230,8 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine.
 			 */
-			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
-			}
 		}
 
 		if (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)
-- 
2.43.0


From 6485d3cb5354bcadb5443ad4529e30b9580be9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 03/25] fix: discard a side-loaded index if its entries cannot
 be read

An entry that lies outside of the store or is too long led to the store being
deactivated, although a wrong side-loaded index is supposed to be discarded.
---
 store-local.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/store-local.c b/store-local.c
index b683064..1742a6d 100644
--- a/store-local.c
+++ b/store-local.c
@@ -141,11 +141,20 @@ restart:
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		// unvalidated entries may lie outside of the store
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
@@ -171,6 +180,7 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From f7bd41d9dbfd643bbe292ae58dd8ad98001f4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 04/25] fix: do not free the index of a local store twice

When determining the size of the store fails while it is being rescanned, the
index that was discarded before was freed again along with the store.
---
 index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index.c b/index.c
index 0db92cf..11a914c 100644
--- a/index.c
+++ b/index.c
@@ -28,6 +28,9 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+	idx->entries = NULL;
+	idx->n_entries = 0;
+	idx->space_avail = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From f485e10ada446ff38e67afda62f178301c42def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 05/25] fix: only reuse the previous chunk if its length
 matches

If an index repeats a chunk ID with a different length, stale data or data
from beyond the end of the chunk buffer was written to the target unverified.
---
 main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0e13df5..1d0612e 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || len != last_len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From c0797a0dba2a1c7bd2f48b46da3a7da8d8722cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 06/25] fix: verify chunks read from scanned local stores

A local store that changes after it has been scanned (bit rot, a mounted
partition, or the target itself given under another name) led to wrong data
being written to the target and reported as success. The documentation promises
that every retrieved chunk is verified, including those from local stores.
---
 store-local.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/store-local.c b/store-local.c
index 1742a6d..c813620 100644
--- a/store-local.c
+++ b/store-local.c
@@ -23,7 +23,7 @@ struct store_local {
 	struct chunker_params chunker_params;
 };
 
-#define INDEX_FLAG_VALIDATED (1<<0)
+#define INDEX_FLAG_SCANNED (1<<0)
 
 struct insert_ctx {
 	struct index *idx;
@@ -116,9 +116,10 @@ static int store_scan(struct store_local *ls)
 	struct insert_ctx ctx = {
 		.idx = &ls->idx,
 
-		// as this entry is the result of scanning the store ourselves, we
-		// consider it in sync with the data within the store
-		.flags = INDEX_FLAG_VALIDATED
+		// as this entry is the result of scanning the store ourselves,
+		// there's no point in scanning it again if it turns out to be
+		// out of sync with the data within the store
+		.flags = INDEX_FLAG_SCANNED
 	};
 
 	if (chunker_scan_fd(ls->fd, &ls->chunker_params, store_insert_index, &ctx) < 0)
@@ -142,7 +143,7 @@ restart:
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
 
-		if (!(e->flags & INDEX_FLAG_VALIDATED))
+		if (!(e->flags & INDEX_FLAG_SCANNED))
 			goto rescan;
 
 		return -1;
@@ -151,24 +152,18 @@ restart:
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
 
-		// unvalidated entries may lie outside of the store
-		if (!(e->flags & INDEX_FLAG_VALIDATED))
+		// side-loaded entries may lie outside of the store
+		if (!(e->flags & INDEX_FLAG_SCANNED))
 			goto rescan;
 
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	chunk_calculate_id(out, e->len, actual_chunk_id);
 
-	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0) {
-		e->flags |= INDEX_FLAG_VALIDATED;
+	if (memcmp(id, actual_chunk_id, CHUNK_ID_LEN) == 0)
 		return e->len;
-	}
 
 	char chunk_id_str[CHUNK_ID_STRLEN];
 	u_log(ERR, "chunk validation failure at offset %"PRIu64" (chunk length %"PRIu32")",
@@ -180,6 +175,11 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+	// the store has changed after we've scanned it, don't trust it with
+	// this chunk
+	if (e->flags & INDEX_FLAG_SCANNED)
+		return 0;
+
 rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
-- 
2.43.0


From 23e0a9e9c0fb3c3f92e112be5dd349ae11e64e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 07/25] fix: verify chunks that are read back from the target

When the target is used as a store, a chunk that got corrupted after it had
been written was copied to further places without being noticed. As documented,
every retrieved chunk has to be verified.
---
 target.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/target.c b/target.c
index f0ea9f7..22ca7c0 100644
--- a/target.c
+++ b/target.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <inttypes.h>
 
 #include "utils.h"
 #include "chunker.h"
@@ -67,6 +68,13 @@ static ssize_t target_get_chunk(struct store *s, uint8_t *id, uint8_t *out, size
 		return -1;
 	}
 
+	uint8_t calculated_id[CHUNK_ID_LEN];
+	chunk_calculate_id(out, e->len, calculated_id);
+	if (memcmp(calculated_id, id, CHUNK_ID_LEN)) {
+		u_log(ERR, "chunk at offset %"PRIu64" has changed since it was written", e->start);
+		return 0;
+	}
+
 	return e->len;
 }
 
-- 
2.43.0


From 3141440729142e69debc2e7dedddba082680c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 08/25] fix: start from scratch when a request is retried

A transfer that timed out in the middle of the response left decoder,
decryption and output position as they were, so that the retried response was
appended to the partial one and never verified.
---
 store-http.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..3ed73a4 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,42 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+/* Prepares for receiving a response from its beginning, dropping anything that
+ * a previous, incomplete attempt may have left behind.
+ */
+static int request_reset(struct http_request_ctx *ctx, uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		if (request_reset(ctx, id) < 0)
+			return CURLE_FAILED_INIT;
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,23 +303,11 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
@@ -303,7 +320,7 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From cbe1fb56159751ecfd909ea5565ef5a89c5b7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 09/25] fix: ignore empty side-loaded indices

They made the program abort originally and hide all of the chunks of the store
otherwise.
---
 store-local.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store-local.c b/store-local.c
index c813620..c32ed25 100644
--- a/store-local.c
+++ b/store-local.c
@@ -75,6 +75,12 @@ static int store_sideload_index(struct store_local *ls, const char *index)
 		goto out_fd;
 	}
 
+	// this can't be the index of anything that is worth using as a store
+	if (n_entries == 0) {
+		u_log(ERR, "sideload index is empty");
+		goto out_fd;
+	}
+
 	if (index_init(&ls->idx, n_entries) < 0) {
 		u_log(ERR, "initializing index failed");
 		goto out_fd;
-- 
2.43.0


From 0fcfe4bbd9f644ba173e4052b42615dd3864031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 10/25] fix: limit the discriminator like casync does

The approximation yields values that are 0, negative or beyond the maximum chunk
size for some parameters (division by zero, undefined conversion), and casync
limits the result to the chunk size bounds in any case, so chunk boundaries did
not match casync's for averages close to the minimum or very large ones.
---
 chunker.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/chunker.c b/chunker.c
index b499f49..406033a 100644
--- a/chunker.c
+++ b/chunker.c
@@ -108,6 +108,20 @@ void chunker_reset(struct chunker *c)
 }
 
 #define CA_CHUNKER_DISCRIMINATOR_FROM_AVG(avg) ((size_t) (avg / (-1.42888852e-7 * avg + 1.33237515)))
+static size_t chunker_discriminator(struct chunker_params *params)
+{
+	double discriminator;
+
+	discriminator = params->avg_size / (-1.42888852e-7 * params->avg_size + 1.33237515);
+
+	// The approximation goes astray for very large averages. Like casync,
+	// keep the result within the bounds of the chunk size.
+	if (discriminator < 0 || discriminator > params->max_size)
+		return params->max_size;
+
+	return MAX(MAX((size_t) discriminator, (size_t) params->min_size), (size_t) 1);
+}
+
 int chunker_init(struct chunker *c, struct chunker_params *params)
 {
 	u_assert(c);
@@ -116,7 +130,7 @@ int chunker_init(struct chunker *c, struct chunker_params *params)
 
 	// make sure we match casync's results here
 	u_build_assert(CA_CHUNKER_DISCRIMINATOR_FROM_AVG(64 * 1024) == 0xc17f);
-	c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);
+	c->discriminator = chunker_discriminator(&c->params);
 
 	chunker_reset(c);
 
@@ -132,10 +146,10 @@ static bool chunker_shall_break(struct chunker *c)
 		return false;
 
 	// special case the common case to allow for compile-time optimization
-	if (c->params.avg_size == CHUNKER_SIZE_AVG_DEFAULT) {
-		size_t default_discriminator;
+	size_t default_discriminator;
 
-		default_discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(CHUNKER_SIZE_AVG_DEFAULT);
+	default_discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(CHUNKER_SIZE_AVG_DEFAULT);
+	if (c->discriminator == default_discriminator) {
 		return (c->h % default_discriminator) == (default_discriminator - 1);
 	} else {
 		return (c->h % c->discriminator) == (c->discriminator - 1);
-- 
2.43.0


From ae56d1d6dd7fd703b23ea8eef8fe634c766fa007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 11/25] fix: decompress all frames of a response at once

---
 store-http.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/store-http.c b/store-http.c
index 3ed73a4..9565dce 100644
--- a/store-http.c
+++ b/store-http.c
@@ -131,12 +131,21 @@ static ssize_t handle_data(struct http_request_ctx *ctx, uint8_t *data, size_t l
 		.pos = ctx->outbuf_written
 	};
 
-	size_t ret;
-	ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
-	if (ZSTD_isError(ret)) {
-		u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
-		return -1;
-	}
+	// each call stops at the end of a frame, so repeat this until all input
+	// is used up or no further progress is possible
+	size_t last_in, last_out;
+	do {
+		last_in = zstd_in.pos;
+		last_out = zstd_out.pos;
+
+		size_t ret;
+		ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
+		if (ZSTD_isError(ret)) {
+			u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
+			return -1;
+		}
+	} while (zstd_in.pos < zstd_in.size &&
+	         (zstd_in.pos != last_in || zstd_out.pos != last_out));
 
 	u_log(DEBUG, "decompression consumed %zu out of %zu available bytes and produced %zu",
 	      zstd_in.pos, zstd_in.size, zstd_out.pos);
-- 
2.43.0


From abbb74bf389a193fb382fa066de7bb63da2bb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 12/25] fix: interpret the result of EVP_Cipher correctly

---
 encrypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..676a0e3 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,7 +136,8 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
+	// returns the number of bytes processed (possibly 0) or -1 on failure
+	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) < 0)
 		return -1;
 
 	return 0;
-- 
2.43.0


From 06b47cea624affb145df7c4897a1839a91e4f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 13/25] fix: only strip trailing line breaks in chomp

---
 utils.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/utils.c b/utils.c
index 70cc46a..561edf8 100644
--- a/utils.c
+++ b/utils.c
@@ -267,22 +267,11 @@ int parse_hex(uint8_t *out, const char *in)
 
 void chomp(char *s)
 {
-	char *p, *q;
+	size_t len = strlen(s);
 
-	q = NULL;
-	p = s;
+	// only strip line breaks at the end of the string
+	while (len && (s[len-1] == '\r' || s[len-1] == '\n'))
+		len--;
 
-	while (*p) {
-		if (*p == '\r' || *p == '\n') {
-			q = p;
-
-			while (*p == '\r' || *p == '\n')
-				p++;
-		} else {
-			p++;
-		}
-	}
-
-	if (q)
-		*q = 0;
+	s[len] = 0;
 }
-- 
2.43.0


From c5c5f741c1513dc694dd336c076de15e45a2b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 14/25] fix: refuse key files that contain NUL bytes

---
 encrypt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 676a0e3..7b963cd 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -159,14 +159,20 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 			return -1;
 		}
 	} else if(startswith(keyspec, "file:")) {
-		char *slurped = slurp_file(&keyspec[5], true, NULL);
+		off_t slurped_size;
+		char *slurped = slurp_file(&keyspec[5], true, &slurped_size);
 		if (!slurped)
 			return -1;
 
-		chomp(slurped);
-
 		key_str = slurped;
 		do_free = true;
+
+		if (strlen(slurped) != (size_t)slurped_size) {
+			u_log(ERR, "key file contains NUL bytes");
+			goto out;
+		}
+
+		chomp(slurped);
 	} else {
 		u_log(ERR, "unknown keyspec used in '%s'", keyspec);
 		return -1;
-- 
2.43.0


From 44f7a51d870bd8495b856fb7592ea1e50eb37caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 15/25] fix: do not leave truncated csn-tool output behind

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..d6440e7 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -107,6 +107,11 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 
 	if (writeall(fd, buf, chunk_size) < 0) {
 		u_log(ERR, "failed to write to output file");
+
+		// a truncated file would be mistaken for a finished one later
+		if (fd != STDOUT_FILENO)
+			unlink(output_path);
+
 		goto out_fd;
 	}
 
-- 
2.43.0


From e634491cbaff0cd07f39ab0f6edddf6661c61193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 16/25] fix: write to stdout even if a file named '-' exists

---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index d6440e7..4d05f56 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -72,7 +72,7 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	if (!streq(output_path, "-") && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
-- 
2.43.0


From 4ec23e14a9d6adde1997c232bfeab09f91a72b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 17/25] fix: require exactly 64 hex digits in chunk file names

---
 csn-tool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 4d05f56..8e1f697 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -23,7 +23,8 @@ static int chunk_id_from_path(uint8_t id[CHUNK_ID_LEN], const char *path)
 		return -1;
 	}
 
-	if (!streq(&basename[name_len-6], ".cacnk") && !streq(&basename[name_len-10], ".cacnk.enc")) {
+	// the length check above makes sure that there are 64 characters in front
+	if (!streq(&basename[64], ".cacnk") && !streq(&basename[64], ".cacnk.enc")) {
 		u_log(ERR, "chunk basename '%s' does not end with '.cacnk' or '.cacnk.enc'", basename);
 		return -1;
 	}
-- 
2.43.0


From fe34da2412b12bdffc2e8b1d551f12cefedc3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 18/25] fix: hash all data when falling back from kcapi

---
 sha.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..6cd9669 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,11 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	size_t sent = 0;
+	while (sent < len) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, data + sent, len - sent, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +97,7 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		sent += ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From ad11d79adf51abf10f193a74795e38786f7968c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 19/25] fix: do not start extracting after printing the help
 text

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 1d0612e..cde2dc8 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From 9c36cd7b274c3ba5781b2f2fdbdfa9d68fa2a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 20/25] fix: do not truncate long log messages

The message about mismatching chunker parameters does not fit into 128 bytes
together with its location, so its second half and the line break were lost.
---
 log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.c b/log.c
index 822b03d..b3430e7 100644
--- a/log.c
+++ b/log.c
@@ -62,7 +62,7 @@ void _u_log(enum u_loglevel level, const char *path, const char *func, int line,
 	else
 		file = path;
 
-	char buf[128];
+	char buf[256];
 	if (is_tty) {
 		static const int color_map[] = {
 			[U_LOG_ERR] = COLOR_RED,
-- 
2.43.0


From 50e498929cda66fb1a57705e9f33fd82c9c412e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 21/25] fix: do not report NaN % for an empty source in patchdd

---
 patchdd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patchdd.c b/patchdd.c
index 61f1c29..eeee3b1 100644
--- a/patchdd.c
+++ b/patchdd.c
@@ -101,7 +101,7 @@ int main(int argc, char **argv)
 	printf("synchronization finished after %u seconds\n", (unsigned int)(now - start));
 	printf("skipped a total of %llu bytes (%.2f%% of the input)\n",
 	      (unsigned long long)total_skipped,
-	      (double)((100.0 * total_skipped)/src_size));
+	      src_size ? (100.0 * total_skipped)/src_size : 0.0);
 
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From 58eb3289dd149e3ff360a07b2a3d034add88ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:39 +0000
Subject: [PATCH 22/25] fix: encrypt messages of 2 GiB and more completely

EVP_Cipher takes the length as an unsigned int and returns it as an int: from 2 GiB on it seemed to fail, and from
4 GiB on the length was truncated, so that csn-tool wrote most of the data unencrypted and reported success.
---
 encrypt.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 7b963cd..f0cb231 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,9 +136,18 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	// returns the number of bytes processed (possibly 0) or -1 on failure
-	if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len) < 0)
-		return -1;
+	// EVP_Cipher can't represent lengths beyond INT_MAX
+	while (len) {
+		size_t step = MIN(len, (size_t)1 << 30);
+
+		// returns the number of bytes processed (possibly 0) or -1 on failure
+		if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, step) < 0)
+			return -1;
+
+		out += step;
+		in += step;
+		len -= step;
+	}
 
 	return 0;
 }
-- 
2.43.0


From e0cf258cd6e9518c1d19922850f17bbe1ab3c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 23/25] fix: do not open files as closed standard descriptors

---
 csn-tool.c |  3 +++
 main.c     |  3 +++
 patchdd.c  |  3 +++
 utils.c    | 17 +++++++++++++++++
 utils.h    |  1 +
 5 files changed, 27 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index 8e1f697..e66fd11 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -197,6 +197,9 @@ __attribute__((noreturn)) static void usage(const char *prog, bool error)
 
 int main(int argc, char **argv)
 {
+	if (ensure_std_fds() < 0)
+		return EXIT_FAILURE;
+
 	u_log_init();
 
 	if (argc < 2)
diff --git a/main.c b/main.c
index cde2dc8..74895c1 100644
--- a/main.c
+++ b/main.c
@@ -271,6 +271,9 @@ static int casync(int argc, char **argv)
 
 int main(int argc, char **argv)
 {
+	if (ensure_std_fds() < 0)
+		return EXIT_FAILURE;
+
 	u_log_init();
 
 	int ret;
diff --git a/patchdd.c b/patchdd.c
index eeee3b1..2c98148 100644
--- a/patchdd.c
+++ b/patchdd.c
@@ -25,6 +25,9 @@ static size_t memcmp_offset(uint8_t *a, uint8_t *b, size_t len)
 
 int main(int argc, char **argv)
 {
+	if (ensure_std_fds() < 0)
+		return EXIT_FAILURE;
+
 	u_log_init();
 
 	if (argc < 3 ||
diff --git a/utils.c b/utils.c
index 561edf8..e6bd197 100644
--- a/utils.c
+++ b/utils.c
@@ -52,6 +52,23 @@ static int blockdevice_size(int fd, off_t *size_ptr)
 #error "blockdevice_size not implemented for target"
 #endif
 
+// Make sure that no file gets opened as standard input, output or error, where
+// log messages and other output would end up in it. Using one of these
+// descriptors continues to fail if it was not open in the first place.
+int ensure_std_fds(void)
+{
+	for (int fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++) {
+		if (fcntl(fd, F_GETFD) >= 0 || errno != EBADF)
+			continue;
+
+		int flags = (fd == STDIN_FILENO) ? O_WRONLY : O_RDONLY;
+		if (open("/dev/null", flags) != fd)
+			return -1;
+	}
+
+	return 0;
+}
+
 must_check int readall(int fd, uint8_t *buf, size_t len)
 {
 	size_t read_bytes = 0;
diff --git a/utils.h b/utils.h
index ee86d28..03fd4a5 100644
--- a/utils.h
+++ b/utils.h
@@ -97,6 +97,7 @@ static inline void p32le(uint8_t *data, uint32_t v)
 	data[3] = (v >> 24) & 0xff;
 }
 
+must_check int ensure_std_fds(void);
 must_check int readall(int fd, uint8_t *buf, size_t len);
 must_check int preadall(int fd, uint8_t *buf, size_t len, off_t offset);
 must_check int writeall(int fd, const uint8_t *buf, size_t len);
-- 
2.43.0


From 40e28d6eb3abe49672707710d3ddbb1e03562904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:11 +0000
Subject: [PATCH 24/25] fix: fail in csn-tool when the list of paths cannot be
 read

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index e66fd11..374d685 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -157,6 +157,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (ferror(stdin)) {
+			u_log_errno("reading input paths failed");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0


From ec87b5b04bd9f24cf0f5f98b4e80c84adff79e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:24 +0000
Subject: [PATCH 25/25] fix: do not overwrite output files that appear in the
 meantime

---
 csn-tool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 374d685..88a381c 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -98,7 +98,8 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	if (streq(output_path, "-")) {
 		fd = STDOUT_FILENO;
 	} else {
-		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
+		// never touch a file that has appeared in the meantime
+		fd = open(output_path, O_WRONLY | O_EXCL | O_CREAT, 0444);
 
 		if (fd < 0) {
 			u_log_errno("failed to create output file");
-- 
2.43.0

