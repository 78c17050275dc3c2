From 0576e96b863b81d61929ee24c31f6a45c3fab1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 01/25] fix: accept an expected index size of zero

Empty indices and stores which are too small for the estimate to exceed
zero chunks ended in a failed assertion.
---
 index.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1c0a089..e565194 100644
--- a/index.c
+++ b/index.c
@@ -7,7 +7,10 @@
 int index_init(struct index *idx, size_t expected_size)
 {
 	u_assert(idx);
-	u_assert(expected_size > 0);
+
+	// the size is only a hint, nothing expected is fine too
+	if (expected_size == 0)
+		expected_size = 1;
 
 	idx->entries = calloc(expected_size, sizeof(*idx->entries));
 	u_notnull(idx->entries, return -1);
-- 
2.43.0


From 878f79023af0b86d205ac84e77239fb85a3dc703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 02/25] fix: do not leave dangling entries behind in
 index_cleanup

If rescanning a store fails before its index has been set up again, the
entries were freed a second time together with the store.
---
 index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/index.c b/index.c
index e565194..c4d38e6 100644
--- a/index.c
+++ b/index.c
@@ -27,6 +27,10 @@ void index_cleanup(struct index *idx)
 	u_assert(idx);
 
 	free(idx->entries);
+
+	idx->entries = NULL;
+	idx->n_entries = 0;
+	idx->space_avail = 0;
 }
 
 struct index_entry *index_insert(struct index *idx, uint64_t offset, uint32_t len, const uint8_t *id)
-- 
2.43.0


From 40ef7293c219033ccda0732d5e85f544009a5e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 03/25] fix: refuse indices with empty or unrepresentable
 chunks

Chunks of length zero failed an assertion when sideloaded or used with
the target as a store. Chunks beyond 4 GiB (and descending offsets, which
look like such) were skipped, so that the run succeeded with an
incomplete image.
---
 caibx.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/caibx.c b/caibx.c
index b2ed622..d67cb6c 100644
--- a/caibx.c
+++ b/caibx.c
@@ -206,6 +206,16 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 
 		char chunk_id[CHUNK_ID_STRLEN];
 
+		/* Offsets have to increase strictly and by no more than we can
+		 * represent. Going on without such an entry would leave a part
+		 * of the image behind, so there is no point in continuing.
+		 */
+		if (len == 0 || len > UINT32_MAX) {
+			chunk_format_id(chunk_id, &buf[8]);
+			u_log(ERR, "chunk %s has an invalid length: %"PRIu64, chunk_id, len);
+			return -1;
+		}
+
 		// chunks other than the last one should not be shorter than
 		// the minimum size
 		if (len < params->min_size && (i+1) < n_entries) {
@@ -221,13 +231,8 @@ int caibx_iterate_entries(int fd, struct chunker_params *params, size_t n_entrie
 			 * of the chunks that do not fit within the declared
 			 * size bounds, as such chunks should not be produced
 			 * by a conforming encoder. But if the chunk ID still
-			 * matches in the end we should be fine. Only skip
-			 * chunks that we cannot represent at all.
+			 * matches in the end we should be fine.
 			 */
-			if (len > UINT32_MAX) {
-				u_log(WARN, "skipping chunk %s", chunk_id);
-				continue;
-			}
 		}
 
 		if (cb(last_offset, (uint32_t)len, &buf[8], arg) < 0)
-- 
2.43.0


From cbc57e301291000c48f21c7894450451d62f894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 04/25] fix: only reuse the last chunk if the length matches as
 well

An index that repeats a chunk ID with another length wrote data to the
target that does not match the ID, reading beyond the buffer if the
length is large enough.
---
 main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 0e13df5..1d0612e 100644
--- a/main.c
+++ b/main.c
@@ -34,6 +34,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 	static bool have_last_id = false;
 	static bool resuming = true;
 	static uint8_t last_id[CHUNK_ID_LEN];
+	static uint32_t last_len;
 	static uint8_t buf[256*1024] __attribute__((aligned(4096)));
 
 	if (resuming) {
@@ -54,7 +55,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		resuming = false;
 	}
 
-	if (!have_last_id || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
+	if (!have_last_id || len != last_len || memcmp(last_id, id, CHUNK_ID_LEN) != 0) {
 		ssize_t ret = store_get_chunk(store, id, buf, sizeof(buf));
 		if (ret < 0 || len != (size_t)ret) {
 			u_log(ERR, "result size %zd does not match expected length %"PRIu32, ret, len);
@@ -62,6 +63,7 @@ static int entry_cb(uint64_t offset, uint32_t len, uint8_t *id, void *arg)
 		}
 
 		memcpy(last_id, id, CHUNK_ID_LEN);
+		last_len = len;
 		have_last_id = true;
 	}
 
-- 
2.43.0


From 378ea0385c2bbf46a5a6163531e8086a2de6ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 05/25] fix: rescan the store if a sideloaded entry is out of
 range

Entries of a wrong sideloaded index that are too large or extend beyond
the end of the store took the whole store out of service instead of just
the index.
---
 store-local.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/store-local.c b/store-local.c
index b683064..1112bc6 100644
--- a/store-local.c
+++ b/store-local.c
@@ -138,14 +138,24 @@ restart:
 	if (!e)
 		return 0;
 
+	// if the entry has not been validated, the index is to blame for
+	// entries that are too large or cannot be read
 	if (e->len > out_max) {
 		u_log(ERR, "output buffer to small (%zu) to contain cunk of size %"PRIu32,
 		      out_max, e->len);
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
 	if (preadall(ls->fd, out, e->len, e->start) < 0) {
 		u_log(ERR, "reading chunk failed");
+
+		if (!(e->flags & INDEX_FLAG_VALIDATED))
+			goto rescan;
+
 		return -1;
 	}
 
@@ -171,6 +181,7 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
 	index_cleanup(&ls->idx);
-- 
2.43.0


From d6667038957924ead4f99e25fb76f1a713334dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 06/25] fix: verify chunks from local stores each time they are
 read

Chunks found by scanning a store (or previously written to the target)
were used without looking at their contents again. If the store changed
in the meantime, most notably because it is the target under another
name, or a read went wrong, the run succeeded with a wrong image.
---
 store-local.c | 10 ++++++----
 target.c      |  8 ++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/store-local.c b/store-local.c
index 1112bc6..b138bf4 100644
--- a/store-local.c
+++ b/store-local.c
@@ -159,10 +159,8 @@ restart:
 		return -1;
 	}
 
-	if (e->flags & INDEX_FLAG_VALIDATED)
-		return e->len;
-
-	// if the entry has not been validated, check its contents
+	// The store might have changed since the entry was validated (e.g.
+	// because it is the target under another name), so always check.
 	uint8_t actual_chunk_id[CHUNK_ID_LEN];
 	chunk_calculate_id(out, e->len, actual_chunk_id);
 
@@ -181,6 +179,10 @@ restart:
 	chunk_format_id(chunk_id_str, actual_chunk_id);
 	u_log(ERR, " got chunk id: %s", chunk_id_str);
 
+	// the index is fine, but the data is gone
+	if (e->flags & INDEX_FLAG_VALIDATED)
+		return 0;
+
 rescan:
 	u_log(ERR, "rescanning store '%s'", s->name);
 
diff --git a/target.c b/target.c
index f0ea9f7..34901a0 100644
--- a/target.c
+++ b/target.c
@@ -4,6 +4,7 @@
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <fcntl.h>
+#include <inttypes.h>
 
 #include "utils.h"
 #include "chunker.h"
@@ -67,6 +68,13 @@ static ssize_t target_get_chunk(struct store *s, uint8_t *id, uint8_t *out, size
 		return -1;
 	}
 
+	uint8_t calculated_id[CHUNK_ID_LEN];
+	chunk_calculate_id(out, e->len, calculated_id);
+	if (memcmp(calculated_id, id, CHUNK_ID_LEN)) {
+		u_log(WARN, "chunk at offset %"PRIu64" does not match its id anymore", e->start);
+		return 0;
+	}
+
 	return e->len;
 }
 
-- 
2.43.0


From 8841874728a629d5f9ce88b9f942795da788d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 07/25] fix: start decoding afresh for each attempt of a HTTP
 request

If an attempt timed out in the middle of the body, the data it had
delivered stayed in the decoder and the output buffer, so that none of the
following attempts could succeed.
---
 store-http.c | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/store-http.c b/store-http.c
index 815797d..693ca48 100644
--- a/store-http.c
+++ b/store-http.c
@@ -232,13 +232,40 @@ static bool curl_is_transient_error(CURLcode code)
 	       code == CURLE_OPERATION_TIMEDOUT;
 }
 
-static CURLcode retried_curl_easy_perform(struct store_http *hs)
+// (re)start decoding a response from the very beginning
+static int restart_decoding(struct http_request_ctx *ctx, const uint8_t *id)
 {
+	struct store_http *hs = ctx->hs;
+
+	hs->decode_buffer_fill = 0;
+
+	ZSTD_initDStream(hs->zstd);
+
+	if (hs->encrypted) {
+		// uses the first 24 bytes of the id as the nonce
+		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
+			u_log(ERR, "failed to re-initialize encryption");
+			return -1;
+		}
+	}
+
+	ctx->outbuf_written = 0;
+	ctx->state = HTTP_REQUEST_STARTED;
+
+	return 0;
+}
+
+static CURLcode retried_curl_easy_perform(struct http_request_ctx *ctx, const uint8_t *id)
+{
+	struct store_http *hs = ctx->hs;
 	CURLcode ret;
 	int remaining = CONNECT_TRIES;
 	useconds_t wait_us = 200 * 1000;
 
 	do {
+		// a previous attempt might have delivered part of the data
+		checked(restart_decoding(ctx, id), return CURLE_FAILED_INIT);
+
 		ret = curl_easy_perform(hs->curl);
 
 		if (!curl_is_transient_error(ret))
@@ -274,36 +301,22 @@ static ssize_t store_http_get_chunk(struct store *s, uint8_t *id, uint8_t *out,
 {
 	struct store_http *hs = (struct store_http*) s;
 
-	hs->decode_buffer_fill = 0;
-
-	ZSTD_initDStream(hs->zstd);
-
 	if (set_url(hs, id) < 0) {
 		u_log(ERR, "setting request URL failed");
 		return -1;
 	}
 
-	if (hs->encrypted) {
-		// uses the first 24 bytes of the id as the nonce
-		if (encrypt_restart(&hs->encrypt_ctx, id) < 0) {
-			u_log(ERR, "failed to re-initialize encryption");
-			return -1;
-		}
-	}
-
 	struct http_request_ctx ctx = {
 		.hs = hs,
 		.outbuf = out,
-		.outbuf_size = out_max,
-		.outbuf_written = 0,
-		.state = HTTP_REQUEST_STARTED
+		.outbuf_size = out_max
 	};
 	curl_checked_setopt(hs->curl, CURLOPT_WRITEDATA, &ctx, return -1);
 
 	u_log(DEBUG, "trying to fetch chunk from '%s'", hs->url_buf);
 
 	CURLcode curl_ret;
-	curl_ret = retried_curl_easy_perform(hs);
+	curl_ret = retried_curl_easy_perform(&ctx, id);
 
 	if (curl_is_transient_error(curl_ret)) {
 		u_log(WARN, "transient transfer failure, increasing error counter");
-- 
2.43.0


From c8d1b284d80cfbf88548ad018c617837fb65aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 08/25] fix: consume all of the data of a HTTP response as it
 arrives

Decompression stops at the end of a frame and once the output buffer is
full. What was left of the data at that point was kept until more
arrived, so whether a body consisting of several frames was accepted
depended on how it was split up, and a body that is too large was
buffered in memory as a whole.
---
 store-http.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/store-http.c b/store-http.c
index 693ca48..4d9706d 100644
--- a/store-http.c
+++ b/store-http.c
@@ -131,11 +131,22 @@ static ssize_t handle_data(struct http_request_ctx *ctx, uint8_t *data, size_t l
 		.pos = ctx->outbuf_written
 	};
 
-	size_t ret;
-	ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
-	if (ZSTD_isError(ret)) {
-		u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
-		return -1;
+	// decompression also stops early at the end of each frame
+	while (zstd_in.pos < zstd_in.size) {
+		size_t last_in = zstd_in.pos;
+		size_t last_out = zstd_out.pos;
+
+		size_t ret;
+		ret = ZSTD_decompressStream(ctx->hs->zstd, &zstd_out, &zstd_in);
+		if (ZSTD_isError(ret)) {
+			u_log(ERR, "zstd decompression failed with error: %s", ZSTD_getErrorName(ret));
+			return -1;
+		}
+
+		if (zstd_in.pos == last_in && zstd_out.pos == last_out) {
+			u_log(WARN, "response is larger than the chunk buffer");
+			return -1;
+		}
 	}
 
 	u_log(DEBUG, "decompression consumed %zu out of %zu available bytes and produced %zu",
-- 
2.43.0


From ccde0e528df10c56510306e5e152dd42c1bc5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 09/25] fix: keep encryption keys out of the log

The name of a HTTP store included its parameters.
---
 store-http.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store-http.c b/store-http.c
index 4d9706d..eeab3ff 100644
--- a/store-http.c
+++ b/store-http.c
@@ -494,7 +494,8 @@ struct store *store_http_new(const char *baseurl)
 	hs->url_buf = malloc(strlen(hs->baseurl) + CHUNK_SUFFIX_MAX_LEN + 1);
 	u_notnull(hs->url_buf, goto err_baseurl);
 
-	snprintf(hs->s.name, sizeof(hs->s.name), "%s", baseurl);
+	// this must not contain the parameters, as the name ends up in the log
+	snprintf(hs->s.name, sizeof(hs->s.name), "%s", hs->baseurl);
 	hs->s.free = store_http_free;
 	hs->s.get_chunk = store_http_get_chunk;
 
-- 
2.43.0


From c6ae4d8c50f63f6482eb23bd9315ce299dcfc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 10/25] fix: hash all of the data when falling back from kcapi

The software fallback only covered what had not been sent yet.
---
 sha.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sha.c b/sha.c
index 3e272d6..ee285d4 100644
--- a/sha.c
+++ b/sha.c
@@ -84,10 +84,12 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 	if (kcapi_fd < 0)
 		return (SHA256(data, len, out) != NULL) ? 0 : -1;
 
-	while (len) {
+	const uint8_t *p = data;
+	size_t remaining = len;
+	while (remaining) {
 		ssize_t ret;
 
-		ret = send(kcapi_fd, data, len, MSG_MORE);
+		ret = send(kcapi_fd, p, remaining, MSG_MORE);
 		if (ret < 0) {
 			if (errno == EINTR)
 				continue;
@@ -96,8 +98,8 @@ int sha_once(const uint8_t *data, size_t len, uint8_t *out)
 			goto disable;
 		}
 
-		data += ret;
-		len -= ret;
+		p += ret;
+		remaining -= ret;
 	}
 
 	ssize_t ret;
-- 
2.43.0


From 20694ac8a7d6b64ece465c4b3d6ebdaec97a154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 11/25] fix: refuse to chunk with unusable average chunk sizes

The discriminator was zero for an average chunk size of one, leading to a
division by zero, and negative (converted to an unsigned type) for very
large ones.
---
 chunker.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/chunker.c b/chunker.c
index b499f49..d716f8d 100644
--- a/chunker.c
+++ b/chunker.c
@@ -2,6 +2,7 @@
 #include <stdint.h>
 #include <stdbool.h>
 #include <stdio.h>
+#include <inttypes.h>
 #include <unistd.h>
 
 #include "utils.h"
@@ -116,6 +117,14 @@ int chunker_init(struct chunker *c, struct chunker_params *params)
 
 	// make sure we match casync's results here
 	u_build_assert(CA_CHUNKER_DISCRIMINATOR_FROM_AVG(64 * 1024) == 0xc17f);
+
+	// outside of this range, the result is not a usable modulus
+	double discriminator = c->params.avg_size / (-1.42888852e-7 * c->params.avg_size + 1.33237515);
+	if (!(discriminator >= 1)) {
+		u_log(ERR, "unsupported average chunk size %"PRIu32, c->params.avg_size);
+		return -1;
+	}
+
 	c->discriminator = CA_CHUNKER_DISCRIMINATOR_FROM_AVG(c->params.avg_size);
 
 	chunker_reset(c);
-- 
2.43.0


From abcc191661ba4d0dc6bc869d5430a935dee2bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 12/25] fix: exit after showing the casync help

The synchronization was started regardless, without any store.
---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 1d0612e..cde2dc8 100644
--- a/main.c
+++ b/main.c
@@ -239,7 +239,7 @@ static int casync(int argc, char **argv)
 		switch (c) {
 			case 'h':
 				casync_help();
-				return 0;
+				exit(EXIT_SUCCESS);
 			case ARG_STORE:
 			case ARG_SEED:
 				if (append_store_from_arg(sc, optarg) < 0)
-- 
2.43.0


From 393c3068659b1102f18a519c540edc5b98cc1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 13/25] fix: initialize the hit counter of appended stores

---
 store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store.c b/store.c
index ecdbbf3..11cb866 100644
--- a/store.c
+++ b/store.c
@@ -127,6 +127,7 @@ int store_chain_append(struct store_chain *sc, struct store *s)
 	struct substore *substore = &sc->stores[sc->n_stores];
 	substore->s = s;
 	substore->active = true;
+	substore->hits = 0;
 
 	sc->n_stores++;
 
-- 
2.43.0


From 7feec5249651b0d0b21bd4c6f9d42c5da4393527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 14/25] fix: encrypt empty and very large inputs correctly

EVP_Cipher returns the number of bytes processed as an int and -1 on
error. This made empty inputs fail, errors succeed, and left data beyond
4 GiB as it was.
---
 encrypt.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/encrypt.c b/encrypt.c
index 6e3d814..e6d0fcf 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -136,8 +136,16 @@ void encrypt_close(struct encrypt_ctx *ctx)
 
 int encrypt_do(struct encrypt_ctx *ctx, uint8_t *out, const uint8_t *in, size_t len)
 {
-	if (!EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, len))
-		return -1;
+	while (len) {
+		unsigned int n = MIN(len, 1u << 30);
+
+		if (EVP_Cipher((EVP_CIPHER_CTX*)ctx->cipher, out, in, n) <= 0)
+			return -1;
+
+		out += n;
+		in += n;
+		len -= n;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 873911b759bcfde33d01ee1bd54b4b9dddb7d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 15/25] fix: only accept 64 digits as the chunk id in file
 names

Four arbitrary characters after the digits were accepted for names ending
in .cacnk.
---
 csn-tool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csn-tool.c b/csn-tool.c
index 6ed3582..0cff119 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -23,7 +23,7 @@ static int chunk_id_from_path(uint8_t id[CHUNK_ID_LEN], const char *path)
 		return -1;
 	}
 
-	if (!streq(&basename[name_len-6], ".cacnk") && !streq(&basename[name_len-10], ".cacnk.enc")) {
+	if (!streq(&basename[64], ".cacnk") && !streq(&basename[64], ".cacnk.enc")) {
 		u_log(ERR, "chunk basename '%s' does not end with '.cacnk' or '.cacnk.enc'", basename);
 		return -1;
 	}
-- 
2.43.0


From 90a4e29edec922ce9082214e82c4aed1d5a9b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 16/25] fix: do not leave partial output files behind in
 csn-tool

They were taken for finished by the next run. Also do not mix up standard
output with a file called "-".
---
 csn-tool.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index 0cff119..c3beefb 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <stdbool.h>
 #include <unistd.h>
 #include <inttypes.h>
 #include <fcntl.h>
@@ -72,7 +73,9 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 		}
 	}
 
-	if (access(output_path, F_OK) == 0)
+	bool to_stdout = streq(output_path, "-");
+
+	if (!to_stdout && access(output_path, F_OK) == 0)
 		return 0;
 
 	// this uses the first 24 bytes of chunk_id
@@ -94,7 +97,7 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	}
 
 	int fd;
-	if (streq(output_path, "-")) {
+	if (to_stdout) {
 		fd = STDOUT_FILENO;
 	} else {
 		fd = open(output_path, O_WRONLY | O_TRUNC | O_CREAT, 0444);
@@ -113,8 +116,17 @@ static int encrypt_one(struct encrypt_ctx *ec, const char *input_path, const cha
 	ret = 0;
 
 out_fd:
-	if (fd != STDOUT_FILENO)
-		close(fd);
+	if (!to_stdout) {
+		if (close(fd) < 0) {
+			u_log_errno("failed to close output file");
+			ret = -1;
+		}
+
+		// existing files are taken to be complete, so don't leave
+		// partial ones behind
+		if (ret < 0)
+			unlink(output_path);
+	}
 out_buf:
 	free(buf);
 
-- 
2.43.0


From 98ced24ffe5ad9b205c8e8c14b5efd2db19487d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 17/25] fix: do not write log messages to files if standard
 streams are closed

With standard output and error closed, the target was opened as file
descriptor 2.
---
 log.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/log.c b/log.c
index 822b03d..c675321 100644
--- a/log.c
+++ b/log.c
@@ -3,6 +3,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <assert.h>
 
 #include "utils.h"
@@ -15,6 +16,16 @@ void u_log_init(void)
 {
 	const char *s;
 
+	// Make sure that none of the files opened later on takes the place of
+	// a closed standard stream and gets overwritten by log messages.
+	int fd;
+	do {
+		fd = open("/dev/null", O_RDWR);
+	} while (fd >= 0 && fd <= STDERR_FILENO);
+
+	if (fd >= 0)
+		close(fd);
+
 	is_tty = isatty(STDERR_FILENO);
 
 	s = getenv("LOGLEVEL");
-- 
2.43.0


From b178e9f896e4022765d8f227be4bae9ef3287d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 18/25] fix: keep encryption keys out of the log when a store
 is refused

---
 main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index cde2dc8..ade919f 100644
--- a/main.c
+++ b/main.c
@@ -98,7 +98,8 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	} else if (startswith(arg, "http")) {
 		s = store_http_new(arg);
 		if (!s) {
-			u_log(ERR, "creating HTTP store from '%s' failed", arg);
+			// the parameters might contain keys
+			u_log(ERR, "creating HTTP store from '%.*s' failed", (int)strcspn(arg, "#"), arg);
 			return -1;
 		}
 	} else {
@@ -116,7 +117,7 @@ static int append_store_from_arg(struct store_chain *sc, char *arg)
 	}
 
 	if (store_chain_append(sc, s) < 0) {
-		u_log(ERR, "appending store '%s' to store chain failed", arg);
+		u_log(ERR, "appending store '%.*s' to store chain failed", (int)strcspn(arg, "#"), arg);
 		return -1;
 	}
 
-- 
2.43.0


From c93ee687c0f34892450d78ca21350d3cd2bd7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 19/25] fix: the attributes of a store begin at the first #

They were split off at the last one, so that a key file whose name
contains a # could not be used, and with a # at the end of the
attributes the store was taken for an unencrypted one, its key being
part of the URL and ending up in the log.
---
 store-http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store-http.c b/store-http.c
index eeab3ff..78494b1 100644
--- a/store-http.c
+++ b/store-http.c
@@ -474,7 +474,7 @@ struct store *store_http_new(const char *baseurl)
 	u_notnull(tmp, goto err_hs);
 
 	char *p;
-	p = strrchr(tmp, '#');
+	p = strchr(tmp, '#');
 	if (p) {
 		if (store_handle_params(hs, p+1) < 0) {
 			u_log(ERR, "failed to parse store parameters");
-- 
2.43.0


From f50e53639c2d862c7c2f49ca4343875c09251272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 20/25] fix: don't follow redirects to FTP servers

libcurl follows redirects from HTTP to FTP by default. That is of no
use, as FTP has none of the status codes we look at, and makes the
program talk to ports a server should not be able to send it to.
---
 store-http.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/store-http.c b/store-http.c
index 78494b1..23455fb 100644
--- a/store-http.c
+++ b/store-http.c
@@ -511,6 +511,15 @@ struct store *store_http_new(const char *baseurl)
 	curl_checked_setopt(hs->curl, CURLOPT_FOLLOWLOCATION,
 	                    (long)1, goto err_curl);
 
+	// libcurl would also follow redirects to ftp:// by default
+#if LIBCURL_VERSION_NUM >= 0x075500
+	curl_checked_setopt(hs->curl, CURLOPT_REDIR_PROTOCOLS_STR,
+	                    "http,https", goto err_curl);
+#else
+	curl_checked_setopt(hs->curl, CURLOPT_REDIR_PROTOCOLS,
+	                    (long)(CURLPROTO_HTTP | CURLPROTO_HTTPS), goto err_curl);
+#endif
+
 	curl_checked_setopt(hs->curl, CURLOPT_LOW_SPEED_TIME,
 	                    (long)15, goto err_curl);
 
-- 
2.43.0


From 63d542b2a18db411613d1f8742ea57aec7abf507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 21/25] fix: don't cut strings off at line breaks in the middle

chomp is supposed to remove line breaks at the end. A key file with
more lines below the key was accepted as if they weren't there.
---
 utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.c b/utils.c
index 70cc46a..52e8a78 100644
--- a/utils.c
+++ b/utils.c
@@ -279,6 +279,8 @@ void chomp(char *s)
 			while (*p == '\r' || *p == '\n')
 				p++;
 		} else {
+			// not at the end of the string
+			q = NULL;
 			p++;
 		}
 	}
-- 
2.43.0


From 618313ef4d70e47dabe58f3753eb11e699779dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 22/25] fix: refuse key files containing NUL bytes

Whatever follows a NUL byte behind the key was ignored.
---
 encrypt.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/encrypt.c b/encrypt.c
index e6d0fcf..c16c905 100644
--- a/encrypt.c
+++ b/encrypt.c
@@ -166,10 +166,19 @@ int encrypt_parse_keyspec(uint8_t key_out[static 32], const char *keyspec)
 			return -1;
 		}
 	} else if(startswith(keyspec, "file:")) {
-		char *slurped = slurp_file(&keyspec[5], true, NULL);
+		off_t size;
+		char *slurped = slurp_file(&keyspec[5], true, &size);
 		if (!slurped)
 			return -1;
 
+		if (memchr(slurped, 0, size)) {
+			u_log(ERR, "key file contains NUL bytes");
+
+			crypto_wipe(slurped, size);
+			free(slurped);
+			return -1;
+		}
+
 		chomp(slurped);
 
 		key_str = slurped;
-- 
2.43.0


From 9aa6f542ab37801e49a30e3c1460e97f75e78ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 23/25] fix: don't let the progress overflow with more than 42
 million entries

---
 main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.c b/main.c
index ade919f..5f7c760 100644
--- a/main.c
+++ b/main.c
@@ -76,7 +76,7 @@ progress:
 	// only show progress bar when running interactively and not spamming
 	// debug information anyway
 	if (interactive && !check_loglevel(U_LOG_DEBUG)) {
-		static uint32_t handled_entries = 0;
+		static uint64_t handled_entries = 0;
 		static progess_status_t progress_status = PROGRESS_STATUS_INIT;
 
 		show_progress(100 * ++handled_entries / n_entries, &progress_status);
-- 
2.43.0


From 44d5c4054803b4a351bc129b56086dc8793aec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 24/25] fix: don't split overlong lines in csn-tool's list of
 files

A path of the maximum length was followed by an empty line, which made
the run fail, and longer lines were taken for several paths.
---
 csn-tool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/csn-tool.c b/csn-tool.c
index c3beefb..af457bc 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -136,6 +136,8 @@ out_buf:
 static int do_crypt(int argc, char **argv)
 {
 	int ret = EXIT_FAILURE;
+	char *line = NULL;
+	size_t line_size = 0;
 
 	if (argc < 2 || argc > 4 ||
 	    streq(argv[1], "-h") || streq(argv[1], "--help")) {
@@ -156,8 +158,7 @@ static int do_crypt(int argc, char **argv)
 	}
 
 	if (argc == 2) {
-		char line[PATH_MAX];
-		while ((fgets(line, sizeof(line), stdin))) {
+		while (getline(&line, &line_size, stdin) >= 0) {
 			chomp(line);
 			if (encrypt_one(&ec, line, NULL) < 0)
 				goto out;
@@ -175,6 +176,7 @@ static int do_crypt(int argc, char **argv)
 	}
 
 out:
+	free(line);
 	encrypt_close(&ec);
 
 	return ret;
-- 
2.43.0


From bbca6480c3befe5e1f688633175e2745699abc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 25/25] fix: report errors when reading csn-tool's list of
 files

---
 csn-tool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/csn-tool.c b/csn-tool.c
index af457bc..1c8277e 100644
--- a/csn-tool.c
+++ b/csn-tool.c
@@ -164,6 +164,11 @@ static int do_crypt(int argc, char **argv)
 				goto out;
 		}
 
+		if (!feof(stdin)) {
+			u_log_errno("failed to read list of files");
+			goto out;
+		}
+
 		ret = EXIT_SUCCESS;
 	} else {
 		char *input_path = argv[2];
-- 
2.43.0

