From 0a50951deee43c50323b749a0d7014e02099b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 01/48] fix: sc_buf range checks must not wrap around for huge
 offsets and lengths

---
 buffer/sc_buf.c | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..d680a6d 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -96,13 +96,18 @@ uint64_t sc_buf_cap(struct sc_buf *b)
 	return b->cap;
 }
 
+static bool sc_buf_in_range(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 {
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (!sc_buf_in_range(b->wpos, len, b->cap)) {
+		if (b->ref || len > UINT64_MAX - 4095 - b->cap) {
 			goto err;
 		}
 
@@ -253,7 +258,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +274,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +292,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +311,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +330,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +345,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +363,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +383,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +457,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +511,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +590,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len == UINT64_MAX || !sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +609,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +622,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From d7cd480990b7b8560ea25e5d5e9ceeed8adc700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 02/48] fix: sc_buf_shrink must not realloc referenced memory
 nor grow the buffer

---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index d680a6d..8a60714 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -138,11 +138,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From 51dd5919b11d5530c44b7dc7b16f826082e47717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 03/48] fix: sc_buf_put_text failure left read position past
 the write position

---
 buffer/sc_buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 8a60714..9899dfc 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -818,6 +818,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
+	sc_buf_set_rpos(b, 0);
 	sc_buf_set_wpos(b, 0);
 }
 
-- 
2.43.0


From cef3eab5c14e72aaa709034327dc3111e1254617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 04/48] fix: sc_buf_put_fmt reserves room for the terminator

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 9899dfc..8687ff6 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -752,7 +752,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 6d68ef5c3a3c291fcfee3e820caf713607caff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 05/48] fix: sc_buf_move must not consume bytes that were not
 copied

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 8687ff6..7b35f4f 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -253,10 +253,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t wpos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - wpos;
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From ffbf3c6ff356e46a347dcaf6b4cd3f9cdbe735ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 06/48] fix: sc_buf_get_blob honours the error flag like every
 other getter

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 7b35f4f..04adf16 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -613,7 +613,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
+	if (b->err != 0 || !sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
-- 
2.43.0


From 7d4da0d7b30ceb1ad611d327ebdcabc63db99bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 07/48] fix: sc_buf_put_fmt must not append to a buffer in
 error state

---
 buffer/sc_buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 04adf16..0452ad2 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -750,6 +750,10 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 		return;
 	}
 
+	if (b->err != 0) {
+		return;
+	}
+
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-- 
2.43.0


From 9481a5d307b0c41cb88b16c9e7e44b90377e884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 08/48] fix: sc_buf_put_text length must not overflow int

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 0452ad2..47c4720 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -819,7 +819,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 		}
 	}
 
-	sc_buf_mark_write(b, rc - off + 1);
+	sc_buf_mark_write(b, (uint64_t) rc - off + 1);
 	return;
 
 clean_up:
-- 
2.43.0


From 57e2c54a0a6c774b43dbbe2f1b520e4c19137429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 09/48] fix: sc_str_replace with an empty pattern must
 terminate

---
 string/sc_str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..acd56bd 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -360,7 +360,7 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 	struct sc_str *dest, *meta;
 	char *tmp, *orig, *orig_end;
 
-	if (*str == NULL) {
+	if (*str == NULL || *replace == '\0') {
 		return true;
 	}
 
-- 
2.43.0


From 39edda348cbcbf10352d2ead75825ab07f197b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 10/48] fix: sc_queue_oom() must reflect the last add only

---
 queue/sc_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..0174056 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,7 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = (q)->elems == NULL;                                 \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From 9625e98ce4dcb3b1670807250f5d63844fcfbd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 11/48] fix: sc_heap_add must not count an element it could not
 store

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 4b4f86b4ded539e64705e1029379dffc6d60756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 12/48] fix: map capacity above 2^31 wrapped around to zero

---
 map/sc_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..e4c0c81 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -34,7 +34,7 @@
 #include <string.h>
 
 #ifndef SC_MAP_MAX
-#define SC_MAP_MAX UINT32_MAX
+#define SC_MAP_MAX (UINT32_C(1) << 31u)
 #endif
 
 #define sc_map_def_strkey(name, K, V, cmp, hash_fn)                            \
-- 
2.43.0


From b7a78d81240bb6754571692516d4bf36e8a5a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 13/48] fix: sc_map_init left the oom and found flags
 uninitialised

---
 map/sc_map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index e4c0c81..b6469b6 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -136,6 +136,8 @@
 		m->mem = t;                                                    \
 		m->size = 0;                                                   \
 		m->used = false;                                               \
+		m->oom = false;                                                \
+		m->found = false;                                              \
 		m->cap = cap;                                                  \
 		m->load_fac = f;                                               \
 		m->remap = (uint32_t) (m->cap * ((double) m->load_fac / 100)); \
-- 
2.43.0


From 17a06ab6a815913498e4ec0e98b55e722680b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 14/48] fix: a map put that ran out of memory left a stale
 found flag

---
 map/sc_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index b6469b6..228ce98 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -223,6 +223,7 @@
                                                                                \
 		if (!sc_map_remap_##name(m)) {                                 \
 			m->oom = true;                                         \
+			m->found = false;                                      \
 			return 0;                                              \
 		}                                                              \
                                                                                \
-- 
2.43.0


From d26dfd1914fbc1a3a5ce0144069a473ea53f4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 15/48] fix: sc_uri must look for userinfo inside the authority
 only

---
 uri/sc_uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..2d87c07 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -70,8 +70,8 @@ struct sc_uri *sc_uri_create(const char *str)
 		authority_len = 2;
 		pos += authority_len;
 
-		ptr = strchr(pos, '@');
-		if (ptr != NULL) {
+		ptr = pos + strcspn(pos, "@/?#");
+		if (*ptr == '@') {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
-- 
2.43.0


From 80c214464ec9b166effa459f29a707ad17e9cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 16/48] fix: sc_uri must not take a ':' in the path for a port

---
 uri/sc_uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 2d87c07..3c305e5 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -86,8 +86,8 @@ struct sc_uri *sc_uri_create(const char *str)
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
+		ptr = pos;
+		if (*ptr == ':') {
 			if (*(ptr + 1) == '\0') {
 				return NULL;
 			}
-- 
2.43.0


From 0b097bdb7eeafeb18cef9669e0d89e189d60435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 17/48] fix: sc_uri accepted port 65536

---
 uri/sc_uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 3c305e5..f2049c8 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -94,7 +94,7 @@ struct sc_uri *sc_uri_create(const char *str)
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535) {
 				return NULL;
 			}
 
-- 
2.43.0


From 9abbd0eaf0feccb4c270bff8218b72aa99b99b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 18/48] fix: sc_uri must not take a '?' in the fragment for a
 query

---
 uri/sc_uri.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index f2049c8..84036e0 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -108,9 +108,8 @@ struct sc_uri *sc_uri_create(const char *str)
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
-		query = ptr;
+	if (*pos == '?') {
+		query = pos;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
 	}
-- 
2.43.0


From 02d8d7709ffbd5f240da8a0fbb3cb29710b149fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 19/48] fix: sc_ini must truncate an overlong line of a file,
 not split it

---
 ini/sc_ini.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..6c5c906 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,22 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+	size_t len;
+
+	if (fgets(buf, (int) size, (FILE *) p) == NULL) {
+		return NULL;
+	}
+
+	len = strlen(buf);
+	if (len == size - 1 && buf[len - 1] != '\n') {
+		// Line is too long, skip the rest of it.
+		do {
+			c = fgetc((FILE *) p);
+		} while (c != '\n' && c != EOF);
+	}
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From 1a15d7deeba17a97127735745fea84cf3d834558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 20/48] fix: sc_cond_term returns a negative value on error, as
 documented

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From fb76d1ac9da0b5fda3bc8a9916bfbb29f6e0d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 21/48] fix: don't join a thread which failed to start

---
 thread/sc_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..ed609d9 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -134,6 +134,8 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
+		// Content of the id is undefined on failure, don't try to join.
+		t->id = 0;
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
 	}
 
-- 
2.43.0


From 5fa1fca8b0d2d03afbf3c4a9e51fc3d91127b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 22/48] fix: sc_thread_start and sc_thread_join return -1 on
 error, as documented

---
 thread/sc_thread.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index ed609d9..487cf6a 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -142,7 +142,7 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	// This may only fail with EINVAL.
 	pthread_attr_destroy(&attr);
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 int sc_thread_join(struct sc_thread *t, void **ret)
@@ -166,7 +166,7 @@ out:
 		*ret = val;
 	}
 
-	return rc;
+	return rc != 0 ? -1 : 0;
 }
 
 #endif
-- 
2.43.0


From 2102c7f2a52bddf6783b2cded280d5625d354ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 23/48] fix: thread error string was uninitialized before the
 first error

---
 thread/sc_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 487cf6a..d9da6f4 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -36,6 +36,7 @@
 void sc_thread_init(struct sc_thread *t)
 {
 	t->id = 0;
+	memset(t->err, 0, sizeof(t->err));
 }
 
 #if defined(_WIN32) || defined(_WIN64)
-- 
2.43.0


From 0e17fd2dc91a5cdc83a3410e933ec2bf2a95b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 24/48] fix: a timer with a huge timeout wrapped around and
 expired at once

---
 timer/sc_timer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..62296cf 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -135,6 +135,11 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 	assert(t->list[index].timeout == SC_TIMER_INVALID);
 
 out:
+	// Saturate rather than wrapping around, so it won't expire early.
+	if (timeout >= SC_TIMER_INVALID - t->timestamp) {
+		timeout = SC_TIMER_INVALID - 1 - t->timestamp;
+	}
+
 	t->list[index].timeout = timeout + t->timestamp;
 	t->list[index].type = type;
 	t->list[index].data = data;
-- 
2.43.0


From 3ffbd005e57ae6c4de3059d9ae6f54cb1b4b2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 25/48] fix: sc_log_init returns a negative value on error, as
 documented

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..7a26416 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -182,6 +182,7 @@ int sc_log_init(void)
 	rc = sc_log_mutex_init(&sc_log.mtx);
 	if (rc != 0) {
 		errno = rc;
+		rc = -1;
 	}
 
 	sc_log.init = true;
-- 
2.43.0


From 391e4ad76da5d30513340550cf4a5fa54e79dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 26/48] fix: sc_log_set_file sets errno for a file name that is
 too long

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 7a26416..decebc5 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -281,6 +281,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From 4205212e6f2dc7c62ec9229937995adee34c5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 27/48] fix: log file rotation did not count the line headers

---
 logger/sc_log.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index decebc5..e444817 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -351,7 +351,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -374,10 +374,10 @@ static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
 
 static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 {
-	int rc, size;
+	int header, size;
 
-	rc = sc_log_print_header(sc_log.fp, level);
-	if (rc < 0) {
+	header = sc_log_print_header(sc_log.fp, level);
+	if (header < 0) {
 		return -1;
 	}
 
@@ -386,7 +386,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
-	sc_log.file_size += size;
+	sc_log.file_size += (size_t) header + (size_t) size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
 		fclose(sc_log.fp);
@@ -400,7 +400,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From 11a94361fa1121c168209e6428531a8752efa346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 28/48] fix: sc_mmap_msync did not sync the end of a range with
 unaligned offset

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..3fc828f 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t diff = offset & (m->page_size - 1);
+	char *p = (char *) m->ptr + (offset - diff);
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + diff, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From a0ef66141d22e6112c9cda07790e671d264d139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 29/48] fix: socket timeouts lose their millisecond part

tv_usec counts microseconds: ms % 1000 has to be scaled by 1000.
---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From ab6001a8cf86a166a7dfc6a488ec23bad96185eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 30/48] fix: sc_sock_listen() binds a truncated unix socket
 path

A path that does not fit into sun_path was cut silently: the file with the
full name was unlinked and the socket was created under another name.
---
 socket/sc_sock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..0e34b81 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,7 +322,12 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
-	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
+	strcpy(addr.sun_path, host);
 	sc_unlink(host);
 
 	rc = bind(s->fdt.fd, (struct sockaddr *) &addr, sizeof(addr));
-- 
2.43.0


From 0832320de7b0c86539eb0c32278e7f1c554f429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 31/48] fix: unix domain sockets ignore the 'blocking'
 parameter

sc_sock_listen() and sc_sock_connect() left AF_UNIX sockets blocking even if
the socket was initialized as nonblocking.
---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 0e34b81..84c6496 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -354,6 +354,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -468,6 +473,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 		goto err;
 	}
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	strcpy(un.sun_path, addr);
 
 	rc = connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un));
-- 
2.43.0


From a1c77f79ea4103da6e84917cc40fc322332a727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 32/48] fix: sc_sock_local_str()/remote_str() print
 uninitialized memory

The kernel stores no path for an unnamed unix socket, e.g. the connecting side,
so sun_path was read uninitialized.
---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 84c6496..bb7967c 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -830,7 +830,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -846,7 +846,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From 43558b4920c87f0bbafedecdf1da1beb9b62e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 33/48] fix: sc_sock_local_str()/remote_str() pass NULL for %s
 if inet_ntop() fails

---
 socket/sc_sock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index bb7967c..cf8f2cf 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -808,6 +808,10 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 		addr = (struct sockaddr_in *) storage;
 		dst = sc_sock_addr(sock, AF_INET, &addr->sin_addr, tmp,
 				   sizeof(tmp));
+		if (dst == NULL) {
+			return NULL;
+		}
+
 		snprintf(buf, len, "%s:%d", dst, ntohs(addr->sin_port));
 		break;
 
@@ -815,6 +819,10 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 		addr6 = (struct sockaddr_in6 *) storage;
 		dst = sc_sock_addr(sock, AF_INET6, &addr6->sin6_addr, tmp,
 				   sizeof(tmp));
+		if (dst == NULL) {
+			return NULL;
+		}
+
 		snprintf(buf, len, "%s:%d", dst, ntohs(addr6->sin6_port));
 		break;
 
-- 
2.43.0


From fc1315cf7d2d0cd701e845abebcbe4e2403fa417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 34/48] fix: sc_sock_set_blocking() sets the error string, as
 documented

---
 socket/sc_sock.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index cf8f2cf..b799710 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -228,11 +228,17 @@ int sc_sock_set_blocking(struct sc_sock *s, bool blocking)
 
 	flags = fcntl(s->fdt.fd, F_GETFL, 0);
 	if (flags == -1) {
+		sc_sock_errstr(s, 0);
 		return -1;
 	}
 
 	flags = blocking ? (flags & ~O_NONBLOCK) : (flags | O_NONBLOCK);
-	return (fcntl(s->fdt.fd, F_SETFL, flags) == 0) ? 0 : -1;
+	if (fcntl(s->fdt.fd, F_SETFL, flags) != 0) {
+		sc_sock_errstr(s, 0);
+		return -1;
+	}
+
+	return 0;
 }
 
 #endif
-- 
2.43.0


From cfc3260cdeb2139a6c479dd5fd02de8848618d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 35/48] fix: sc_sock_notify_systemd() sends to a truncated
 NOTIFY_SOCKET path

The message went to another socket (or to none) if the path did not fit.
---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index b799710..0740846 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,6 +177,11 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
-- 
2.43.0


From 88f7a8f1fda6f73c33b932ce06217ee15b9a1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 36/48] fix: sc_signal_vsnprintf() wrote a terminator into an
 empty buffer

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From 67095909c40147d9ac839ee079d71ff00a42a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 37/48] fix: sc_signal_vsnprintf() overflowed on the smallest
 integer

---
 signal/sc_signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..9c258f7 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -133,7 +133,7 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 				} else if (*pos == 'd') {
 					i = get_int(va, pos - orig);
-					u = (uint64_t) (i < 0 ? -i : i);
+					u = i < 0 ? 0 - (uint64_t) i : (uint64_t) i;
 
 					do {
 						c = (char) ('0' + (u % 10));
-- 
2.43.0


From cc5e263ef1f9ca27f9a5c851b5bbf47d61db6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 38/48] fix: sc_signal_log() must not write when formatting
 fails

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 9c258f7..d17c787 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -526,6 +526,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr < 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 9b00dac98b82d45990e271cefb43f40cb7ce4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 39/48] fix: sc_size_to_bytes() overflowed on negative numbers

---
 sc/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..ef4e0ea 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -141,7 +141,7 @@ int64_t sc_size_to_bytes(const char *buf)
 
 	errno = 0;
 	val = strtoll(buf, &parse_end, 10);
-	if (errno != 0 || parse_end == buf) {
+	if (errno != 0 || parse_end == buf || val < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From a5ed5cbed322e89fdd36acd5f41edf0bbe036811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 40/48] fix: sc_size_to_bytes() ignored text 4 GB behind the
 number

---
 sc/sc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sc/sc.c b/sc/sc.c
index ef4e0ea..3ad9140 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -134,7 +134,7 @@ int64_t sc_size_to_bytes(const char *buf)
 	const int64_t pb = (int64_t) 1024 * 1024 * 1024 * 1024 * 1024;
 	const int64_t eb = (int64_t) 1024 * 1024 * 1024 * 1024 * 1024 * 1024;
 
-	int count;
+	size_t count;
 	int64_t val;
 	char *parse_end;
 	const char *end = (char *) (buf + strlen(buf));
@@ -145,7 +145,7 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
-	count = (int) (end - parse_end);
+	count = (size_t) (end - parse_end);
 
 	switch (count) {
 	case 0:
-- 
2.43.0


From 99b21aa45c157290038f5ae2c6e419941d2055ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 41/48] fix: sc_size_to_bytes() passed negative characters to
 tolower()

---
 sc/sc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sc/sc.c b/sc/sc.c
index 3ad9140..966032f 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -153,7 +153,7 @@ int64_t sc_size_to_bytes(const char *buf)
 	case 1:
 		break;
 	case 2:
-		if (tolower(parse_end[1]) != 'b') {
+		if (tolower((unsigned char) parse_end[1]) != 'b') {
 			return -1;
 		}
 		break;
@@ -161,7 +161,7 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
-	switch (tolower(parse_end[0])) {
+	switch (tolower((unsigned char) parse_end[0])) {
 	case 'b':
 		break;
 	case 'k':
-- 
2.43.0


From 8b18b754665a951f69c58b68c9fb5851cca4d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 42/48] fix: sc_perf scaled a multiplexed counter down instead
 of up

---
 perf/sc_perf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..09ec512 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -129,7 +129,7 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 			items[i].active = n;
 		}
 
-		items[i].value += (double) fmt.value * n;
+		items[i].value += (double) fmt.value / n;
 	}
 }
 
-- 
2.43.0


From 43e665d19b12d6980997af115c0dcd4c36769222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 43/48] fix: sc_perf_start while running discarded the time
 measured so far

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 09ec512..a3de30c 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -163,6 +163,10 @@ static uint64_t sy_time_nano(void)
 
 void sc_perf_start(void)
 {
+	if (running) {
+		return;
+	}
+
 	if (!init) {
 		sc_perf_clear();
 		sc_perf_set(sc_perf_items, ITEMS_SIZE);
-- 
2.43.0


From 51c0262209103fb7d243c15014350f59534754a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:47 +0000
Subject: [PATCH 44/48] fix: a string read refused for its length consumed the
 length prefix

---
 buffer/sc_buf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 47c4720..85ac3dd 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -583,6 +583,7 @@ double sc_buf_get_double(struct sc_buf *b)
 const char *sc_buf_get_str(struct sc_buf *b)
 {
 	uint64_t len;
+	const uint64_t pos = b->rpos;
 	const char *str;
 
 	len = sc_buf_get_64(b);
@@ -595,6 +596,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 	}
 
 	if (len == UINT64_MAX || !sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
+		b->rpos = pos;
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
-- 
2.43.0


From 9456d3e73eef5a3aa65b29a43eb62976b8f76c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:25 +0000
Subject: [PATCH 45/48] fix: sc_buf_get_str() hands out strings without a
 terminator

---
 buffer/sc_buf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 85ac3dd..2fe17db 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -595,7 +595,9 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (len == UINT64_MAX || !sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
+	// String must be followed by its terminator inside the data.
+	if (len == UINT64_MAX || !sc_buf_in_range(b->rpos, len + 1, b->wpos) ||
+	    b->mem[b->rpos + len] != '\0') {
 		b->rpos = pos;
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
-- 
2.43.0


From aa678f40b55d48b60b45563a6cdb43aa13a5779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:00 +0000
Subject: [PATCH 46/48] fix: sc_array_del() and sc_array_del_unordered()
 captured a caller's variable called idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..959445f 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 5547be553035da46910cbcafb3fa0243df82fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:00 +0000
Subject: [PATCH 47/48] fix: sc_str_append_fmt() took the wrong string for an
 argument that is an expression

---
 string/sc_str.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string/sc_str.h b/string/sc_str.h
index d7984ce..76aef96 100644
--- a/string/sc_str.h
+++ b/string/sc_str.h
@@ -132,8 +132,8 @@ bool sc_str_append(char **str, const char *text);
  * @return    'true' on success, 'false' on out of memory or if '*str' is NULL.
  */
 #define sc_str_append_fmt(str, fmt, ...)                                       \
-	((*str) ? (sc_str_set_fmt(str, "%s" fmt, *str, __VA_ARGS__)) :         \
-			(sc_str_set_fmt(str, fmt, __VA_ARGS__)))
+	((*(str)) ? (sc_str_set_fmt(str, "%s" fmt, *(str), __VA_ARGS__)) :     \
+			  (sc_str_set_fmt(str, fmt, __VA_ARGS__)))
 
 /**
  * Compare two length prefixed strings. To compare with C string, use strcmp().
-- 
2.43.0


From b00aa6b0bdbb8d51d3ccc6d9c13dd47082ca1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:26 +0000
Subject: [PATCH 48/48] fix: sc_rand_init() must start from all byte values

The table was a copy of the seed instead of RC4's initial permutation. As
reading only exchanges entries, byte values missing in the seed, about a third
of them for a random seed, never came out of the generator.
---
 sc/sc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index 966032f..10356f4 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -46,7 +46,9 @@ void sc_rand_init(struct sc_rand *r, const unsigned char *init)
 
 	*r = (struct sc_rand){0};
 
-	memcpy(r->init, init, 256);
+	for (int i = 0; i < 256; i++) {
+		r->init[i] = (unsigned char) i;
+	}
 
 	for (int i = 0; i < 256; i++) {
 		r->j += r->init[i] + init[i];
-- 
2.43.0

