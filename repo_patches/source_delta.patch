From a54e05ca9ba422b1dab611970b027bf2697aabf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 01/29] fix: slab_get, slab_get_large: refuse a size that wraps
 around

The size of the slab header is added to the requested size. When the sum
does not fit size_t the caller used to get a slab that is smaller than
what was requested.
---
 small/slab_cache.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..a6c1250 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,9 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	/* The size of the slab must not wrap around. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +320,9 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	/* The size of the slab must not wrap around. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From 9bdc04c197a4fbb34db821fd02ff2e169b8fc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 02/29] fix: mempool: release empty slabs that hold a single
 object

When only one object fits a slab of the pool, freeing it made the slab
both hot and empty. Only the former was taken care of, so the slab was
never returned to the slab cache: the pool kept an unlimited number of
empty slabs.
---
 small/mempool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..8776c6e 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,12 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+	/*
+	 * Note that a slab which can hold only one object becomes hot and
+	 * empty at once.
+	 */
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From 4f3243e17da65140ec82c078e644dd0f98af25c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 03/29] fix: region_reset: empty every slab, not only the
 newest one

A region that had grown to several slabs kept reporting the bytes of the
older ones as used after a reset.
---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..0bb2a05 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -307,13 +307,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From b3dfdc206169896a55c6f98256c6a407ec43ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 04/29] fix: region: refuse a size that wraps around

---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 0bb2a05..1984e80 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (small_unlikely(size > SIZE_MAX - alignment + 1))
+		return NULL; /* The sum below would wrap around. */
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..ab77234 100644
--- a/small/region.c
+++ b/small/region.c
@@ -38,6 +38,8 @@ region_reserve_slow(struct region *region, size_t size)
 {
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
+	if (small_unlikely(slab_min_size < size))
+		return NULL; /* No slab can be that big. */
 
 	struct rslab *slab;
 	slab = (struct rslab *) slab_get(region->cache, slab_min_size);
-- 
2.43.0


From 46840fa99145676092bd02a32e6243f2b2bf6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:42 +0000
Subject: [PATCH 05/29] fix: region_join: take the last bytes of a partly
 joined allocation

The ASAN version copied the first bytes of the oldest allocation instead
of the last ones when the join started in the middle of it.
---
 small/region_asan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..7f37028 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -145,7 +145,8 @@ region_join(struct region *region, size_t size)
 		if (offset < copy_size)
 			copy_size = offset;
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       (char *)small_asan_payload_from_header(alloc) +
+		       alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From 93fab0e55e43e815582b502a457d3b712db73cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 06/29] fix: smalloc: use the pool that is active after the
 sweep

When memory runs out, small_mempool_group_sweep_sparse() may deactivate
the very pool the allocation was going to use. smalloc() went on with the
deactivated pool but charged waste for the new one, so the waste counter
drifted and a chunk could come from an inactive pool.
---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..4c368bd 100644
--- a/small/small.c
+++ b/small/small.c
@@ -346,6 +346,8 @@ smalloc(struct small_alloc *alloc, size_t size)
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		/* The pool itself might have been deactivated. */
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From 1dbcfbd1831d099f9afd60c6977154d3a8252192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 07/29] fix: quota_lease: refuse a negative size

A size above SSIZE_MAX given to the ASAN smalloc() became negative and
was subtracted from the leased amount.
---
 include/small/quota_lessor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..1a10255 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -118,6 +118,8 @@ quota_lessor_destroy(struct quota_lessor *lessor)
 static inline ssize_t
 quota_lease(struct quota_lessor *lessor, ssize_t size)
 {
+	if (size < 0)
+		return -1;
 	/* Fast way, there is enough unused quota. */
 	if (lessor->leased + size <= lessor->used) {
 		lessor->leased += size;
-- 
2.43.0


From 6593eff18cd6519214daa2794e45f12ab86a66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:06 +0000
Subject: [PATCH 08/29] fix: ibuf: refuse a size that wraps around

---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..021eb9f 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "ibuf.h"
+#include <stdint.h>
 #include <string.h>
 #include "slab_cache.h"
 
@@ -69,9 +70,12 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
+	/* Neither the sum nor the doubled capacity may wrap around. */
+	if (size > SIZE_MAX / 2 - used)
+		return NULL;
 	/*
 	 * Check if we have enough space in the
 	 * current buffer. In this case de-fragment it
-- 
2.43.0


From 9e8efc41915f358ed02d7f900b4016984317b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:34 +0000
Subject: [PATCH 09/29] fix: obuf: refuse a size that wraps around

---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..0ab4617 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "obuf.h"
+#include <stdint.h>
 #include <string.h>
 
 #include "slab_cache.h"
@@ -175,6 +176,9 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
+	/* The doubled capacity must not wrap around. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	if (iov->iov_len > 0) {
 		/* Move to the next buffer. */
 		if (buf->pos + 1 >= SMALL_OBUF_IOV_MAX)
-- 
2.43.0


From 1f4536de9e289146a0484c15d6b9c3489b6c4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 10/29] fix: checked obuf: poison the data dropped by a
 rollback

---
 small/obuf_asan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..df9eec0 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -156,6 +156,8 @@ obuf_rollback_to_svp(struct obuf *buf, struct obuf_svp *svp)
 	buf->used = svp->used;
 	buf->iov[buf->pos].iov_len = svp->iov_len;
 	buf->reserved = false;
+	ASAN_POISON_MEMORY_REGION(obuf_unallocated_ptr(buf),
+				  obuf_unallocated_size(buf));
 }
 
 void
-- 
2.43.0


From 7fa2937d50ddb0a91029fa77313311109c05afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:58 +0000
Subject: [PATCH 11/29] fix: lsregion: refuse a size that wraps around

---
 include/small/lsregion.h | 3 ++-
 small/lsregion.c         | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..4a63f13 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -247,7 +247,8 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		char *end = (char *)lslab_end(slab);
+		if ((char *)pos <= end && size <= (size_t)(end - (char *)pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..1d36523 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,9 +47,13 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		char *end = (char *)lslab_end(slab);
+		if ((char *)pos <= end && size <= (size_t)(end - (char *)pos))
 			return pos;
 	}
+	/* The sums below must not wrap around. */
+	if (size > SIZE_MAX - alignment - lslab_sizeof())
+		return NULL;
 	/*
 	 * Need to allocate more, since it can happen, that the
 	 * new slab won't be aligned by the needed alignment, and
-- 
2.43.0


From 315bae1ef70d571f7218e186c4e4e1d05e4ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 12/29] fix: lsregion_to_iovec: go on past an unused slab in
 the middle

---
 small/lsregion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index 1d36523..6959f12 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -107,9 +107,12 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/*
+		 * There might be an unused slab: at the end of the list, or
+		 * before a bigger slab that served the allocation instead.
+		 */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 6de531eb3b8c3a5cc22d31f3a929c77217c7f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 13/29] fix: lsregion: give a reused slab a new id

---
 small/lsregion.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 6959f12..340458b 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -79,6 +79,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/* Slabs created since it was cached have greater ids. */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From a29eb67af24a3743c9335ef836c68b88438c4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 14/29] fix: checked lsregion: flush allocations that share an
 id

---
 include/small/lsregion_asan.h | 7 +++++++
 small/lsregion_asan.c         | 9 +++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..0c5882b 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** Sequence number of the next allocation. */
+	int64_t seq;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,10 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/**
+	 * Sequence number, needed for savepoint tracking: ids are not unique.
+	 */
+	int64_t seq;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +85,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->seq = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..faee313 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -77,6 +77,7 @@ lsregion_aligned_alloc(struct lsregion *lsregion, size_t size, size_t alignment,
 	small_asan_assert(alloc->size >= size && alloc->alignment == alignment);
 	alloc->used = size;
 	alloc->id = id;
+	alloc->seq = lsregion->seq++;
 	lsregion->used += size;
 	char *payload = small_asan_payload_from_header(alloc);
 	ASAN_POISON_MEMORY_REGION(payload + size, alloc->size - size);
@@ -104,19 +105,19 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 		  int *iovcnt, struct lsregion_svp *svp)
 {
 	struct lsregion_allocation *alloc;
-	int64_t prev_id = svp->slab_id;
+	int64_t prev_seq = svp->slab_id;
 	int max_iovcnt = *iovcnt;
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
-		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		/* A reservation or an already seen allocation. */
+		if (alloc->id == LSLAB_NOT_USED_ID || alloc->seq <= prev_seq)
 			continue;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->seq;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
-- 
2.43.0


From dbe3ec46eb1410ae7bb0b064898856537a797976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 15/29] fix: matras_dealloc: refuse when a shared extent can't
 be copied

---
 include/small/matras.h | 12 ++++++++++--
 small/matras.c         | 19 +++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/small/matras.h b/include/small/matras.h
index 85d436c..14cf32b 100644
--- a/include/small/matras.h
+++ b/include/small/matras.h
@@ -279,8 +279,12 @@ matras_alloc(struct matras *m, matras_id_t *id);
 
 /*
  * Deallocate last block (block with maximum ID)
+ *
+ * @retval  0 success
+ * @retval -1 failed to allocate memory to copy a block of a read view;
+ *            can't happen after a successful matras_touch_reserve()
  */
-void
+int
 matras_dealloc(struct matras *m);
 
 /**
@@ -299,8 +303,12 @@ matras_alloc_range(struct matras *m, matras_id_t *id, matras_id_t range_count);
  * This method only works if current number of blocks and
  * number of blocks in one extent are divisible by range_count.
  * range_count must also be less or equal to number of blocks in one extent.
+ *
+ * @retval  0 success
+ * @retval -1 failed to allocate memory to copy a block of a read view;
+ *            can't happen after a successful matras_touch_reserve()
  */
-void
+int
 matras_dealloc_range(struct matras *m, matras_id_t range_count);
 
 /**
diff --git a/small/matras.c b/small/matras.c
index 991eeac..daafa46 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -258,13 +258,17 @@ matras_alloc(struct matras *m, matras_id_t *result_id)
 
 /*
  * Deallocate last block (block with maximum ID)
+ *
+ * @retval  0 success
+ * @retval -1 failed to allocate memory to copy a block of a read view
  */
-void
+int
 matras_dealloc(struct matras *m)
 {
 	assert(m->head.block_count);
 	matras_id_t id = m->head.block_count - 1;
-	matras_touch(m, id);
+	if (matras_touch(m, id) == NULL)
+		return -1;
 	m->head.block_count = id;
 	/* Current block_count is the ID of deleting block */
 
@@ -291,6 +295,7 @@ matras_dealloc(struct matras *m)
 		if (extent1_free)
 			matras_free_extent(m, extent1);
 	}
+	return 0;
 }
 
 /**
@@ -325,14 +330,20 @@ matras_alloc_range(struct matras *m, matras_id_t *id, matras_id_t range_count)
  * This method only works if current number of blocks and
  * number of blocks in one extent are divisible by range_count.
  * range_count must also be less or equal to number of blocks in one extent.
+ *
+ * @retval  0 success
+ * @retval -1 failed to allocate memory to copy a block of a read view
  */
-void
+int
 matras_dealloc_range(struct matras *m, matras_id_t range_count)
 {
 	assert(m->head.block_count % range_count == 0);
 	assert(m->extent_size / m->block_size % range_count == 0);
 	m->head.block_count -= (range_count - 1);
-	matras_dealloc(m);
+	int rc = matras_dealloc(m);
+	if (rc != 0)
+		m->head.block_count += (range_count - 1);
+	return rc;
 }
 
 /**
-- 
2.43.0


From 155a1118e7e02cc5d3970b9521e7de3f66a7c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:36 +0000
Subject: [PATCH 16/29] fix: matras_destroy_read_view: free extents the
 previous view does not see

---
 small/matras.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index daafa46..0c3f578 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -417,13 +417,18 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
-		return;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
 	void **extent1p = 0;
 	if (prev_view)
 		extent1p = (void **) prev_view->root;
+	/*
+	 * The previous view may share an extent with this one, but not the
+	 * extents of the next levels that were added to it afterwards: those
+	 * are beyond the block count of the previous view.
+	 */
+	bool extent1_shared = prev_view && prev_view->block_count &&
+			      v->root == prev_view->root;
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
 	matras_id_t i1 = 0, j1 = 0, i2, j2;
@@ -437,11 +442,8 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
-		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
+		if (prev_view && prev_view->block_count > j1)
 			extent2p = (void **) extent1p[i1];
-		}
 		for (i2 = j2 = 0;
 		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
@@ -456,9 +458,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (extent2 != extent2p)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!extent1_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 247e48e2799994e89556f5eebd27a66e1065388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 17/29] fix: matras_create: don't shift a 32-bit id by more
 than 31 bits

---
 small/matras.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 0c3f578..0d7d7e3 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,9 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/* A 32-bit identifier can't be shifted by more than 31 bits. */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
@@ -149,13 +152,12 @@ matras_destroy(struct matras *m)
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
 	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			matras_free_extent(m, extent3);
@@ -432,7 +434,6 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
 	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
@@ -445,7 +446,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		if (prev_view && prev_view->block_count > j1)
 			extent2p = (void **) extent1p[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			if (next_view->block_count > j1 + j2) {
-- 
2.43.0


From 5ebc5d4ef0f7255d866d0242cf6f08c9c3ce445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:41 +0000
Subject: [PATCH 18/29] fix: matras: release a matras that is filled to the
 capacity

---
 small/matras.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 0d7d7e3..504549d 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -149,9 +149,10 @@ matras_destroy(struct matras *m)
 	if (m->head.block_count == 0)
 		return;
 
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	/* The block count may be 2^32, which does not fit matras_id_t. */
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
@@ -431,9 +432,10 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	 */
 	bool extent1_shared = prev_view && prev_view->block_count &&
 			      v->root == prev_view->root;
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	/* The block count may be 2^32, which does not fit matras_id_t. */
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
-- 
2.43.0


From 673e616a37c616d3b57a39745781423c4fc09501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:31 +0000
Subject: [PATCH 19/29] fix: static_reserve: refuse a size that wraps around

---
 include/small/static.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..cf7500e 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,9 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	/* The sum below must not wrap around. */
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From d59b33bae2a22954a17c21a3189a5057e1861e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 20/29] fix: rlist_cut_before: compare the item with the first
 one of the list that is cut

The old content of head1 is discarded, so head1->next says nothing: when
it happened to be the item, nothing was moved.
---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From 3b4046cc91ca727b9591b5251e1e07825f7b5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 21/29] fix: lf_lifo_is_empty: ignore the ABA counter

An empty list that has ever had an element keeps a non-zero ABA counter
in the low bits of its head and was reported as not empty.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..c369392 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* The low bits keep the ABA counter. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From 7ac0fad25b182d532631b17857f767b4dfdfbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 22/29] fix: quota_lease: try exactly what is needed before
 refusing

The chunk taken from the source is halved while the source refuses it,
but the loop stopped as soon as a half was less than required, although
the source could still cover the required amount.
---
 include/small/quota_lessor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index 1a10255..62c0ff5 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -129,16 +129,18 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
-
+	while (1) {
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
 			lessor->used += used;
 			lessor->leased += size;
 			return size;
 		}
+		if (use == required)
+			return -1;
+		/* Don't give up before what is really needed is refused. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From edb1a0dc0d42f342c10a2f3e521120c4eefc873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 23/29] fix: quota_use: refuse a size that makes the usage wrap
 around

With a limit near QUOTA_MAX the sum of the usage and of the size does not
fit in 32 bits: the assertion failed, or, without it, the request was
granted and the accounting was lost.
---
 include/small/quota.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..a49ad43 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,13 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
-		uint32_t new_used_in_units = used_in_units + size_in_units;
-		assert(new_used_in_units > used_in_units);
-
-		if (new_used_in_units > total_in_units)
+		/* The sum may not fit in 32 bits. */
+		assert(used_in_units <= total_in_units);
+		if (size_in_units > total_in_units - used_in_units)
 			return -1;
 
+		uint32_t new_used_in_units = used_in_units + size_in_units;
+
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
-- 
2.43.0


From fb3c1a2397a81419a31f343b7e80e96fbadf0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 24/29] fix: quota_release: accept QUOTA_MAX

quota_use() grants up to QUOTA_MAX bytes at once, it must be possible to
give them back.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index a49ad43..07d2e02 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -160,7 +160,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 1092630aa22b6eb5bf0457cb363dd25ab1e083f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:54 +0000
Subject: [PATCH 25/29] fix: rb iterators overflow their path in a big tree

The height of a left-leaning red-black tree is up to twice the logarithm
of the number of its nodes, so 48 levels are not enough for a tree with
2^25 + 2^24 nodes inserted in the descending order.
---
 include/small/rb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/small/rb.h b/include/small/rb.h
index 12dc6bd..e78d60e 100644
--- a/include/small/rb.h
+++ b/include/small/rb.h
@@ -64,9 +64,10 @@ enum {
 /*
  * Max height of the tree which can be iterated over.
  * The tree can have no more nodes than x86_64 has distinct
- * addresses.
+ * addresses, and its height can be up to twice the logarithm
+ * of the number of nodes.
  */
-#define RB_MAX_TREE_HEIGHT 48
+#define RB_MAX_TREE_HEIGHT 96
 
 /* Left accessors. */
 #define	rbtn_left_get(a_type, a_field, a_node)				\
-- 
2.43.0


From 20b2d24eec4f7038b56d380677ddad1f25e3afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:15 +0000
Subject: [PATCH 26/29] fix: checked slab cache: initialise the amount of used
 memory

slab_cache_used() returned garbage unless the memory of the cache had
been zeroed by the user, the regular implementation does not need it.
---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From 077ad934321cca8cb9d5d8a71c0c8ee12e61b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:42 +0000
Subject: [PATCH 27/29] fix: region accounted slabs of more than 4 GB in 32
 bits

The used and unused size of a slab were truncated, so an allocation of more
than 4 GB failed an assertion or, without assertions, was handed out again
to the next allocations.
---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 1984e80..e9de36e 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -286,8 +286,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From 0516676cd10bb444d6e566f3bad0333480389c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:20 +0000
Subject: [PATCH 28/29] fix: region_alloc_array computed the size of an array
 in an int

An array of 4 GB or more was served with less memory, one of 2 GB or more was
refused.
---
 include/small/region.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index e9de36e..71908fb 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -397,7 +397,7 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_ = sizeof(T) * (size_t)(count);				\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From 469b65da27a1d21f9168b801cbb7fcfb84f6b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:39 +0000
Subject: [PATCH 29/29] fix: matras_touch_reserve overflowed an int for counts
 above INT_MAX/2

---
 small/matras.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/matras.c b/small/matras.c
index 504549d..20aa66a 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -373,6 +373,10 @@ matras_touch_reserve(struct matras *m, int count)
 	/* The root is only copied once - on the first touch. */
 	bool root_is_to_be_copied = m->head.root == m->head.prev_view->root;
 
+	/* The number of extents could not be represented. */
+	if (count > (INT_MAX - 1) / 2)
+		return -1;
+
 	/* We have extents on 2 levels to possibly be copied after root. */
 	int max_extents_required = count * 2 + root_is_to_be_copied;
 	return matras_allocator_reserve(m->allocator, max_extents_required);
-- 
2.43.0

