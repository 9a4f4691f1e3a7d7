/*
 * Conformance driver: pieces of more than 4 GB.
 *
 * The same few operations for every container of bytes: a piece is obtained,
 * pieces are given back (the newest ones, the oldest ones or a given one,
 * whatever the container can do). Only the borders of a piece are written, so
 * that it costs no memory.
 */
#include "drv.h"
#include <sys/uio.h>
#include <stdalign.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/region.h>
#include <small/ibuf.h>
#include <small/obuf.h>
#include <small/lsregion.h>
#include <small/small.h>
#include <small/mempool.h>

enum { REGION, IBUF, OBUF, LSREGION, SLAB, SMALL, MEMPOOL, ARENA, KINDS };
enum { NP = 64, EDGE = 64 };

struct t16 {
	char c[16];
} __attribute__((aligned(16)));

struct piece {
	char *ptr;
	size_t size;
	struct obuf_svp svp;
	size_t before;
	int h;
	struct slab *slab;
};

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static struct region region;
static struct ibuf ibuf;
static struct obuf obuf;
static struct lsregion ls;
static struct small_alloc alloc;
static struct mempool pool;
static struct lsregion_svp svp;
static int kind = -1;
static struct piece p[NP];
static int n, next_h;

static size_t
edge_next(size_t i, size_t size)
{
	i++;
	return size > 2 * EDGE && i == EDGE ? size - EDGE : i;
}

static void
fill(char *ptr, size_t size, int h)
{
	for (size_t i = 0; i < size; i = edge_next(i, size))
		ptr[i] = pat_byte(h, i);
}

static int
intact(const char *ptr, size_t size, int h)
{
	for (size_t i = 0; i < size; i = edge_next(i, size))
		if ((unsigned char)ptr[i] != pat_byte(h, i))
			return 0;
	return 1;
}

static size_t
used(void)
{
	switch (kind) {
	case REGION:
		return region_used(&region);
	case IBUF:
		return ibuf_used(&ibuf);
	case OBUF:
		return obuf_size(&obuf);
	case LSREGION:
		return lsregion_used(&ls);
	case MEMPOOL: {
		struct mempool_stats st;
		DIRTY(&st);
		mempool_stats(&pool, &st);
		return st.totals.used;
	}
	case ARENA:
		return arena.used;
	default:
		return slab_cache_used(&cache);
	}
}

static void
state(void)
{
	big("used", used());
	emit(",\"dam\":[");
	int c = 0;
	char *at = kind == IBUF ? ibuf.rpos : NULL;
	for (int i = 0; i < n; i++) {
		if (kind == IBUF) {
			p[i].ptr = at;
			at += p[i].size;
		}
		if (!intact(p[i].ptr, p[i].size, p[i].h))
			emit("%s%d", c++ > 0 ? "," : "", p[i].h);
	}
	emit("]");
	/* What is held, what is not used and what is used no more. */
	size_t total = 0, unused = 0, gone = 0, vec = 0;
	struct iovec *v = obuf.iov;
	switch (kind) {
	case REGION:
		total = region_total(&region);
		break;
	case IBUF:
		total = ibuf_capacity(&ibuf);
		unused = ibuf_unused(&ibuf);
		gone = ibuf_pos(&ibuf);
		break;
	case OBUF:
		for (int i = 0; i < obuf_iovcnt(&obuf); i++)
			vec += v[i].iov_len;
		for (int i = 0; i < obuf.n_iov; i++)
			total += obuf.capacity[i];
		break;
	case LSREGION:
		total = lsregion_total(&ls);
		break;
	case MEMPOOL: {
		struct mempool_stats st;
		DIRTY(&st);
		mempool_stats(&pool, &st);
		total = st.totals.total;
		/* The same once more. */
		unused = mempool_used(&pool);
		gone = slab_cache_used(&cache);
		vec = st.objcount;
		break;
	}
	case ARENA:
		total = quota_used(&quota);
		unused = quota_total(&quota);
		break;
	default:
		total = cache.allocated.stats.total;
		break;
	}
	big("total", total);
	big("unused", unused);
	big("gone", gone);
	big("vec", vec);
	big("quota", quota_used(&quota));
	emit("}\n");
}

static void
give_back(struct piece *q)
{
	switch (kind) {
	case SLAB:
		slab_put(&cache, q->slab);
		break;
	case SMALL:
		smfree(&alloc, q->ptr, q->size);
		break;
	case MEMPOOL:
		mempool_free(&pool, q->ptr);
		break;
	case ARENA:
		slab_unmap(&arena, q->ptr);
		break;
	}
}

static void
stop(void)
{
	while (n > 0 && kind >= SLAB)
		give_back(&p[--n]);
	n = 0;
	switch (kind) {
	case REGION:
		region_destroy(&region);
		break;
	case IBUF:
		ibuf_destroy(&ibuf);
		break;
	case OBUF:
		obuf_destroy(&obuf);
		break;
	case LSREGION:
		lsregion_destroy(&ls);
		break;
	case SMALL:
		small_alloc_destroy(&alloc);
		break;
	case MEMPOOL:
		mempool_destroy(&pool);
		break;
	}
	if (kind >= 0) {
		emit("{\"op\":\"stop\"");
		big("held", slab_cache_used(&cache));
		emit("}\n");
		slab_cache_destroy(&cache);
		slab_arena_destroy(&arena);
	}
	kind = -1;
}

static void
start(const struct cmd *c)
{
	/* init KIND LB OBJ PRE LIMIT: for mempools and arenas, MBs. */
	int k = mod(c->a[0], KINDS);
	size_t slab_size = 1 << 20, pre = 0, limit = (size_t)1 << 41;
	/* Any size of a slab there is. */
	if (k < SMALL && c->a[2] != 0)
		slab_size = (size_t)1 << (16 + mod(c->a[2], 16));
	if (k >= MEMPOOL)
		slab_size = (size_t)1 << (20 + mod(c->a[1], 12));
	if (k == ARENA) {
		pre = (size_t)mod(c->a[3], 1 << 14) << 20;
		limit = (size_t)(1 + mod(c->a[4], 1 << 16)) << 20;
	}
	DIRTY(&quota);
	quota_init(&quota, limit);
	DIRTY(&arena);
	if (slab_arena_create(&arena, &quota, pre, slab_size,
			      SLAB_ARENA_PRIVATE) != 0)
		exit(97);
	DIRTY(&cache);
	slab_cache_create(&cache, &arena);
	next_h = 1;
	float factor;
	kind = k;
	switch (kind) {
	case REGION:
		DIRTY(&region);
		region_create(&region, &cache);
		break;
	case IBUF:
		DIRTY(&ibuf);
		ibuf_create(&ibuf, &cache, 16384);
		break;
	case OBUF:
		/* init OBUF START: the buffers of a small one are many. */
		DIRTY(&obuf);
		obuf_create(&obuf, &cache,
			    c->a[1] % 3 ? 16384 : 1 + mod(c->a[1], 20));
		break;
	case LSREGION:
		DIRTY(&ls);
		lsregion_create(&ls, &arena);
		DIRTY(&svp);
		lsregion_svp_create(&svp);
		break;
	case SMALL:
		DIRTY(&alloc);
		small_alloc_create(&alloc, &cache, 32, 8, 1.3, &factor);
		break;
	case MEMPOOL: {
		size_t max = slab_size - mslab_sizeof();
		size_t size = 1 + (size_t)mod(c->a[2], 1ll << 32) % max;
		if (size < 4096)
			size = 4096;
		DIRTY(&pool);
		mempool_create(&pool, &cache, size);
		break;
	}
	}
	emit("{\"op\":\"init\",\"kind\":%d", kind);
	big("unit", slab_size);
	big("want", pre < limit ? pre : limit);
	big("pre", arena.prealloc);
	big("prem", arena.prealloc & (slab_size - 1));
	state();
}

/** How many vectors the buffer has in use. */
static int
vectors(void)
{
	return kind == OBUF ? obuf_iovcnt(&obuf) : 0;
}

/** There is memory for more than that. */
static int
memory_for(size_t size)
{
	void *volatile m = malloc(size * 3);
	bool ok = m != NULL;
	free(m);
	return ok;
}

static void
do_get(size_t size, size_t al)
{
	if (n == NP)
		return;
	if (kind == MEMPOOL)
		size = pool.objsize;
	if (kind == ARENA)
		size = arena.slab_size;
	int can = memory_for(kind == MEMPOOL ? arena.slab_size : size);
	struct piece *q = &p[n];
	memset(q, 0, sizeof(*q));
	q->before = used();
	size_t real = size;
	switch (kind) {
	case REGION:
		if (al == 16) {
			size_t told, count = 1 + size / 16;
			size = count * 16;
			q->ptr = (char *)region_alloc_array(&region, struct t16,
							    count, &told);
			real = told;
			break;
		}
		q->ptr = al == 1 ? region_alloc(&region, size) :
			 region_aligned_alloc(&region, size, al);
		break;
	case IBUF:
		q->ptr = ibuf_alloc(&ibuf, size);
		break;
	case OBUF:
		q->svp = obuf_create_svp(&obuf);
		q->ptr = obuf_alloc(&obuf, size);
		break;
	case LSREGION:
		q->ptr = al == 1 ? lsregion_alloc(&ls, size, next_h) :
			 lsregion_aligned_alloc(&ls, size, al, next_h);
		break;
	case SLAB:
		q->slab = slab_get(&cache, size);
		if (q->slab != NULL) {
			q->ptr = slab_data(q->slab);
			real = q->slab->size;
		}
		break;
	case MEMPOOL:
		q->ptr = mempool_alloc(&pool);
		break;
	case ARENA:
		q->ptr = slab_map(&arena);
		al = size;
		break;
	default:
		/* Not from the pools. */
		size += size < 2 << 20 ? 2 << 20 : 0;
		q->ptr = smalloc(&alloc, size);
		if (q->ptr != NULL)
			real = slab_from_data(q->ptr)->size;
		break;
	}
	emit("{\"op\":\"get\",\"okp\":%d,\"can\":%d,\"nv\":%d,\"al\":%zu,"
	     "\"h\":%d",
	     q->ptr != NULL, can, vectors(), al < 1 << 30 ? al : 1 << 30, q->ptr != NULL ? next_h : 0);
	big("n", size);
	big("real", real);
	big("a", (size_t)q->ptr);
	big("rem", (size_t)q->ptr & (al - 1));
	if (q->ptr != NULL) {
		q->size = size;
		q->h = next_h++;
		fill(q->ptr, size, q->h);
		n++;
	}
	state();
}

static void
do_reserve(size_t size)
{
	void *r = NULL;
	size_t got = size;
	switch (kind) {
	case REGION:
		r = region_reserve_cb(&region, &got);
		break;
	case IBUF:
		r = ibuf_reserve_cb(&ibuf, &got);
		break;
	case OBUF:
		r = obuf_reserve_cb(&obuf, &got);
		break;
	case LSREGION:
		r = lsregion_reserve(&ls, size);
		break;
	default:
		return;
	}
	emit("{\"op\":\"reserve\",\"okp\":%d,\"can\":%d,\"nv\":%d",
	     r != NULL, memory_for(size), vectors());
	big("n", size);
	big("got", got);
	state();
}

/** Keep the oldest k pieces. */
static void
do_keep(int k)
{
	if (k > n)
		k = n;
	switch (kind) {
	case REGION:
		region_truncate(&region, k < n ? p[k].before : used());
		break;
	case OBUF:
		if (k < n)
			obuf_rollback_to_svp(&obuf, &p[k].svp);
		break;
	case IBUF: {
		size_t cut = 0;
		for (int i = k; i < n; i++)
			cut += p[i].size;
		ibuf_discard(&ibuf, cut);
		break;
	}
	default:
		return;
	}
	n = k;
	emit("{\"op\":\"keep\",\"reset\":0,\"k\":%d", k);
	state();
}

/** Give the oldest k pieces back. */
static void
do_drop(int k)
{
	if (k > n)
		k = n;
	switch (kind) {
	case LSREGION:
		lsregion_gc(&ls, k > 0 ? p[k - 1].h : 0);
		break;
	case IBUF: {
		size_t cut = 0;
		for (int i = 0; i < k; i++)
			cut += p[i].size;
		ibuf_consume(&ibuf, cut);
		break;
	}
	default:
		return;
	}
	memmove(p, p + k, (n - k) * sizeof(*p));
	n -= k;
	emit("{\"op\":\"drop\",\"k\":%d", k);
	state();
}

/** Give one piece back. */
static void
do_free(int k)
{
	if (n == 0 || kind < SLAB)
		return;
	k = mod(k, n);
	int h = p[k].h;
	give_back(&p[k]);
	n--;
	memmove(p + k, p + k + 1, (n - k) * sizeof(*p));
	emit("{\"op\":\"free\",\"h\":%d", h);
	state();
}

static void
do_reset(void)
{
	switch (kind) {
	case REGION:
		region_reset(&region);
		break;
	case IBUF:
		ibuf_reset(&ibuf);
		break;
	case OBUF:
		obuf_reset(&obuf);
		break;
	default:
		return;
	}
	n = 0;
	emit("{\"op\":\"keep\",\"reset\":1,\"k\":0");
	state();
}

/** Only while little is used: it is copied. */
static void
do_shrink(void)
{
	if (kind != IBUF || ibuf_used(&ibuf) > 1 << 20)
		return;
	ibuf_shrink(&ibuf);
	emit("{\"op\":\"shrink\"");
	state();
}

static void
do_flush(void)
{
	if (kind != LSREGION)
		return;
	struct iovec v[NP];
	int cnt = NP;
	lsregion_to_iovec(&ls, v, &cnt, &svp);
	size_t sum = 0;
	for (int i = 0; i < cnt; i++)
		sum += v[i].iov_len;
	emit("{\"op\":\"flush\"");
	big("sum", sum);
	state();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			stop();
			start(&c);
		}
		if (kind < 0)
			continue;
		/* get G N LB: G * 4 GB + N bytes. */
		size_t size = ((size_t)mod(c.a[0], 3) << 32) +
			      mod(c.a[1], 1ll << 32);
		if (size == 0)
			size = 1;
		if (IS(&c, "fill")) {
			/* As much as the current buffers have room for. */
			size_t room = 0;
			if (kind == IBUF)
				room = ibuf_unused(&ibuf);
			if (kind == OBUF)
				room = obuf.capacity[obuf.pos] -
				       obuf.iov[obuf.pos].iov_len;
			if (room > (size_t)mod(c.a[0], 1 << 30))
				do_get(room - mod(c.a[0], 1 << 30), 1);
			else
				do_get(1, 1);
		} else if (IS(&c, "get")) {
			/* Growth copies what is there. */
			if (kind == IBUF && used() > 1 << 20 &&
			    size > ibuf_unused(&ibuf))
				do_drop(n);
			do_get(size, kind == REGION || kind == LSREGION ?
			       (size_t)1 << mod(c.a[2], 13) : 1);
		} else if (IS(&c, "reserve")) {
			if (kind == IBUF && used() > 1 << 20)
				do_drop(n);
			do_reserve(size);
		} else if (IS(&c, "keep")) {
			do_keep(mod(c.a[0], NP));
		} else if (IS(&c, "drop")) {
			do_drop(mod(c.a[0], NP));
		} else if (IS(&c, "free")) {
			do_free(c.a[0]);
		} else if (IS(&c, "reset")) {
			do_reset();
		} else if (IS(&c, "shrink")) {
			do_shrink();
		} else if (IS(&c, "flush")) {
			do_flush();
		}
	}
	stop();
	drv_finish();
	return 0;
}
