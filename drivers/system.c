/*
 * Conformance driver: all containers at once.
 *
 * An arena, two slab caches on it, two containers of each kind on the caches,
 * and a log-structured region on the arena. A piece of memory is obtained from
 * a container and given back in the way the container allows; what is observed
 * of ALL the containers is recorded after every operation.
 */
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/region.h>
#include <small/ibuf.h>
#include <small/obuf.h>
#include <small/lsregion.h>
#include <small/small.h>
#include <small/mempool.h>

enum { NCACHE = 2, NP = 24 };
/* Containers in pairs, the second of a pair is on the second cache. */
enum kind { RAW, REGION, IBUF, OBUF, POOL, SMALL, LOG };
enum { NC = 14 };

struct piece {
	char *ptr;
	size_t size;
	size_t before;
	struct obuf_svp svp;
	struct slab *slab;
	int h;
};

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache[NCACHE];
static struct box {
	union {
		struct region region;
		struct ibuf ibuf;
		struct obuf obuf;
		struct mempool pool;
		struct small_alloc small;
		struct lsregion log;
	};
	struct piece p[NP];
	int n;
	/* Nothing was allocated since the last reservation. */
	bool reserved;
} box[NC];
static bool active;
static int next_h;
static size_t objsize[NCACHE];
static size_t start_cap;

static enum kind
kind_of(int b)
{
	return (enum kind)(b / 2);
}

static struct slab_cache *
cache_of(int b)
{
	return &cache[b % 2];
}

static int
add_slabs(const void *s, void *ctx)
{
	const struct mempool_stats *st = s;
	*(size_t *)ctx += st->slabcount * st->slabsize;
	return 0;
}

/** A chunk that has a block of its own: its size or that of the block. */
static size_t
large(struct box *x, int i, bool whole)
{
	struct small_alloc_info info;
	DIRTY(&info);
	small_alloc_info(&x->small, x->p[i].ptr, x->p[i].size, &info);
	return !info.is_large ? 0 :
	       whole ? slab_from_data(x->p[i].ptr)->size : x->p[i].size;
}

/** Memory the container gave out. */
static size_t
used(int b)
{
	struct box *x = &box[b];
	size_t sum = 0;
	size_t slabs = 0;
	struct small_stats totals;
	switch (kind_of(b)) {
	case RAW:
		for (int i = 0; i < x->n; i++)
			sum += x->p[i].slab->size;
		return sum;
	case REGION:
		return region_used(&x->region);
	case IBUF:
		return ibuf_used(&x->ibuf);
	case OBUF:
		return obuf_size(&x->obuf);
	case POOL:
		return mempool_used(&x->pool);
	case SMALL:
		small_stats(&x->small, &totals, add_slabs, &slabs);
		sum = totals.used;
		for (int i = 0; i < x->n; i++)
			sum += large(x, i, false);
		return sum;
	case LOG:
		return lsregion_used(&x->log);
	}
	return 0;
}

/** Memory the container holds, from the cache or the arena. */
static size_t
held(int b)
{
	struct box *x = &box[b];
	size_t sum = 0;
	struct small_stats totals;
	switch (kind_of(b)) {
	case RAW:
		return used(b);
	case REGION:
		return region_total(&x->region);
	case IBUF:
		return x->ibuf.buf == NULL ? 0 :
		       slab_from_data(x->ibuf.buf)->size;
	case OBUF:
		for (int i = 0; i < x->obuf.n_iov; i++)
			sum += slab_from_data(x->obuf.iov[i].iov_base)->size;
		return sum;
	case POOL: {
		struct mempool_stats st;
		DIRTY(&st);
		mempool_stats(&x->pool, &st);
		return st.slabcount * st.slabsize;
	}
	case SMALL:
		small_stats(&x->small, &totals, add_slabs, &sum);
		for (int i = 0; i < x->n; i++)
			sum += large(x, i, true);
		return sum;
	case LOG:
		return lsregion_total(&x->log);
	}
	return 0;
}

static void
create(int b)
{
	struct box *x = &box[b];
	dirty(x, sizeof(*x));
	x->n = 0;
	x->reserved = false;
	float factor;
	switch (kind_of(b)) {
	case RAW:
		break;
	case REGION:
		region_create(&x->region, cache_of(b));
		break;
	case IBUF:
		ibuf_create(&x->ibuf, cache_of(b), start_cap);
		break;
	case OBUF:
		obuf_create(&x->obuf, cache_of(b), start_cap);
		break;
	case POOL:
		mempool_create(&x->pool, cache_of(b), objsize[b % 2]);
		break;
	case SMALL:
		small_alloc_create(&x->small, cache_of(b), 16, 8, 1.2, &factor);
		break;
	case LOG:
		lsregion_create(&x->log, &arena);
		break;
	}
}

static void
give_back(int b, int i)
{
	struct box *x = &box[b];
	struct piece *q = &x->p[i];
	switch (kind_of(b)) {
	case RAW:
		slab_put(cache_of(b), q->slab);
		break;
	case POOL:
		mempool_free(&x->pool, q->ptr);
		break;
	case SMALL:
		smfree(&x->small, q->ptr, q->size);
		break;
	default:
		break;
	}
}

static void
destroy(int b)
{
	struct box *x = &box[b];
	switch (kind_of(b)) {
	case RAW:
		while (x->n > 0)
			give_back(b, --x->n);
		break;
	case REGION:
		region_destroy(&x->region);
		break;
	case IBUF:
		ibuf_destroy(&x->ibuf);
		break;
	case OBUF:
		obuf_destroy(&x->obuf);
		break;
	case POOL:
		mempool_destroy(&x->pool);
		break;
	case SMALL:
		/* The pools go with the allocator. */
		for (int i = 0; i < x->n; i++)
			if (large(x, i, true) > 0)
				give_back(b, i);
		small_alloc_destroy(&x->small);
		break;
	case LOG:
		lsregion_destroy(&x->log);
		break;
	}
	x->n = 0;
	x->reserved = false;
}

static void
state(void)
{
	emit(",\"used\":[");
	for (int b = 0; b < NC; b++)
		emit("%s%zu", b > 0 ? "," : "", used(b));
	emit("],\"held\":[");
	for (int b = 0; b < NC; b++)
		emit("%s%zu", b > 0 ? "," : "", held(b));
	emit("],\"cached\":[%zu,%zu],\"total\":[%zu,%zu],\"quota\":%zu,"
	     "\"dam\":[", slab_cache_used(&cache[0]), slab_cache_used(&cache[1]),
	     cache[0].allocated.stats.total, cache[1].allocated.stats.total,
	     quota_used(&quota));
	int c = 0;
	for (int b = 0; b < NC; b++) {
		struct box *x = &box[b];
		char *at = kind_of(b) == IBUF ? x->ibuf.rpos : NULL;
		for (int i = 0; i < x->n; i++) {
			struct piece *q = &x->p[i];
			if (kind_of(b) == IBUF) {
				q->ptr = at;
				at += q->size;
			}
			if (!pat_ok(q->ptr, q->size, q->h))
				emit("%s%d", c++ > 0 ? "," : "", q->h);
		}
	}
	emit("]}\n");
}

/** There is memory for that and somewhat more. */
static int
memory_for(int b, size_t size)
{
	struct box *x = &box[b];
	size_t n = size + 512;
	if (kind_of(b) == LOG) {
		if (n > arena.slab_size)
			return quota_used(&quota) + 2 * n + 4 * arena.slab_size
			       <= quota_total(&quota);
		void *s = slab_map(&arena);
		if (s != NULL)
			slab_unmap(&arena, s);
		return s != NULL;
	}
	struct small_alloc_info info;
	DIRTY(&info);
	switch (kind_of(b)) {
	case RAW:
		n = size;
		break;
	case IBUF:
		/* Twice as much, or much more if that is not enough. */
		n += start_cap + 4 * (ibuf_capacity(&x->ibuf) + size);
		break;
	case OBUF:
		n += 4 * size + (start_cap << x->obuf.n_iov) * 2;
		break;
	case SMALL:
		small_alloc_info(&x->small, NULL, size, &info);
		/* From the system, not from the slabs. */
		if (info.is_large)
			return quota_used(&quota) + n + 8192 <=
			       quota_total(&quota);
		/* fallthrough */
	case POOL:
		if (n < arena.slab_size)
			n = arena.slab_size - slab_sizeof();
		break;
	default:
		break;
	}
	struct slab *s = slab_get(cache_of(b), n);
	if (s != NULL)
		slab_put(cache_of(b), s);
	return s != NULL;
}

static void
do_get(int b, size_t size)
{
	struct box *x = &box[b];
	if (x->n == NP)
		return;
	if (kind_of(b) == POOL)
		size = objsize[b % 2];
	struct piece *q = &x->p[x->n];
	memset(q, 0, sizeof(*q));
	switch (kind_of(b)) {
	case RAW:
		q->slab = slab_get(cache_of(b), size);
		if (q->slab != NULL) {
			q->ptr = slab_data(q->slab);
			size = slab_capacity(q->slab);
		}
		break;
	case REGION:
		q->before = region_used(&x->region);
		q->ptr = region_alloc(&x->region, size);
		break;
	case IBUF:
		q->ptr = ibuf_alloc(&x->ibuf, size);
		break;
	case OBUF:
		q->svp = obuf_create_svp(&x->obuf);
		q->ptr = obuf_alloc(&x->obuf, size);
		break;
	case POOL:
		q->ptr = mempool_alloc(&x->pool);
		break;
	case SMALL:
		q->ptr = smalloc(&x->small, size);
		break;
	case LOG:
		q->ptr = lsregion_alloc(&x->log, size, next_h);
		break;
	}
	if (q->ptr != NULL)
		x->reserved = false;
	int can = q->ptr == NULL && memory_for(b, size);
	int h = 0;
	if (q->ptr != NULL) {
		h = q->h = next_h++;
		q->size = size;
		pat_fill(q->ptr, size, h);
		x->n++;
	}
	emit("{\"op\":\"get\",\"b\":%d,\"n\":%zu,\"h\":%d,\"can\":%d", b + 1,
	     size, h, can);
	big("a", (size_t)q->ptr);
	state();
}

/** Memory is made ready, but not taken. */
static void
do_reserve(int b, size_t size)
{
	struct box *x = &box[b];
	if (x->reserved)
		return;
	char *p = NULL;
	switch (kind_of(b)) {
	case REGION:
		p = region_reserve(&x->region, size);
		break;
	case IBUF:
		p = ibuf_reserve(&x->ibuf, size);
		break;
	case OBUF:
		p = obuf_reserve(&x->obuf, size);
		break;
	case LOG:
		p = lsregion_reserve(&x->log, size);
		break;
	default:
		return;
	}
	int can = p == NULL && memory_for(b, size);
	if (p != NULL) {
		dirty(p, size);
		x->reserved = kind_of(b) == REGION || kind_of(b) == OBUF;
	}
	emit("{\"op\":\"reserve\",\"b\":%d,\"n\":%zu,\"ok\":%d,\"can\":%d", b + 1,
	     size, p != NULL, can);
	big("a", (size_t)p);
	state();
}

/** No more memory than needed. */
static void
do_shrink(int b)
{
	struct box *x = &box[b];
	if (kind_of(b) != IBUF)
		return;
	ibuf_shrink(&x->ibuf);
	emit("{\"op\":\"shrink\",\"b\":%d", b + 1);
	state();
}

/** The oldest pieces. */
static void
do_drop(int b, int k)
{
	struct box *x = &box[b];
	k = mod(k, x->n + 1);
	size_t cut = 0;
	switch (kind_of(b)) {
	case IBUF:
		for (int i = 0; i < k; i++)
			cut += x->p[i].size;
		ibuf_consume(&x->ibuf, cut);
		break;
	case LOG:
		if (k > 0)
			lsregion_gc(&x->log, x->p[k - 1].h);
		break;
	default:
		return;
	}
	memmove(x->p, x->p + k, (x->n - k) * sizeof(x->p[0]));
	x->n -= k;
	emit("{\"op\":\"drop\",\"b\":%d,\"k\":%d", b + 1, k);
	state();
}

/** The oldest pieces stay. */
static void
do_keep(int b, int k)
{
	struct box *x = &box[b];
	k = mod(k, x->n + 1);
	int n = x->n;
	size_t cut = 0;
	switch (kind_of(b)) {
	case REGION:
		if (k < x->n)
			region_truncate(&x->region, x->p[k].before);
		break;
	case IBUF:
		for (int i = k; i < x->n; i++)
			cut += x->p[i].size;
		ibuf_discard(&x->ibuf, cut);
		break;
	case OBUF:
		if (k < x->n)
			obuf_rollback_to_svp(&x->obuf, &x->p[k].svp);
		break;
	default:
		return;
	}
	x->n = k;
	x->reserved = x->reserved && k == n;
	emit("{\"op\":\"keep\",\"b\":%d,\"k\":%d", b + 1, k);
	state();
}

/** One of them. */
static void
do_free(int b, int k)
{
	struct box *x = &box[b];
	if (x->n == 0 || (kind_of(b) != RAW && kind_of(b) != POOL &&
			  kind_of(b) != SMALL))
		return;
	k = mod(k, x->n);
	int h = x->p[k].h;
	give_back(b, k);
	x->n--;
	memmove(x->p + k, x->p + k + 1, (x->n - k) * sizeof(x->p[0]));
	emit("{\"op\":\"free\",\"b\":%d,\"h\":%d", b + 1, h);
	state();
}

static void
do_clear(int b)
{
	struct box *x = &box[b];
	switch (kind_of(b)) {
	case REGION:
		region_free(&x->region);
		break;
	case IBUF:
		ibuf_reset(&x->ibuf);
		break;
	case OBUF:
		obuf_reset(&x->obuf);
		break;
	case LOG:
		lsregion_gc(&x->log, next_h);
		break;
	default:
		return;
	}
	x->n = 0;
	x->reserved = false;
	emit("{\"op\":\"keep\",\"b\":%d,\"k\":0", b + 1);
	state();
}

/** The cache with all on it, single blocks are not given back before. */
static void
do_renew(int c)
{
	for (int b = c; b < NC; b += NCACHE)
		if (kind_of(b) != LOG && kind_of(b) != RAW)
			destroy(b);
	slab_cache_destroy(&cache[c]);
	DIRTY(&cache[c]);
	slab_cache_create(&cache[c], &arena);
	for (int b = c; b < NC; b += NCACHE)
		if (kind_of(b) != LOG)
			create(b);
	emit("{\"op\":\"renew\",\"c\":%d", c + 1);
	state();
}

static void
stop(void)
{
	if (!active)
		return;
	active = false;
	for (int b = 0; b < NC; b++)
		destroy((b * 5 + next_h) % NC);
	size_t left[NCACHE] = { slab_cache_used(&cache[0]),
				slab_cache_used(&cache[1]) };
	for (int i = 0; i < NCACHE; i++)
		slab_cache_destroy(&cache[i]);
	/* Everything is there again. */
	void *s[256];
	size_t n = 0;
	while (n < 256 && (s[n] = slab_map(&arena)) != NULL)
		n++;
	emit("{\"op\":\"stop\",\"left\":[%zu,%zu],\"slabs\":%zu,"
	     "\"quota\":%zu}\n", left[0], left[1], n, quota_used(&quota));
	while (n > 0)
		slab_unmap(&arena, s[--n]);
	slab_arena_destroy(&arena);
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init LG2SLAB NSLABS START OBJSIZE1 OBJSIZE2 PRE */
			stop();
			size_t slab_size = (size_t)1 << (16 + mod(c.a[0], 5));
			size_t nslabs = 1 + mod(c.a[1], 128);
			size_t pre = mod(c.a[5], nslabs + 1) * slab_size;
			start_cap = 1 + mod(c.a[2], 1 << 17);
			for (int i = 0; i < NCACHE; i++)
				objsize[i] = 8 + mod(c.a[3 + i], 5000);
			DIRTY(&quota);
			quota_init(&quota, nslabs * slab_size);
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, pre, slab_size,
					      SLAB_ARENA_PRIVATE) != 0)
				exit(97);
			for (int i = 0; i < NCACHE; i++) {
				DIRTY(&cache[i]);
				slab_cache_create(&cache[i], &arena);
			}
			for (int b = 0; b < NC; b++)
				create(b);
			next_h = 1;
			active = true;
			emit("{\"op\":\"init\",\"slab\":%zu,\"nslabs\":%zu,"
			     "\"nb\":%d", slab_size, nslabs, NC);
			state();
			continue;
		}
		if (!active)
			continue;
		int b = mod(c.a[0], NC);
		if (IS(&c, "get")) {
			do_get(b, 1 + mod(c.a[1], 1 << 21));
		} else if (IS(&c, "reserve")) {
			do_reserve(b, 1 + mod(c.a[1], 1 << 21));
		} else if (IS(&c, "shrink")) {
			do_shrink(b);
		} else if (IS(&c, "renew")) {
			do_renew(mod(c.a[0], NCACHE));
		} else if (IS(&c, "drop")) {
			do_drop(b, c.a[1]);
		} else if (IS(&c, "keep")) {
			do_keep(b, c.a[1]);
		} else if (IS(&c, "free")) {
			do_free(b, c.a[1]);
		} else if (IS(&c, "clear")) {
			do_clear(b);
		} else if (IS(&c, "again")) {
			/* destroyed and created */
			destroy(b);
			create(b);
			emit("{\"op\":\"again\",\"b\":%d", b + 1);
			state();
		}
	}
	stop();
	drv_finish();
	return 0;
}
