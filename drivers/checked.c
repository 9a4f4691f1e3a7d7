/* Conformance driver: slab cache and mempool of the checked (ASAN) builds. */
#include "drv.h"
#include <pthread.h>
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/mempool.h>

enum { NSLOT = 256, NPOOL = 3, NCACHE = 2, NARENA = 2,
       NOWN = NPOOL + NCACHE + NARENA };

static struct slot {
	/** User's memory and what has to be given back. */
	char *ptr;
	void *obj;
	size_t size;
	/** Pool, or NPOOL + cache, or NPOOL + NCACHE + arena. */
	int own;
	unsigned tag;
} slots[NSLOT];

static struct quota quota;
static struct slab_arena arenas[NARENA];
#define arena (arenas[0])
static struct slab_cache cache[NCACHE];
static struct mempool pool[NPOOL];
static bool has[NPOOL], active;
static unsigned next_tag;

static void
state(void)
{
	emit(",\"pools\":[");
	for (int p = 0; p < NPOOL; p++) {
		if (!has[p] || !mempool_is_initialized(&pool[p])) {
			emit("%s[0,0,0,0,0]", p > 0 ? "," : "");
			continue;
		}
		struct mempool_stats st;
		DIRTY(&st);
		mempool_stats(&pool[p], &st);
		emit("%s[%zu,%zu,%u,%u,%zu]", p > 0 ? "," : "",
		     mempool_count(&pool[p]), mempool_used(&pool[p]),
		     st.objsize, st.objcount, (size_t)st.totals.used);
	}
	emit("],\"caches\":[");
	for (int i = 0; i < NCACHE; i++)
		emit("%s%zu", i > 0 ? "," : "", slab_cache_used(&cache[i]));
	emit("]}\n");
}

static int
kth(int own, long long k)
{
	int n = 0;
	for (int i = 0; i < NSLOT; i++)
		n += slots[i].ptr != NULL && (own < 0 || slots[i].own == own);
	if (n == 0)
		return -1;
	k = mod(k, n);
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].ptr != NULL && (own < 0 || slots[i].own == own) &&
		    k-- == 0)
			return i;
	return -1;
}

static int
free_slot(void)
{
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].ptr == NULL)
			return i;
	return -1;
}

static void
give_back(struct slot *s)
{
	if (s->own < NPOOL)
		mempool_free(&pool[s->own], s->obj);
	else if (s->own < NPOOL + NCACHE)
		slab_put(&cache[s->own - NPOOL], s->obj);
	else
		slab_unmap(&arenas[s->own - NPOOL - NCACHE], s->obj);
}

static void
do_free(int i)
{
	int ok = pat_ok(slots[i].ptr, slots[i].size, slots[i].tag);
	give_back(&slots[i]);
	emit("{\"op\":\"free\",\"h\":%d,\"ok\":%d,\"ndead\":%d", i + 1, ok,
	     dead_bytes(slots[i].ptr, slots[i].size));
	slots[i].ptr = NULL;
	state();
}

static void
destroy(int p)
{
	if (!has[p])
		return;
	/* The objects are to be freed one by one before. */
	int i;
	while ((i = kth(p, 0)) >= 0)
		do_free(i);
	mempool_destroy(&pool[p]);
	has[p] = false;
	emit("{\"op\":\"destroy\",\"p\":%d,\"init\":%d", p + 1,
	     mempool_is_initialized(&pool[p]));
	state();
}

static void
finish(void)
{
	if (!active)
		return;
	for (int p = 0; p < NPOOL; p++)
		destroy(p);
	int i;
	while ((i = kth(-1, 0)) >= 0)
		do_free(i);
	for (int k = 0; k < NCACHE; k++) {
		slab_cache_check(&cache[k]);
		slab_cache_destroy(&cache[k]);
	}
	for (int k = 0; k < NARENA; k++)
		slab_arena_destroy(&arenas[k]);
	heap_gone();
	active = false;
}

static void *
from_thread(void *arg)
{
	struct slot *s = arg;
	if (s != NULL)
		slab_put(&cache[s->own - NPOOL], s->obj);
	else
		slab_get(&cache[0], 100);
	return NULL;
}

static volatile char sink;

/**
 * What the user must not do:
 * 0 - give the object to another pool or cache;
 * 1 - use the cache from another thread: an assertion fails;
 * 2 - read the byte after; 3 - write the byte before (if it can be poisoned);
 * 4 - free twice; 5 - read after free: the process dies.
 */
struct mistake {
	struct slot *s;
	int kind;
};

static void
make_mistake(void *arg)
{
	struct mistake *m = arg;
	struct slot *s = m->s;
	static struct mempool other;
	static struct slab_cache other_cache;
	pthread_t t;
	switch (m->kind) {
	case 0:
		if (s->own < NPOOL) {
			DIRTY(&other);
			mempool_create(&other, &cache[0], s->size);
			mempool_free(&other, s->obj);
		} else if (s->own >= NPOOL + NCACHE) {
			int k = s->own - NPOOL - NCACHE;
			slab_unmap(&arenas[(k + 1) % NARENA], s->obj);
		} else {
			DIRTY(&other_cache);
			slab_cache_create(&other_cache, &arena);
			slab_put(&other_cache, s->obj);
		}
		break;
	case 1:
		pthread_create(&t, NULL, from_thread,
			       s->own < NPOOL ? NULL : s);
		pthread_join(t, NULL);
		break;
	case 2:
		sink = s->ptr[s->size];
		break;
	case 3:
		((volatile char *)s->ptr)[-1] = 1;
		if (s->obj != s->ptr)
			/* Not before the object: its header. */
			((volatile char *)s->obj)[-1] = 1;
		break;
	case 4:
		give_back(s);
		give_back(s);
		break;
	case 5:
		give_back(s);
		sink = s->ptr[s->size / 2];
		break;
	}
}

static void
misuse(int i, int kind)
{
	struct slot *s = &slots[i];
	if (kind == 3 && ((uintptr_t)s->ptr & 7) != 0)
		kind = 2;
	if (kind == 1 && ((s->own < NPOOL && i % 2 == 0) ||
			  s->own >= NPOOL + NCACHE))
		kind = 0;
	struct mistake m = { s, kind };
	int how = in_child(make_mistake, &m);
	emit("{\"op\":\"misuse\",\"kind\":%d,\"own\":%d,\"noticed\":%d", kind,
	     s->own, kind <= 1 ? how == 1 : how != 0);
	state();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			finish();
			heap_begin();
			DIRTY(&quota);
			quota_init(&quota, 64 << 20);
			/* The second has slabs of a size that is rounded up. */
			for (int k = 0; k < NARENA; k++) {
				DIRTY(&arenas[k]);
				if (slab_arena_create(&arenas[k], &quota, 0,
						      65536 + k * 5000,
						      MAP_PRIVATE) != 0)
					exit(98);
			}
			for (int k = 0; k < NCACHE; k++) {
				dirty(&cache[k], sizeof(cache[k]));
				slab_cache_create(&cache[k], &arena);
			}
			memset(slots, 0, sizeof(slots));
			memset(has, 0, sizeof(has));
			active = true;
			emit("{\"op\":\"init\",\"hdr\":%zu,\"page\":%d,"
			     "\"arenas\":[%u,%u]", (size_t)slab_sizeof(),
			     (int)sysconf(_SC_PAGESIZE), arenas[0].slab_size,
			     arenas[1].slab_size);
			state();
			continue;
		}
		if (!active)
			continue;
		int p = mod(c.a[0], NPOOL);
		if (IS(&c, "create")) {
			/* create pool size */
			if (has[p])
				continue;
			dirty(&pool[p], sizeof(pool[p]));
			mempool_create(&pool[p], &cache[p % NCACHE],
				       mod(c.a[1] - 1, 1 << 20) + 1);
			has[p] = true;
			emit("{\"op\":\"create\",\"p\":%d,\"size\":%lld", p + 1,
			     mod(c.a[1] - 1, 1 << 20) + 1);
		} else if (IS(&c, "alloc")) {
			/* alloc pool */
			int i = free_slot();
			if (!has[p] || i < 0)
				continue;
			struct slot *s = &slots[i];
			s->obj = s->ptr = mempool_alloc(&pool[p]);
			s->size = pool[p].objsize;
			s->own = p;
			s->tag = ++next_tag;
			emit("{\"op\":\"alloc\",\"p\":%d,\"h\":%d," ZFMT, p + 1,
			     i + 1, ZARG(s->ptr));
			pat_fill(s->ptr, s->size, s->tag);
			emit_shadow(s->ptr, s->size);
		} else if (IS(&c, "get")) {
			/* get cache size */
			int i = free_slot(), k = mod(c.a[0], NCACHE);
			if (i < 0)
				continue;
			size_t size = mod(c.a[1], 1 << 22);
			struct slot *s = &slots[i];
			struct slab *slab = slab_get(&cache[k], size);
			s->obj = slab;
			s->ptr = slab_data(slab);
			s->size = slab_capacity(slab);
			s->own = NPOOL + k;
			s->tag = ++next_tag;
			emit("{\"op\":\"get\",\"c\":%d,\"h\":%d,\"size\":%zu,"
			     "\"cap\":%zu,\"real\":%zu,\"rt\":%d," ZFMT, k + 1,
			     i + 1, size, s->size,
			     slab_real_size(&cache[k], size),
			     slab_from_data(s->ptr) == slab, ZARG(slab));
			pat_fill(s->ptr, s->size, s->tag);
			emit_shadow(slab, s->size + slab_sizeof());
		} else if (IS(&c, "map")) {
			/* map arena */
			int i = free_slot(), k = mod(c.a[0], NARENA);
			if (i < 0)
				continue;
			struct slot *s = &slots[i];
			s->obj = s->ptr = slab_map(&arenas[k]);
			s->size = arenas[k].slab_size;
			s->own = NPOOL + NCACHE + k;
			s->tag = ++next_tag;
			emit("{\"op\":\"map\",\"x\":%d,\"h\":%d," ZFMT, k + 1,
			     i + 1, ZARG(s->ptr));
			pat_fill(s->ptr, s->size, s->tag);
			emit_shadow(s->ptr, s->size);
		} else if (IS(&c, "free")) {
			/* free owner k */
			int i = kth(mod(c.a[0], NOWN), c.a[1]);
			if (i < 0)
				continue;
			do_free(i);
			continue;
		} else if (IS(&c, "misuse")) {
			/* misuse owner k kind */
			int i = kth(mod(c.a[0], NOWN), c.a[1]);
			if (i < 0)
				continue;
			misuse(i, mod(c.a[2], 6));
			continue;
		} else if (IS(&c, "check")) {
			int ok = 1;
			for (int i = 0; i < NSLOT; i++) {
				if (slots[i].ptr == NULL)
					continue;
				ok &= pat_ok(slots[i].ptr, slots[i].size,
					     slots[i].tag);
			}
			emit("{\"op\":\"check\",\"ok\":%d", ok);
		} else if (IS(&c, "destroy")) {
			destroy(p);
			continue;
		} else {
			continue;
		}
		state();
	}
	finish();
	drv_finish();
	return 0;
}
