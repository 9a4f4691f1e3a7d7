/* Conformance driver: the small allocator on top of slab_cache. */
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/small.h>

enum { NSLOT = 6000, NPOOL = 1100 };
static struct slot {
	char *ptr;
	size_t size;
	unsigned tag;
} slots[NSLOT];

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static struct small_alloc alloc;
static bool active, exists;
static unsigned next_tag;
static unsigned gran;

static struct pst {
	size_t objsize, slabsize, cnt, nslabs;
} pst[NPOOL];
static int npst;
static bool was_active[NPOOL];
static bool act_known;

static int
stat_cb(const void *s, void *arg)
{
	(void)arg;
	const struct mempool_stats *st = s;
	if (npst == NPOOL)
		exit(96);
	pst[npst].objsize = st->objsize;
	pst[npst].slabsize = st->slabsize;
	pst[npst].cnt = st->objcount;
	pst[npst].nslabs = st->slabcount;
	npst++;
	return 0;
}

static void
stats(void)
{
	struct small_stats st;
	DIRTY(&st);
	npst = 0;
	small_stats(&alloc, &st, stat_cb, NULL);
	size_t cnt = 0;
	for (int i = 0; i < npst; i++)
		cnt += pst[i].cnt;
	emit(",\"used\":%zu,\"total\":%zu,\"cused\":%zu,\"cnt\":%zu", st.used,
	     st.total, slab_cache_used(&cache), cnt);
#ifdef ENABLE_ASAN
	emit(",\"leased\":%zu", (size_t)quota_leased(&cache.quota));
#else
	/* Pools that hold something: number, objects, slabs, waste. */
	emit(",\"pools\":[");
	bool first = true;
	for (int i = 0; i < npst; i++) {
		size_t waste = alloc.small_mempool_cache[i].waste;
		if (pst[i].cnt == 0 && pst[i].nslabs == 0 && waste == 0)
			continue;
		emit("%s[%d,%zu,%zu,%zu]", first ? "" : ",", i + 1,
		     pst[i].cnt, pst[i].nslabs, waste);
		first = false;
	}
	emit("]");
	/* Active size classes: those that serve their own size. */
	bool changed = !act_known;
	for (int i = 0; i < npst; i++) {
		struct small_alloc_info info;
		DIRTY(&info);
		small_alloc_info(&alloc, NULL, pst[i].objsize, &info);
		bool a = !info.is_large && info.real_size == pst[i].objsize;
		changed |= a != was_active[i];
		was_active[i] = a;
	}
	act_known = true;
	if (changed) {
		emit(",\"act\":[");
		first = true;
		for (int i = 0; i < npst; i++) {
			if (!was_active[i])
				continue;
			emit("%s%d", first ? "" : ",", i + 1);
			first = false;
		}
		emit("]");
	}
#endif
	emit("}\n");
}

static size_t
qleft(void)
{
#ifdef ENABLE_ASAN
	return quota_total(&quota) - quota_used(&quota) +
	       quota_available(&cache.quota);
#else
	return quota_total(&quota) - quota_used(&quota);
#endif
}

static bool
do_alloc(size_t size, bool huge)
{
	int i = 0;
	while (i < NSLOT && slots[i].ptr != NULL)
		i++;
	if (i == NSLOT)
		return false;
	struct small_alloc_info info;
	DIRTY(&info);
	small_alloc_info(&alloc, NULL, size, &info);
	size_t before = slab_cache_used(&cache), ql = qleft();
	char *ptr = smalloc(&alloc, size);
	if (huge) {
		emit("{\"op\":\"huge\",\"okp\":%d", ptr != NULL);
		stats();
		return ptr != NULL;
	}
	int probe = 0;
	if (ptr == NULL) {
#ifndef ENABLE_ASAN
		/* Is there really no block for the pool that serves it? */
		small_alloc_info(&alloc, NULL, size, &info);
		size_t slabsize = size;
		for (int k = 0; k < npst; k++)
			if (!info.is_large && pst[k].objsize == info.real_size)
				slabsize = pst[k].slabsize;
		struct slab *slab = info.is_large ?
			slab_get_large(&cache, size) :
			slab_get(&cache, slabsize - slab_sizeof());
		if (slab != NULL) {
			probe = 1;
			if (info.is_large)
				slab_put_large(&cache, slab);
			else
				slab_put(&cache, slab);
		}
#endif
	} else {
		slots[i].ptr = ptr;
		slots[i].size = size;
		slots[i].tag = ++next_tag;
		pat_fill(ptr, size, slots[i].tag);
	}
	emit("{\"op\":\"alloc\",\"h\":%d,\"size\":%zu,\"large\":%d,"
	     "\"real\":%zu," ZFMT ",\"probe\":%d,\"ql\":%zu,\"got\":%zd",
	     ptr != NULL ? i + 1 : 0, size, info.is_large, info.real_size,
	     ZARG(ptr), probe, ql,
	     (ssize_t)(slab_cache_used(&cache) - before));
	if (ptr != NULL)
		emit_shadow(ptr, size);
	stats();
	return ptr != NULL;
}

static void
do_free(int i)
{
	int ok = pat_ok(slots[i].ptr, slots[i].size, slots[i].tag);
	size_t before = slab_cache_used(&cache);
	smfree(&alloc, slots[i].ptr, slots[i].size);
	emit("{\"op\":\"free\",\"h\":%d,\"ok\":%d,\"got\":%zd,\"ndead\":%d",
	     i + 1, ok, (ssize_t)(slab_cache_used(&cache) - before),
	     dead_bytes(slots[i].ptr, slots[i].size));
	slots[i].ptr = NULL;
	stats();
}

#ifdef ENABLE_ASAN
/** Free with a wrong size or to a wrong allocator: must be noticed. */
struct mistake {
	struct slot *s;
	int kind;
};

static void
make_mistake(void *arg)
{
	struct mistake *m = arg;
	char *p = m->s->ptr;
	static struct small_alloc other;
	static struct slab_cache other_cache;
	float f;
	if (m->kind == 0) {
		smfree(&alloc, p, m->s->size + 1);
	} else if (m->kind == 1) {
		DIRTY(&other_cache);
		slab_cache_create(&other_cache, &arena);
		DIRTY(&other);
		small_alloc_create(&other, &other_cache, 8, 8, 1.5, &f);
		/* It has enough to take the object for its own. */
		quota_lease(&other_cache.quota, m->s->size);
		other.used = alloc.used;
		other.objcount = alloc.objcount;
		smfree(&other, p, m->s->size);
	} else {
		p[-1]++;
		smfree(&alloc, p, m->s->size);
	}
}

static void
do_misuse(int i, int kind)
{
	/* The byte before, when it cannot be poisoned. */
	if (kind == 2 && ((uintptr_t)slots[i].ptr & 7) == 0)
		kind = 0;
	struct mistake m = { &slots[i], kind };
	emit("{\"op\":\"misuse\",\"kind\":%d,\"noticed\":%d", kind,
	     in_child(make_mistake, &m) == 1);
	stats();
}
#endif

static int
kth_live(long long k, size_t lo, size_t hi)
{
	int n = 0;
	for (int i = 0; i < NSLOT; i++)
		n += slots[i].ptr != NULL && slots[i].size >= lo &&
		     slots[i].size <= hi;
	if (n == 0)
		return -1;
	k = mod(k, n);
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].ptr != NULL && slots[i].size >= lo &&
		    slots[i].size <= hi && k-- == 0)
			return i;
	return -1;
}

static void
destroy(void)
{
	if (!exists)
		return;
	exists = false;
	/* Large chunks are not owned by the allocator itself. */
	for (int i = 0; i < NSLOT; i++) {
		if (slots[i].ptr == NULL)
			continue;
		struct small_alloc_info info;
		DIRTY(&info);
		small_alloc_info(&alloc, slots[i].ptr, slots[i].size, &info);
		if (info.is_large)
			do_free(i);
		slots[i].ptr = NULL;
	}
	small_alloc_destroy(&alloc);
	emit("{\"op\":\"destroy\",\"cused\":%zu}\n", slab_cache_used(&cache));
}

static void
finish(void)
{
	if (!active)
		return;
	destroy();
	active = false;
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	heap_gone();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs lg2(gran) min factor */
			finish();
			heap_begin();
			size_t q = c.a[0] * c.a[1];
#ifdef ENABLE_ASAN
			if (q < (2u << 20))
				q = 2u << 20;
#endif
			DIRTY(&quota);
			quota_init(&quota, q);
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			gran = 1u << mod(c.a[2], 9);
			float actual;
			uint32_t min = c.a[3] < 8 ? 8 : c.a[3];
			DIRTY(&alloc);
			small_alloc_create(&alloc, &cache, min, gran,
					   c.a[4] / 1000., &actual);
			active = exists = true;
			act_known = false;
			memset(was_active, 0, sizeof(was_active));
#ifdef ENABLE_ASAN
			emit("{\"op\":\"init\",\"gran\":4,\"min\":0,"
			     "\"slab\":%lld,\"hdr\":0,\"classes\":[],\"slabs\":[]",
			     c.a[0]);
#else
			emit("{\"op\":\"init\",\"gran\":%u,\"min\":%u,"
			     "\"slab\":%lld,\"hdr\":%zu,\"classes\":[",
			     gran, min, c.a[0], (size_t)mslab_sizeof());
			struct small_stats st;
			DIRTY(&st);
			npst = 0;
			small_stats(&alloc, &st, stat_cb, NULL);
			for (int i = 0; i < npst; i++)
				emit("%s%zu", i ? "," : "", pst[i].objsize);
			emit("],\"slabs\":[");
			for (int i = 0; i < npst; i++)
				emit("%s%zu", i ? "," : "", pst[i].slabsize);
			emit("]");
#endif
			stats();
			continue;
		}
		if (!active || !exists)
			continue;
		if (IS(&c, "alloc")) {
			/* alloc size [count] */
			int n = c.n > 1 ? c.a[1] : 1;
			while (n-- > 0)
				if (!do_alloc(c.a[0] < 0 ? 0 : c.a[0], false))
					break;
		} else if (IS(&c, "cls")) {
			/* cls k delta count: near the size of class k */
			npst = 0;
			struct small_stats st;
			DIRTY(&st);
			small_stats(&alloc, &st, stat_cb, NULL);
			size_t s = pst[mod(c.a[0], npst)].objsize;
			if (s == 0)
				s = 8 * mod(c.a[0], 200);
			long long size = (long long)s + c.a[1];
			int n = c.n > 2 ? c.a[2] : 1;
			while (n-- > 0)
				if (!do_alloc(size < 0 ? 0 : size, false))
					break;
		} else if (IS(&c, "huge")) {
			if (do_alloc(huge_size(c.a[0], 100000), true))
				break;
		} else if (IS(&c, "free")) {
			/* free k [count [lo hi]] */
			int n = c.n > 1 ? c.a[1] : 1;
			size_t lo = c.n > 3 ? c.a[2] : 0;
			size_t hi = c.n > 3 ? c.a[3] : SIZE_MAX;
			while (n-- > 0) {
				int i = kth_live(c.a[0], lo, hi);
				if (i < 0)
					break;
				do_free(i);
			}
#ifdef ENABLE_ASAN
		} else if (IS(&c, "misuse")) {
			int i = kth_live(c.a[0], 0, SIZE_MAX);
			if (i >= 0)
				do_misuse(i, mod(c.a[1], 3));
#endif
		} else if (IS(&c, "check")) {
			int ok = 1;
			for (int i = 0; i < NSLOT; i++)
				if (slots[i].ptr != NULL)
					ok &= pat_ok(slots[i].ptr,
						     slots[i].size,
						     slots[i].tag);
			small_alloc_check(&alloc);
			emit("{\"op\":\"check\",\"ok\":%d", ok);
			stats();
		} else if (IS(&c, "destroy")) {
			destroy();
		}
	}
	finish();
	drv_finish();
	return 0;
}
