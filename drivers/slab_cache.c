/* Conformance driver: slab_cache on top of slab_arena and quota. */
#define DRV_OWN_MALLOC
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>

static int fail_mmap, skip_mmap, fail_malloc, in_lib, faults;

void *__real_mmap(void *, size_t, int, int, int, off_t);
void *
__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o)
{
	if (in_lib && fail_mmap > 0 && skip_mmap-- <= 0) {
		fail_mmap--;
		faults++;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	return __real_mmap(a, n, p, f, fd, o);
}

void *
__wrap_malloc(size_t n)
{
	if (in_lib && fail_malloc > 0) {
		fail_malloc--;
		faults++;
		errno = ENOMEM;
		return NULL;
	}
	return heap_count(__real_malloc(n));
}

enum { NSLOT = 64 };
static struct slot {
	struct slab *slab;
	unsigned tag;
	bool large;
} slots[NSLOT];

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static bool active;
static struct amap amap;
static unsigned next_tag;

static void
stats(void)
{
	emit("\"used\":%zu,\"total\":%zu,\"qused\":%zu",
	     slab_cache_used(&cache), cache.allocated.stats.total,
	     quota_used(&quota) / QUOTA_UNIT_SIZE);
	emit(",\"ou\":[");
	for (int i = 0; i <= cache.order_max; i++)
		emit("%s%zu", i ? "," : "", cache.orders[i].stats.used);
	emit("],\"ot\":[");
	for (int i = 0; i <= cache.order_max; i++)
		emit("%s%zu", i ? "," : "", cache.orders[i].stats.total);
	emit("]}\n");
}

static int
free_slot(void)
{
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].slab == NULL)
			return i;
	return -1;
}

static int
kth_live(long long k)
{
	int n = 0;
	for (int i = 0; i < NSLOT; i++)
		n += slots[i].slab != NULL;
	if (n == 0)
		return -1;
	k = mod(k, n);
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].slab != NULL && k-- == 0)
			return i;
	return -1;
}

static int
slot_ok(int i)
{
	return pat_ok(slab_data(slots[i].slab), slab_capacity(slots[i].slab),
		      slots[i].tag);
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	/* Large slabs were freed; how many slabs wait in the arena? */
	size_t qused = quota_used(&quota);
	size_t lim = qused > 0 ? qused : 1;
	(void)quota_set(&quota, lim);
	void *ptrs[4096];
	int n = 0;
	in_lib = 1;
	/* Not more than what has been mapped: the quota is exhausted. */
	while (n < 4096 && (size_t)n * arena.slab_size < qused) {
		void *p = slab_map(&arena);
		if (p == NULL)
			break;
		ptrs[n++] = p;
	}
	in_lib = 0;
	emit("{\"op\":\"destroy\",\"avail\":%d,\"qused\":%zu}\n", n,
	     quota_used(&quota) / QUOTA_UNIT_SIZE);
	for (int i = 0; i < n; i++)
		slab_unmap(&arena, ptrs[i]);
	slab_arena_destroy(&arena);
	heap_gone();
	memset(slots, 0, sizeof(slots));
}

static void
got(const char *op, const char *argname, long long arg, struct slab *slab,
    int i, bool large)
{
	int s = 0;
	size_t off = 0, bsize = 0;
	if (slab != NULL) {
		slots[i].slab = slab;
		slots[i].tag = ++next_tag;
		slots[i].large = large;
		uintptr_t addr = (uintptr_t)slab;
		bsize = slab_capacity(slab) + slab_sizeof();
		if (!large) {
			uintptr_t base = addr & ~((uintptr_t)arena.slab_size - 1);
			s = amap_id(&amap, base);
			off = addr - base;
		}
		pat_fill(slab_data(slab), slab_capacity(slab), slots[i].tag);
	}
	emit("{\"op\":\"%s\",\"%s\":%lld,\"h\":%d,\"s\":%d,\"off\":%zu,"
	     "\"bsize\":%zu,\"fault\":%d,", op, argname, arg,
	     slab != NULL ? i + 1 : 0, s, off, bsize, faults);
	stats();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		faults = 0;
		if (IS(&c, "init")) {
			/* init slab_size prealloc quota_kb */
			finish();
			heap_begin();
			memset(&amap, 0, sizeof(amap));
			fail_mmap = fail_malloc = 0;
			DIRTY(&quota);
			quota_init(&quota, c.a[2] * QUOTA_UNIT_SIZE);
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, c.a[1], c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			active = true;
			emit("{\"op\":\"init\",\"slab\":%u,\"order0\":%u,"
			     "\"omax\":%d,\"hdr\":%zu,\"quota\":%zu}\n",
			     arena.slab_size, cache.order0_size,
			     cache.order_max, slab_sizeof(),
			     quota_total(&quota) / QUOTA_UNIT_SIZE);
		} else if (!active) {
			continue;
		} else if (IS(&c, "get")) {
			int i = free_slot();
			if (i < 0)
				continue;
			in_lib = 1;
			struct slab *slab = slab_get(&cache, c.a[0]);
			in_lib = 0;
			got("get", "size", c.a[0], slab, i,
			    c.a[0] + slab_sizeof() > arena.slab_size);
		} else if (IS(&c, "getord")) {
			int i = free_slot();
			if (i < 0)
				continue;
			int order = mod(c.a[0], cache.order_max + 1);
			in_lib = 1;
			struct slab *slab = slab_get_with_order(&cache, order);
			in_lib = 0;
			got("getord", "order", order, slab, i, false);
		} else if (IS(&c, "getlarge")) {
			int i = free_slot();
			if (i < 0)
				continue;
			long long size = arena.slab_size + c.a[0];
			in_lib = 1;
			struct slab *slab = slab_get_large(&cache, size);
			in_lib = 0;
			got("getlarge", "size", size, slab, i, true);
		} else if (IS(&c, "gethuge")) {
			in_lib = 1;
			struct slab *slab = slab_get(&cache, huge_size(
					c.a[0], 1000000));
			in_lib = 0;
			emit("{\"op\":\"gethuge\",\"h\":%d,", slab != NULL);
			stats();
		} else if (IS(&c, "put") || IS(&c, "puth")) {
			int i = IS(&c, "put") ? kth_live(c.a[0]) : c.a[0] - 1;
			if (i < 0 || slots[i].slab == NULL)
				continue;
			int ok = slot_ok(i);
			slab_put(&cache, slots[i].slab);
			slots[i].slab = NULL;
			emit("{\"op\":\"put\",\"h\":%d,\"ok\":%d,", i + 1, ok);
			stats();
		} else if (IS(&c, "check")) {
			int ok = 1;
			for (int i = 0; i < NSLOT; i++)
				if (slots[i].slab != NULL)
					ok &= slot_ok(i);
			slab_cache_check(&cache);
			emit("{\"op\":\"check\",\"ok\":%d}\n", ok);
		} else if (IS(&c, "realsize")) {
			emit("{\"op\":\"realsize\",\"size\":%lld,\"res\":%zu}\n",
			     c.a[0], slab_real_size(&cache, c.a[0]));
		} else if (IS(&c, "quota")) {
			ssize_t r = quota_set(&quota, c.a[0] * QUOTA_UNIT_SIZE);
			emit("{\"op\":\"quota\",\"units\":%lld,\"res\":%d,",
			     c.a[0], r >= 0 ? 1 : -1);
			stats();
		} else if (IS(&c, "failmap")) {
			skip_mmap = c.a[0];
			fail_mmap = c.a[1];
		} else if (IS(&c, "failmalloc")) {
			fail_malloc = c.a[0];
		}
	}
	finish();
	drv_finish();
	return 0;
}
