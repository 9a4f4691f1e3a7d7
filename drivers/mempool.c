/* Conformance driver: mempool on top of slab_cache. */
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/mempool.h>

enum { NSLOT = 4096, NPOOL = 3 };
static struct slot {
	char *ptr;
	int pool;
	unsigned tag;
} slots[NSLOT];
static int nlive;

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static struct mempool pool[NPOOL];
static bool has[NPOOL];
static size_t slabsize[NPOOL];
static bool active;
static unsigned next_tag;
static uintptr_t ref;

static void
stats(int p)
{
	struct mempool_stats st;
	DIRTY(&st);
	mempool_stats(&pool[p], &st);
	emit("\"more\":[%zu,%zu,%u,%u,%d],", (size_t)st.totals.used,
	     mempool_count(&pool[p]), st.objsize, st.slabsize,
	     mempool_is_initialized(&pool[p]));
	emit("\"cnt\":%zu,\"used\":%zu,\"nslabs\":%u,\"total\":%zu,"
	     "\"cused\":%zu,\"avail\":%zu}\n", (size_t)st.objcount,
	     mempool_used(&pool[p]), st.slabcount, mempool_total(&pool[p]),
	     slab_cache_used(&cache), (size_t)st.totals.total);
}

static uintptr_t
slab_of(int i)
{
	return (uintptr_t)slots[i].ptr & ~(slabsize[slots[i].pool] - 1);
}

static int
slab_num(uintptr_t base)
{
	if (ref == 0)
		ref = base;
	intptr_t d = (intptr_t)base - (intptr_t)ref;
	return (int)(d / 4096);
}

static void
do_free(int i)
{
	int p = slots[i].pool;
	int ok = pat_ok(slots[i].ptr, pool[p].objsize, slots[i].tag);
	mempool_free(&pool[p], slots[i].ptr);
	slots[i].ptr = NULL;
	nlive--;
	emit("{\"op\":\"free\",\"h\":%d,\"ok\":%d,", i + 1, ok);
	stats(p);
}

static void
do_alloc(int p)
{
	int i = 0;
	while (i < NSLOT && slots[i].ptr != NULL)
		i++;
	if (i == NSLOT)
		return;
	char *ptr = mempool_alloc(&pool[p]);
	int probe = 0, s = 0;
	size_t off = 0;
	if (ptr == NULL) {
		/* Is there really no memory? */
		struct slab *slab = slab_get_with_order(&cache,
							pool[p].slab_order);
		if (slab != NULL) {
			probe = 1;
			slab_put(&cache, slab);
		}
	} else {
		slots[i].ptr = ptr;
		slots[i].pool = p;
		slots[i].tag = ++next_tag;
		nlive++;
		uintptr_t base = slab_of(i);
		s = slab_num(base);
		off = (uintptr_t)ptr - base;
		pat_fill(ptr, pool[p].objsize, slots[i].tag);
	}
	emit("{\"op\":\"alloc\",\"p\":%d,\"h\":%d,\"s\":%d,\"off\":%zu,"
	     "\"probe\":%d,", p + 1, ptr != NULL ? i + 1 : 0, s, off, probe);
	stats(p);
}

static int
kth_live(int p, long long k)
{
	int n = 0;
	for (int i = 0; i < NSLOT; i++)
		n += slots[i].ptr != NULL && (p < 0 || slots[i].pool == p);
	if (n == 0)
		return -1;
	k = mod(k, n);
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].ptr != NULL && (p < 0 || slots[i].pool == p) &&
		    k-- == 0)
			return i;
	return -1;
}

/* Objects allocated many at a time, a stack. */
enum { NBULK = 1 << 20, NRUN = 300 };
static struct bulk {
	char **ptr;
	int n;
} bulk[NPOOL];

struct run {
	int s;
	size_t off, n;
};

static void
emit_runs(const char *op, int p, struct run *r, int n)
{
	emit("{\"op\":\"%s\",\"p\":%d,\"q\":[", op, p + 1);
	for (int i = 0; i < n; i++)
		emit("%s[%d,%zu,%zu]", i ? "," : "", r[i].s, r[i].off,
		     r[i].n);
	emit("],");
}

/** Add an object to the runs; false if there are too many of them. */
static bool
run_add(int p, struct run *r, int *n, char *ptr)
{
	uintptr_t base = (uintptr_t)ptr & ~(slabsize[p] - 1);
	int s = slab_num(base);
	size_t off = (uintptr_t)ptr - base, sz = pool[p].objsize;
	if (*n > 0 && r[*n - 1].s == s) {
		struct run *l = &r[*n - 1];
		if (off == l->off + l->n * sz) {
			l->n++;
			return true;
		}
		if (off + sz == l->off) {
			l->off = off;
			l->n++;
			return true;
		}
	}
	if (*n == NRUN)
		return false;
	r[*n] = (struct run){ s, off, 1 };
	++*n;
	return true;
}

static void
do_fill(int p, long long cnt)
{
	struct bulk *b = &bulk[p];
	if (b->ptr == NULL)
		b->ptr = malloc(sizeof(*b->ptr) * NBULK);
	static struct run r[NRUN + 1];
	int n = 0;
	bool fail = false, probe = false;
	while (cnt-- > 0 && b->n < NBULK && n < NRUN - 1) {
		char *ptr = mempool_alloc(&pool[p]);
		if (ptr == NULL) {
			fail = true;
			struct slab *slab = slab_get_with_order(
				&cache, pool[p].slab_order);
			if (slab != NULL) {
				probe = true;
				slab_put(&cache, slab);
			}
			break;
		}
		run_add(p, r, &n, ptr);
		pat_fill(ptr, pool[p].objsize, b->n);
		b->ptr[b->n++] = ptr;
	}
	emit_runs("runs", p, r, n);
	emit("\"fail\":%d,\"probe\":%d,", fail, probe);
	stats(p);
}

static void
do_drain(int p, long long cnt)
{
	struct bulk *b = &bulk[p];
	static struct run r[NRUN + 1];
	int n = 0, ok = 1;
	while (cnt-- > 0 && b->n > 0 && n < NRUN - 1) {
		char *ptr = b->ptr[--b->n];
		run_add(p, r, &n, ptr);
		ok &= pat_ok(ptr, pool[p].objsize, b->n);
		mempool_free(&pool[p], ptr);
	}
	emit_runs("freeruns", p, r, n);
	emit("\"ok\":%d,", ok);
	stats(p);
}

static void
destroy(int p)
{
	if (!has[p])
		return;
	has[p] = false;
	bulk[p].n = 0;
	for (int i = 0; i < NSLOT; i++)
		if (slots[i].ptr != NULL && slots[i].pool == p) {
			slots[i].ptr = NULL;
			nlive--;
		}
	mempool_destroy(&pool[p]);
	emit("{\"op\":\"destroy\",\"p\":%d,\"cused\":%zu,\"init\":%d}\n",
	     p + 1, slab_cache_used(&cache), mempool_is_initialized(&pool[p]));
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	for (int p = 0; p < NPOOL; p++)
		destroy(p);
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	for (int p = 0; p < NPOOL; p++) {
		free(bulk[p].ptr);
		bulk[p].ptr = NULL;
	}
	heap_gone();
}

static int
cmp_addr(const void *a, const void *b)
{
	uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b;
	return x < y ? -1 : x > y;
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs */
			finish();
			heap_begin();
			ref = 0;
			DIRTY(&quota);
			quota_init(&quota, c.a[0] * c.a[1]);
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			active = true;
			/* Objects of that size fit. */
			size_t big_ss = 4096;
			emit("{\"op\":\"init\",\"hdr\":%zu,\"max\":[",
			     (size_t)mslab_sizeof());
			for (int i = 0; i < 19; i++)
				emit("%s%u", i > 0 ? "," : "",
				     mempool_objsize_max(big_ss << i));
			emit("]}\n");
			continue;
		}
		if (!active)
			continue;
		int p = mod(c.a[0], NPOOL);
		if (IS(&c, "create")) {
			/* create pool objsize [order + 1] */
			if (has[p])
				continue;
			DIRTY(&pool[p]);
			if (c.a[2] > 0)
				mempool_create_with_order(
					&pool[p], &cache, c.a[1],
					mod(c.a[2] - 1, cache.order_max + 1));
			else
				mempool_create(&pool[p], &cache, c.a[1]);
			has[p] = true;
			slabsize[p] = slab_order_size(&cache,
						      pool[p].slab_order);
			emit("{\"op\":\"create\",\"p\":%d,\"objsize\":%u,"
			     "\"slabsize\":%zu,\"cap\":%u,\"hdr\":%zu}\n", p + 1,
			     pool[p].objsize, slabsize[p], pool[p].objcount,
			     (size_t)mslab_sizeof());
		} else if (IS(&c, "alloc")) {
			/* alloc pool [count] */
			if (!has[p])
				continue;
			int n = c.n > 1 ? c.a[1] : 1;
			while (n-- > 0)
				do_alloc(p);
		} else if (IS(&c, "free")) {
			/* free pool k [count] */
			int n = c.n > 2 ? c.a[2] : 1;
			while (n-- > 0) {
				int i = kth_live(p, c.a[1]);
				if (i < 0)
					break;
				do_free(i);
			}
		} else if (IS(&c, "freeslab")) {
			/* freeslab pool rank count: in the rank-th slab */
			uintptr_t b[NSLOT];
			int n = 0;
			for (int i = 0; i < NSLOT; i++) {
				if (slots[i].ptr == NULL || slots[i].pool != p)
					continue;
				int j = 0;
				while (j < n && b[j] != slab_of(i))
					j++;
				if (j == n)
					b[n++] = slab_of(i);
			}
			if (n == 0)
				continue;
			qsort(b, n, sizeof(*b), cmp_addr);
			uintptr_t base = b[mod(c.a[1], n)];
			int cnt = c.n > 2 ? c.a[2] : 1;
			for (int i = 0; i < NSLOT && cnt > 0; i++) {
				if (slots[i].ptr != NULL &&
				    slots[i].pool == p && slab_of(i) == base) {
					do_free(i);
					cnt--;
				}
			}
		} else if (IS(&c, "fill") && has[p]) {
			/* fill pool count */
			do_fill(p, c.a[1]);
		} else if (IS(&c, "drain") && has[p]) {
			/* drain pool count */
			do_drain(p, c.a[1]);
		} else if (IS(&c, "check")) {
			int ok = 1;
			for (int i = 0; i < NSLOT; i++)
				if (slots[i].ptr != NULL)
					ok &= pat_ok(slots[i].ptr,
						     pool[slots[i].pool].objsize,
						     slots[i].tag);
			slab_cache_check(&cache);
			emit("{\"op\":\"check\",\"ok\":%d}\n", ok);
		} else if (IS(&c, "destroy")) {
			destroy(p);
		}
	}
	finish();
	drv_finish();
	return 0;
}
