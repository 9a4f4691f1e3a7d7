/* Conformance driver: region on top of slab_cache. */
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/region.h>

#include <stdalign.h>

struct t16 { long long a, b; };
struct t40 { char c[40]; } __attribute__((aligned(8)));
struct t64 { char c[64]; } __attribute__((aligned(64)));
struct t7 { char c[7]; };

/* region_guard.cpp */
void
region_guarded(struct region *r, void (*fn)(void *), void *arg);

enum { NREG = 2, NENT = 2048 };

/** A live piece of a region, bottom of the stack first. */
struct ent {
	char *ptr;
	/** `orig' is the size at allocation, `size' what is left of it. */
	size_t before, after, size, orig;
	unsigned tag;
	int h;
};

static struct reg {
	struct region r;
	struct ent e[NENT];
	int n;
	/** Outstanding reservation. */
	char *rptr;
	size_t rsize, ral;
	/** What the callbacks were told. */
	int cbn, tbn;
	size_t cbs, tbs;
	/** What region_used() said inside of them. */
	size_t cbu, tbu;
} reg[NREG];

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static bool active;
static unsigned next_tag;
static int next_h;

static void
on_alloc(struct region *r, size_t size, void *arg)
{
	struct reg *g = arg;
	g->cbu = region_used(r);
	g->cbn++;
	g->cbs = size;
}

static void
on_truncate(struct region *r, size_t used, void *arg)
{
	struct reg *g = arg;
	g->tbu = region_used(r);
	g->tbn++;
	g->tbs = used;
}

static void
stats(struct reg *g)
{
	emit(",\"used\":%zu,\"total\":%zu,\"cused\":%zu,\"cbn\":%d,"
	     "\"cbs\":%zu,\"cbu\":%zu,\"tbn\":%d,\"tbs\":%zu,\"tbu\":%zu}\n",
	     region_used(&g->r),
	     region_total(&g->r), slab_cache_used(&cache), g->cbn, g->cbs,
	     g->cbu, g->tbn, g->tbs, g->tbu);
	g->cbn = g->tbn = 0;
	g->cbs = g->tbs = g->cbu = g->tbu = 0;
}

static int
content_ok(struct reg *g)
{
	int ok = 1;
	for (int i = 0; i < g->n; i++)
		ok &= pat_ok_prefix(g->e[i].ptr, g->e[i].orig,
				    g->e[i].size, g->e[i].tag);
	return ok;
}

static int
all_ok(void)
{
	int ok = 1;
	for (int i = 0; i < NREG; i++)
		ok &= content_ok(&reg[i]);
	return ok;
}

/** Forget what is above the mark. */
static void
forget(struct reg *g, size_t to)
{
	while (g->n > 0 && g->e[g->n - 1].before >= to)
		g->n--;
	if (g->n > 0 && g->e[g->n - 1].after > to) {
		struct ent *e = &g->e[g->n - 1];
		size_t pad = e->after - e->before - e->size;
		size_t left = to - e->before;
		if (left <= pad) {
			/* Only padding is left. */
			e->size = 0;
			e->before = to - left;
		} else {
			e->size = left - pad;
		}
		e->after = to;
	}
	g->rptr = NULL;
}

static int
probe(size_t size)
{
#ifndef ENABLE_ASAN
	struct slab *slab = slab_get(&cache, size + 512);
	if (slab != NULL) {
		slab_put(&cache, slab);
		return 1;
	}
#endif
	return 0;
}

static void
push(struct reg *g, char *ptr, size_t size, size_t before)
{
	struct ent *e = &g->e[g->n++];
	e->ptr = ptr;
	e->size = e->orig = size;
	e->before = before;
	e->after = region_used(&g->r);
	e->tag = ++next_tag;
	e->h = ++next_h;
	pat_fill(ptr, size, e->tag);
}

static void
do_alloc(struct reg *g, size_t size, size_t al, int how)
{
	if (g->n == NENT)
		return;
	if (how > 1 && g->rptr != NULL)
		how = 0;
	if (g->rptr != NULL) {
		/* Must honour the reservation. */
		al = g->ral;
		if (size > g->rsize)
			size = g->rsize;
	}
	size_t before = region_used(&g->r);
	char *ptr;
	/* Objects and arrays tell the size of what they have taken. */
	size_t n = 1 + size / 16;
#define ARRAY(T) ({ al = alignof(T); how % 2 == 0 ?				\
	(char *)region_alloc_object(&g->r, T, &size) :				\
	(char *)region_alloc_array(&g->r, T, n, &size); })
	if (how == 2 || how == 3)
		ptr = ARRAY(struct t16);
	else if (how == 4 || how == 5)
		ptr = ARRAY(struct t40);
	else if (how == 6 || how == 7)
		ptr = ARRAY(struct t64);
	else if (how == 8 || how == 9)
		ptr = ARRAY(struct t7);
	else if (al == 1 && how == 1)
		ptr = region_alloc_cb(&g->r, size);
	else if (al == 1)
		ptr = region_alloc(&g->r, size);
	else
		ptr = region_aligned_alloc(&g->r, size, al);
	int p = 0, h = 0;
	if (ptr != NULL) {
		push(g, ptr, size, before);
		h = next_h;
	} else {
		p = probe(size + al);
	}
	static const int tsize[] = { 16, 40, 64, 7 };
	int want = how < 2 ? (int)size :
		   tsize[how / 2 - 1] * (how % 2 == 0 ? 1 : (int)n);
	emit("{\"op\":\"alloc\",\"r\":%d,\"h\":%d,\"size\":%zu,\"want\":%d,"
	     "\"al\":%zu," ZFMT ",\"probe\":%d", (int)(g - reg) + 1, h, size,
	     want, al, ZARG(ptr), p);
	if (ptr != NULL)
		emit_shadow(ptr, size);
	stats(g);
	g->rptr = NULL;
}

static void
do_reserve(struct reg *g, size_t size, size_t al, int how)
{
	if (g->rptr != NULL)
		return;
	char *ptr;
	size_t got = size;
	if (al == 1 && how == 1)
		ptr = region_reserve_cb(&g->r, &got);
	else if (al == 1)
		ptr = region_reserve(&g->r, size);
	else
		ptr = region_aligned_reserve(&g->r, size, al);
	int p = 0;
	if (ptr != NULL) {
		g->rptr = ptr;
		g->rsize = got;
		g->ral = al;
		/* The owner may write all of it. */
		pat_fill(ptr, got, ++next_tag);
	} else {
		p = probe(size + al);
		got = 0;
	}
	emit("{\"op\":\"reserve\",\"r\":%d,\"okp\":%d,\"size\":%zu,\"al\":%zu,"
	     "\"got\":%zu,\"cbk\":%d," ZFMT ",\"probe\":%d",
	     (int)(g - reg) + 1, ptr != NULL, size, al, got, how == 1 &&
	     al == 1, ZARG(ptr), p);
	stats(g);
}

static void
do_truncate(struct reg *g, size_t to)
{
	/* What is going to die, for the checked build. */
	struct ent dead[64];
	int nd = 0;
	for (int i = g->n - 1; i >= 0 && nd < 64 && g->e[i].before >= to; i--)
		dead[nd++] = g->e[i];
	int ok0 = content_ok(g);
	region_truncate(&g->r, to);
	forget(g, to);
	int un = 0;
	for (int i = 0; i < nd; i++)
		un += dead_bytes(dead[i].ptr, dead[i].size);
	emit("{\"op\":\"truncate\",\"r\":%d,\"to\":%zu,\"ok\":%d,\"ndead\":%d,"
	     "\"live\":%d", (int)(g - reg) + 1, to, ok0 && all_ok(), un, g->n);
	stats(g);
}

static void
do_join(struct reg *g, size_t size)
{
	size_t used = region_used(&g->r);
	if (g->rptr != NULL || used == 0 || g->n == NENT)
		return;
	size = 1 + (size - 1) % used;
	int ok0 = all_ok();
	char *ptr = region_join(&g->r, size);
	int ok = 1, h = 0, p = 0;
	size_t now = region_used(&g->r);
	if (ptr != NULL) {
		/* Every byte of a live piece among the last `size' ones. */
		size_t from = used - size;
		for (int i = g->n - 1; i >= 0 && g->e[i].after > from; i--) {
			struct ent *e = &g->e[i];
			size_t start = e->after - e->size;
			size_t skip = start < from ? from - start : 0;
			for (size_t k = 0; k < e->size;
			     k = pat_next(k, e->orig))
				if (k >= skip && (unsigned char)ptr[start + k - from] !=
				    pat_byte(e->tag, k))
					ok = 0;
		}
		ok &= all_ok();
	} else {
		p = probe(size + 1);
	}
	emit("{\"op\":\"join\",\"r\":%d,\"size\":%zu,\"okp\":%d,\"ok\":%d,"
	     "\"copied\":%d,\"h\":%d," ZFMT ",\"probe\":%d",
	     (int)(g - reg) + 1, size, ptr != NULL, ok0 & ok, now != used,
	     ptr != NULL && now != used ? next_h + 1 : h, ZARG(ptr), p);
	if (ptr != NULL)
		emit_shadow(ptr, now != used ? size : 0);
	if (ptr != NULL && now != used)
		push(g, ptr, size, used);
	stats(g);
}

/** What happens between the creation and the destruction of a guard. */
struct inside {
	struct reg *g;
	struct cmd *c;
};

static void
in_guard(void *arg)
{
	struct inside *in = arg;
	for (int i = 1; i + 1 < in->c->n; i += 2)
		do_alloc(in->g, 1 + mod(in->c->a[i], 100000),
			 (size_t)1 << mod(in->c->a[i + 1], 13), 0);
}

static void
do_guard(struct reg *g, struct cmd *c)
{
	if (g->rptr != NULL)
		return;
	size_t used = region_used(&g->r);
	struct inside in = { g, c };
	region_guarded(&g->r, in_guard, &in);
	forget(g, used);
	emit("{\"op\":\"truncate\",\"r\":%d,\"to\":%zu,\"ok\":%d,\"ndead\":0,"
	     "\"live\":%d", (int)(g - reg) + 1, used, all_ok(), g->n);
	stats(g);
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	for (int i = 0; i < NREG; i++) {
		region_destroy(&reg[i].r);
		forget(&reg[i], 0);
	}
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	heap_gone();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs */
			finish();
			heap_begin();
			DIRTY(&quota);
			quota_init(&quota, quota_for(c.a[0] * c.a[1]));
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			for (int i = 0; i < NREG; i++) {
				memset(&reg[i], 0, sizeof(reg[i]));
				DIRTY(&reg[i].r);
				region_create(&reg[i].r, &cache);
				/* Nobody is to be told anything yet. */
				if (region_alloc(&reg[i].r, 10) != NULL)
					region_truncate(&reg[i].r, 0);
				region_free(&reg[i].r);
				region_set_callbacks(&reg[i].r, on_alloc,
						     on_truncate, &reg[i]);
			}
			active = true;
#ifdef ENABLE_ASAN
			int hdr = -1;
#else
			/* Room taken by the header of a region's block. */
			size_t got = 1;
			void *ptr = region_reserve_cb(&reg[0].r, &got);
			int hdr = ptr == NULL ? -1 :
				  (int)(region_total(&reg[0].r) - got);
			region_free(&reg[0].r);
			reg[0].tbn = 0;
#endif
			emit("{\"op\":\"init\",\"hdr\":%d}\n", hdr);
			continue;
		}
		if (!active)
			continue;
		struct reg *g = &reg[mod(c.a[0], NREG)];
		size_t size = c.a[1] < 1 ? 1 : c.a[1];
		size_t al = (size_t)1 << mod(c.a[2], 13);
		if (IS(&c, "alloc")) {
			/* alloc r size lg2(alignment) how */
			do_alloc(g, size, al, mod(c.a[3], 10));
		} else if (IS(&c, "guard")) {
			/* guard r (size lg2(alignment))... */
			do_guard(g, &c);
		} else if (IS(&c, "reserve")) {
			do_reserve(g, size, al, c.a[3]);
		} else if (IS(&c, "huge")) {
			/* huge r k lg2(alignment): see huge_size() */
			if (g->rptr != NULL)
				continue;
#ifndef ENABLE_ASAN
			size = huge_size(c.a[1], 100000);
			char *ptr = al == 1 ? region_alloc(&g->r, size) :
				    region_aligned_alloc(&g->r, size, al);
			emit("{\"op\":\"huge\",\"r\":%d,\"okp\":%d",
			     (int)(g - reg) + 1, ptr != NULL);
			stats(g);
#endif
		} else if (IS(&c, "truncate")) {
			/* truncate r k: to the k-th border from the bottom */
			int k = mod(c.a[1], g->n + 1);
			size_t to = k == 0 ? 0 : g->e[k - 1].after;
			do_truncate(g, to);
		} else if (IS(&c, "cut")) {
			/* cut r n: drop n last bytes */
			size_t used = region_used(&g->r);
			size_t n = mod(c.a[1], used + 1);
			size_t to = used - n;
#ifdef ENABLE_ASAN
			/* Only borders are allowed. */
			int k = 0;
			while (k < g->n && g->e[k].after <= to)
				k++;
			to = k == 0 ? 0 : g->e[k - 1].after;
#endif
			do_truncate(g, to);
		} else if (IS(&c, "near")) {
			/*
			 * near r 0/1 k d: truncate or join the pieces and d bytes
			 * more, or less
			 */
			int k = mod(c.a[2], g->n + 1);
			size_t used = region_used(&g->r);
			size_t from = k == 0 ? 0 : g->e[k - 1].after;
			if (from > used || used - from + c.a[3] > used)
				continue;
			from -= c.a[3];
			if (c.a[1] == 1) {
				do_join(g, used - from);
				continue;
			}
#ifndef ENABLE_ASAN
			do_truncate(g, from);
#endif
		} else if (IS(&c, "join")) {
			do_join(g, size);
		} else if (IS(&c, "reset")) {
			int ok = all_ok();
			region_reset(&g->r);
			forget(g, 0);
			emit("{\"op\":\"reset\",\"r\":%d,\"ok\":%d",
			     (int)(g - reg) + 1, ok);
			stats(g);
		} else if (IS(&c, "free")) {
			int ok = all_ok();
#ifndef ENABLE_ASAN
			if (c.a[1] == 1) {
				/* Frees all of it or nothing. */
				size_t used = region_used(&g->r);
				region_free_after(&g->r, c.a[2]);
				if (used > (size_t)c.a[2])
					forget(g, 0);
				emit("{\"op\":\"freeafter\",\"r\":%d,"
				     "\"after\":%lld,\"ok\":%d",
				     (int)(g - reg) + 1, c.a[2], ok);
				stats(g);
				continue;
			}
#endif
			region_free(&g->r);
			forget(g, 0);
			emit("{\"op\":\"free\",\"r\":%d,\"ok\":%d",
			     (int)(g - reg) + 1, ok);
			stats(g);
		} else if (IS(&c, "check")) {
			emit("{\"op\":\"check\",\"r\":%d,\"ok\":%d",
			     (int)(g - reg) + 1, all_ok());
			stats(g);
		}
	}
	finish();
	drv_finish();
	return 0;
}
