/* Conformance driver: lsregion on top of slab_arena. */
#include "drv.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/lsregion.h>

#include <stdalign.h>

struct t24 { long long a[3]; };
struct t128 { char c[128]; } __attribute__((aligned(64)));

enum { NSVP = 2, NENT = 1024, NIOV = 256 };

struct ent {
	char *ptr;
	size_t size;
	unsigned tag;
	int64_t id;
};

static struct lsregion ls;
static struct quota quota;
static struct slab_arena arena;
static bool active;
static struct ent ent[NENT];
static int n, next_h;
static struct lsregion_svp svp[NSVP];
static int64_t next_id;
/** Outstanding reservation. */
static size_t resv, ral;
static bool destroyed;

static void
state(void)
{
	emit(",\"used\":%zu,\"total\":%zu,\"quota\":%zu}\n",
	     lsregion_used(&ls), lsregion_total(&ls), quota_used(&quota));
}

static int
all_ok(void)
{
	int ok = 1;
	for (int i = 0; i < n; i++)
		ok &= pat_ok(ent[i].ptr, ent[i].size, ent[i].tag);
	return ok;
}

static int
probe(size_t size, size_t al)
{
#ifndef ENABLE_ASAN
	size_t need = size + al - 1 + lslab_sizeof();
	if (need > arena.slab_size) {
		ssize_t r = quota_use(&quota, need);
		if (r >= 0)
			quota_release(&quota, need);
		return r >= 0;
	}
	void *slab = slab_map(&arena);
	if (slab != NULL)
		slab_unmap(&arena, slab);
	return slab != NULL;
#endif
	(void)size;
	(void)al;
	return 0;
}

static void
do_alloc(size_t size, size_t al, int64_t id)
{
	if (n == NENT)
		return;
	if (resv != 0) {
		al = ral;
		if (size > resv)
			size = resv;
	}
	char *ptr = al == 1 ? lsregion_alloc(&ls, size, id) :
		    al == 8 && size == 24 ?
		    (char *)lsregion_alloc_object(&ls, id, struct t24) :
		    al == 64 && size == 128 ?
		    (char *)lsregion_alloc_object(&ls, id, struct t128) :
		    lsregion_aligned_alloc(&ls, size, al, id);
	int h = 0, p = 0;
	if (ptr != NULL) {
		struct ent *e = &ent[n++];
		e->ptr = ptr;
		e->size = size;
		e->tag = h = ++next_h;
		e->id = id;
		pat_fill(ptr, size, e->tag);
		next_id = id;
		resv = 0;
	} else {
		p = probe(size, al);
	}
	emit("{\"op\":\"alloc\",\"h\":%d,\"n\":%zu,\"al\":%zu,\"id\":%lld,"
	     ZFMT ",\"probe\":%d", h, size, al, (long long)id, ZARG(ptr), p);
	if (ptr != NULL)
		emit_shadow(ptr, size);
	state();
}

static void
do_reserve(size_t size, size_t al)
{
	if (resv != 0)
		return;
	void *start = NULL;
	char *ptr;
#ifdef ENABLE_ASAN
	ptr = al == 1 ? lsregion_reserve(&ls, size) :
	      lsregion_aligned_reserve(&ls, size, al);
	start = ptr;
#else
	if (al == 1)
		start = ptr = lsregion_reserve(&ls, size);
	else
		ptr = lsregion_aligned_reserve(&ls, size, al, &start);
#endif
	int p = 0;
	if (ptr != NULL) {
		resv = size;
		ral = al;
		memset(ptr, 0xfe, size);
	} else {
		p = probe(size, al);
		start = NULL;
	}
	emit("{\"op\":\"reserve\",\"n\":%zu,\"al\":%zu,\"okp\":%d," ZFMT
	     ",\"sz\":%d,\"soff\":%d,\"probe\":%d", size, al, ptr != NULL,
	     ZARG(ptr), ZARG(start), p);
	state();
}

static void
do_gc(int64_t id)
{
	static struct ent dead[NENT];
	int nd = 0, m = 0, ok = all_ok();
	for (int i = 0; i < n; i++) {
		if (ent[i].id <= id)
			dead[nd++] = ent[i];
		else
			ent[m++] = ent[i];
	}
	n = m;
	lsregion_gc(&ls, id);
	int un = 0;
	for (int i = 0; i < nd; i++)
		un += dead_bytes(dead[i].ptr, dead[i].size);
	/* The reservation is gone if there is nothing younger. */
	if (n == 0)
		resv = 0;
	emit("{\"op\":\"gc\",\"id\":%lld,\"ok\":%d,\"ndead\":%d",
	     (long long)id, ok && all_ok(), un);
	state();
}

static void
do_flush(int k, int max)
{
	struct iovec iov[NIOV + 1];
	int cnt = max > NIOV ? NIOV : max;
	max = cnt;
	int64_t id = lsregion_to_iovec(&ls, iov, &cnt, &svp[k]);
	emit("{\"op\":\"flush\",\"k\":%d,\"max\":%d,\"cnt\":%d,\"id\":%lld,"
	     "\"ok\":%d,\"vecs\":[", k + 1, max, cnt, (long long)id, all_ok());
	for (int i = 0; i < cnt; i++)
		emit("%s{\"at\":[%d,%d],\"len\":%zu}", i > 0 ? "," : "",
		     ZARG(iov[i].iov_base), iov[i].iov_len);
	emit("]");
	state();
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	int ok = all_ok();
	lsregion_destroy(&ls);
	/* Every slab is back in the arena. */
	int have = 0, made = 0;
#ifndef ENABLE_ASAN
	made = quota_used(&quota) / arena.slab_size;
	static void *slabs[4096];
	while (have < made && have < 4096 &&
	       (slabs[have] = lf_lifo_pop(&arena.cache)) != NULL)
		have++;
	for (int i = have - 1; i >= 0; i--)
		lf_lifo_push(&arena.cache, slabs[i]);
#endif
	emit("{\"op\":\"destroy\",\"ok\":%d,\"quota\":%zu,\"made\":%d,"
	     "\"have\":%d}\n", ok, quota_used(&quota), made, have);
	slab_arena_destroy(&arena);
	heap_gone();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs */
			finish();
			heap_begin();
			DIRTY(&quota);
			quota_init(&quota, quota_for(c.a[0] * c.a[1]));
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&ls);
			lsregion_create(&ls, &arena);
			active = true;
			n = 0;
			next_id = 0;
			resv = 0;
			for (int k = 0; k < NSVP; k++) {
				DIRTY(&svp[k]);
				lsregion_svp_create(&svp[k]);
			}
#ifdef ENABLE_ASAN
			emit("{\"op\":\"init\",\"slab\":%lld,\"hdr\":0,"
			     "\"checked\":1}\n", c.a[0]);
#else
			emit("{\"op\":\"init\",\"slab\":%d,\"hdr\":%d,"
			     "\"checked\":0}\n", (int)arena.slab_size,
			     (int)lslab_sizeof());
#endif
			continue;
		}
		if (!active)
			continue;
		size_t size = c.a[0] < 1 ? 1 : c.a[0];
		if (IS(&c, "alloc")) {
			/* alloc size id_step lg2(alignment) */
			do_alloc(size, (size_t)1 << mod(c.a[2], 13),
				 next_id + mod(c.a[1], 1000));
		} else if (IS(&c, "reserve")) {
			/* reserve size lg2(alignment) */
			do_reserve(size, (size_t)1 << mod(c.a[1], 13));
		} else if (IS(&c, "gc")) {
			/* gc d: everything up to the newest id - d */
			do_gc(next_id - c.a[0] < -1 ? -1 :
			      next_id - c.a[0]);
		} else if (IS(&c, "flush")) {
			/* flush k max */
			do_flush(mod(c.a[0] - 1, NSVP), c.a[1] < 1 ? 1 :
				 c.a[1]);
		} else if (IS(&c, "check")) {
			emit("{\"op\":\"check\",\"ok\":%d", all_ok());
			state();
		} else if (IS(&c, "huge")) {
#ifndef ENABLE_ASAN
			/* huge k lg2(alignment) what */
			if (resv != 0)
				continue;
			size = huge_size(c.a[0], 200000);
			size_t al = (size_t)1 << mod(c.a[1], 13);
			void *un, *ptr;
			if (mod(c.a[2], 2))
				ptr = lsregion_aligned_alloc(&ls, size, al,
							     next_id);
			else
				ptr = lsregion_aligned_reserve(&ls, size, al,
							       &un);
			emit("{\"op\":\"huge\",\"okp\":%d", ptr != NULL);
			state();
#endif
		}
	}
	finish();
	drv_finish();
	return 0;
}
