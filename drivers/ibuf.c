/* Conformance driver: ibuf on top of slab_cache. */
#include "drv.h"
#include <sys/mman.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/ibuf.h>

enum { NBUF = 2 };

static struct ibuf buf[NBUF];
static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static bool active;
static unsigned next_v;

static int
readable(const char *from, const char *to)
{
#ifdef ENABLE_ASAN
	int n = 0;
	/* The first bytes of an 8 byte granule cannot be hidden alone. */
	if (from == to)
		return 0;
	if ((uintptr_t)from % 8 == 0 && __asan_address_is_poisoned(to) == 0)
		to = (const char *)((uintptr_t)to & ~(uintptr_t)7);
	for (; from < to; from++)
		n += !__asan_address_is_poisoned(from);
	return n;
#else
	(void)from;
	(void)to;
	return 0;
#endif
}

static void
state(struct ibuf *b)
{
	emit(",\"used\":%zu,\"unused\":%zu,\"pos\":%zu,\"cap\":%zu,"
	     "\"have\":%d," ZFMT ",\"wz\":%d,\"woff\":%d,\"cused\":%zu",
	     ibuf_used(b), ibuf_unused(b), ibuf_pos(b), ibuf_capacity(b),
	     b->buf != NULL, ZARG(b->buf), ZARG(b->wpos),
	     slab_cache_used(&cache));
	struct runs r;
	runs_begin(&r);
	if (b->buf != NULL)
		runs_feed(&r, b->rpos, ibuf_used(b));
	runs_end(&r);
	emit("}\n");
}

/** Is there memory for a block of so many bytes? */
static int
probe(size_t size)
{
#ifndef ENABLE_ASAN
	struct slab *slab = slab_get(&cache, size);
	if (slab != NULL) {
		slab_put(&cache, slab);
		return 1;
	}
#endif
	(void)size;
	return 0;
}

static void
ask(struct ibuf *b, size_t size, int how, bool take)
{
	const char *op = take ? "alloc" : "reserve";
	unsigned v = next_v;
	size_t got = size;
	char *ptr;
	if (take)
		ptr = how ? ibuf_alloc_cb(b, size) : ibuf_alloc(b, size);
	else
		ptr = how ? ibuf_reserve_cb(b, &got) : ibuf_reserve(b, size);
	int p = 0;
	if (ptr == NULL) {
		size_t t = 2 * (ibuf_used(b) + size);
		if (t < 2 * ibuf_capacity(b))
			t = 2 * ibuf_capacity(b);
		if (t < b->start_capacity)
			t = b->start_capacity;
		p = probe(t);
	} else if (take) {
		num_fill(ptr, size, v);
		next_v = (next_v + size + 3) % 251;
	} else {
		/* The owner may scribble there. */
		memset(ptr, 0xfe, got);
	}
	emit("{\"op\":\"%s\",\"b\":%d,\"n\":%zu,\"v\":%u,\"okp\":%d,"
	     "\"got\":%zu,\"how\":%d,\"pz\":%d,\"poff\":%d,\"probe\":%d,"
	     "\"start\":%zu", op, (int)(b - buf) + 1, size, v, ptr != NULL, got,
	     how, ZARG(ptr), p, b->start_capacity);
	if (take)
		emit(",\"exposed\":%d", ptr == NULL ? 0 :
		     readable(b->wpos, b->end));
	state(b);
}

static void
simple(const char *op, struct ibuf *b, size_t n, int exposed)
{
	emit("{\"op\":\"%s\",\"b\":%d,\"n\":%zu,\"exposed\":%d", op,
	     (int)(b - buf) + 1, n, exposed);
	state(b);
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	for (int i = 0; i < NBUF; i++)
		ibuf_destroy(&buf[i]);
	emit("{\"op\":\"destroy\",\"cused\":%zu}\n", slab_cache_used(&cache));
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	heap_gone();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs start1 start2 */
			finish();
			heap_begin();
			DIRTY(&quota);
			quota_init(&quota, quota_for(c.a[0] * c.a[1]));
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			for (int i = 0; i < NBUF; i++) {
				DIRTY(&buf[i]);
				ibuf_create(&buf[i], &cache, c.a[2 + i]);
			}
			active = true;
			next_v = 1;
			emit("{\"op\":\"init\",\"start\":[%lld,%lld],"
			     "\"checked\":%d}\n", c.a[2], c.a[3],
			     quota_for(1) != 1);
			continue;
		}
		if (!active)
			continue;
		struct ibuf *b = &buf[mod(c.a[0], NBUF)];
		size_t size = c.a[1] < 1 ? 1 : c.a[1];
		size_t part = mod(c.a[1], ibuf_used(b) + 1);
		if (IS(&c, "alloc")) {
			ask(b, size, c.a[2], true);
		} else if (IS(&c, "reserve")) {
			ask(b, size, c.a[2], false);
		} else if (IS(&c, "reserve0")) {
			/* Whatever there is, or the start capacity. */
			ask(b, 0, 1, false);
		} else if (IS(&c, "write")) {
			/* Into the space behind the content. */
			size = mod(c.a[1], ibuf_unused(b) + 1);
			/* A checked build wants a reservation first. */
			if (size > 0 && ibuf_reserve(b, size) != b->wpos)
				exit(98);
			unsigned v = next_v;
			if (size > 0)
				num_fill(b->wpos, size, v);
			b->wpos += size;
			next_v = (next_v + size + 3) % 251;
			emit("{\"op\":\"write\",\"b\":%d,\"n\":%zu,\"v\":%u",
			     (int)(b - buf) + 1, size, v);
			state(b);
		} else if (IS(&c, "consume")) {
			ibuf_consume(b, part);
			simple("consume", b, part, readable(b->buf, b->rpos));
		} else if (IS(&c, "before")) {
			ibuf_consume_before(b, b->rpos + part);
			simple("consume", b, part, readable(b->buf, b->rpos));
		} else if (IS(&c, "discard")) {
			ibuf_discard(b, part);
			simple("discard", b, part, readable(b->wpos, b->end));
		} else if (IS(&c, "truncate")) {
			/* truncate b k: drop the k last bytes */
			ibuf_truncate(b, ibuf_used(b) - part);
			simple("discard", b, part, readable(b->wpos, b->end));
		} else if (IS(&c, "reset")) {
			ibuf_reset(b);
			simple("reset", b, 0, readable(b->wpos, b->end));
		} else if (IS(&c, "reinit")) {
			ibuf_reinit(b);
			simple("reinit", b, 0, 0);
		} else if (IS(&c, "shrink")) {
			char *old = b->buf;
			ibuf_shrink(b);
			int p = b->buf != old || b->buf == NULL ? 1 :
				probe(ibuf_used(b) > b->start_capacity ?
				      ibuf_used(b) : b->start_capacity);
			emit("{\"op\":\"shrink\",\"b\":%d,\"exposed\":%d,"
			     "\"probe\":%d", (int)(b - buf) + 1,
			     b->buf == old ? 0 : readable(b->wpos, b->end), p);
			state(b);
		} else if (IS(&c, "huge")) {
			/* huge b k how */
			size = huge_size(c.a[1], 200000);
			char *ptr = mod(c.a[2], 2) ? ibuf_reserve(b, size) :
				    ibuf_alloc(b, size);
			emit("{\"op\":\"huge\",\"b\":%d,\"okp\":%d",
			     (int)(b - buf) + 1, ptr != NULL);
			state(b);
		}
	}
	finish();
	drv_finish();
	return 0;
}
