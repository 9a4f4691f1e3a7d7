/* Conformance driver: obuf on top of slab_cache. */
#include "drv.h"
#include <sys/mman.h>
#include <sys/uio.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/obuf.h>

enum { NSVP = 16, MAXSIZE = 1 << 20 };

static struct obuf buf;
static struct quota quota;
static struct slab_arena arena;
static struct slab_cache cache;
static bool active;
static unsigned next_v;
/** Outstanding reservation. */
static size_t resv;
static struct obuf_svp svp[NSVP];
static int nsvp;
static char *data;

/** How many vectors are allocated. */
static int
nvec(void)
{
	int n = 0;
	while (n < SMALL_OBUF_IOV_MAX && buf.iov[n].iov_base != NULL)
		n++;
	return n;
}

static void
state(void)
{
	emit(",\"size\":%zu,\"cnt\":%d,\"cused\":%zu,\"vecs\":[",
	     obuf_size(&buf), obuf_iovcnt(&buf), slab_cache_used(&cache));
	int n = nvec();
	for (int i = 0; i < n; i++)
		emit("%s{\"at\":[%d,%d],\"len\":%zu,\"cap\":%zu}",
		     i > 0 ? "," : "", ZARG(buf.iov[i].iov_base),
		     buf.iov[i].iov_len, buf.capacity[i]);
	emit("]");
	struct runs r;
	runs_begin(&r);
	for (int i = 0; i < obuf_iovcnt(&buf); i++)
		runs_feed(&r, buf.iov[i].iov_base, buf.iov[i].iov_len);
	runs_end(&r);
	emit("}\n");
}

static int
probe(size_t size)
{
#ifndef ENABLE_ASAN
	/* As much as the growth policy may have asked for. */
	size_t cap = buf.start_capacity << buf.pos;
	if (cap < 2 * buf.capacity[buf.pos])
		cap = 2 * buf.capacity[buf.pos];
	while (cap < size)
		cap *= 2;
	struct slab *slab = slab_get(&cache, cap);
	if (slab != NULL) {
		slab_put(&cache, slab);
		return 1;
	}
#endif
	(void)size;
	return 0;
}

/** Accessible bytes behind the stream in the current vector. */
static int
exposed(void)
{
	if (buf.iov[buf.pos].iov_base == NULL)
		return 0;
	char *from = (char *)buf.iov[buf.pos].iov_base +
		     buf.iov[buf.pos].iov_len;
	int n = 0;
#ifdef ENABLE_ASAN
	size_t left = buf.capacity[buf.pos] - buf.iov[buf.pos].iov_len;
	for (size_t i = 0; i < left; i++)
		n += !__asan_address_is_poisoned(from + i);
#endif
	(void)from;
	return n;
}

static void
ask(size_t size, int how, bool take)
{
	if (take ? resv != 0 && size > resv : resv != 0)
		return;
	unsigned v = next_v;
	size_t got = size;
	char *ptr;
	if (take)
		ptr = how ? obuf_alloc_cb(&buf, size) : obuf_alloc(&buf, size);
	else
		ptr = how ? obuf_reserve_cb(&buf, &got) :
		      obuf_reserve(&buf, size);
	int p = 0;
	if (ptr == NULL) {
		p = probe(size);
	} else if (take) {
		num_fill(ptr, size, v);
		next_v = (next_v + size + 3) % 251;
		resv = 0;
	} else {
		memset(ptr, 0xfe, got);
		resv = size;
	}
	emit("{\"op\":\"%s\",\"n\":%zu,\"v\":%u,\"okp\":%d,\"got\":%zu,"
	     "\"how\":%d,\"p\":[%d,%d],\"probe\":%d",
	     take ? "alloc" : "reserve", size, v, ptr != NULL, got, how,
	     ZARG(ptr), p);
	if (take)
		emit(",\"exposed\":%d", exposed());
	if (take && ptr != NULL)
		emit_shadow(ptr, size);
	state();
}

/** Take the vectors down before data disappear, count what is accessible. */
static struct iovec was[SMALL_OBUF_IOV_MAX + 1];
static int nwas;

static void
remember(void)
{
	nwas = nvec();
	memcpy(was, buf.iov, sizeof(was[0]) * nwas);
}

static int
undead(void)
{
	int n = 0;
	for (int i = 0; i < nwas; i++) {
		size_t keep = i < nvec() ? buf.iov[i].iov_len : 0;
		if (keep < was[i].iov_len)
			n += dead_bytes((char *)was[i].iov_base + keep,
					was[i].iov_len - keep);
	}
	return n;
}

static void
finish(void)
{
	if (!active)
		return;
	active = false;
	remember();
	int init = obuf_is_initialized(&buf);
	obuf_destroy(&buf);
	emit("{\"op\":\"destroy\",\"ndead\":%d,\"cused\":%zu,\"init\":%d,"
	     "\"left\":%d}\n", undead(), slab_cache_used(&cache), init,
	     obuf_is_initialized(&buf));
	slab_cache_check(&cache);
	slab_cache_destroy(&cache);
	slab_arena_destroy(&arena);
	heap_gone();
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	data = malloc(MAXSIZE);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init slab_size nslabs start */
			finish();
			heap_begin();
			DIRTY(&quota);
			quota_init(&quota, quota_for(c.a[0] * c.a[1]));
			DIRTY(&arena);
			if (slab_arena_create(&arena, &quota, 0, c.a[0],
					      MAP_PRIVATE) != 0)
				exit(98);
			DIRTY(&cache);
			slab_cache_create(&cache, &arena);
			DIRTY(&buf);
			obuf_create(&buf, &cache, c.a[2]);
			active = true;
			next_v = 1;
			nsvp = 0;
			resv = 0;
			emit("{\"op\":\"init\",\"start\":%lld,"
			     "\"checked\":%d}\n", c.a[2], quota_for(1) != 1);
			continue;
		}
		if (!active)
			continue;
		size_t size = c.a[0] < 1 ? 1 : c.a[0];
		if (size > MAXSIZE)
			size = MAXSIZE;
		if (IS(&c, "alloc")) {
			/* alloc n how */
			ask(resv != 0 && size > resv ? resv : size, c.a[1],
			    true);
		} else if (IS(&c, "reserve")) {
			ask(size, c.a[1], false);
		} else if (IS(&c, "dup")) {
			if (resv != 0)
				continue;
			unsigned v = next_v;
			num_fill(data, size, v);
			size_t done = obuf_dup(&buf, data, size);
			next_v = (next_v + size + 3) % 251;
			emit("{\"op\":\"dup\",\"n\":%zu,\"v\":%u,\"done\":%zu,"
			     "\"probe\":%d,\"exposed\":%d", size, v, done,
			     done < size ? probe(size - done) : 0, exposed());
			state();
		} else if (IS(&c, "svp")) {
			if (resv != 0 || nsvp == NSVP)
				continue;
			svp[nsvp] = obuf_create_svp(&buf);
			void *ptr = obuf_svp_to_ptr(&buf, &svp[nsvp]);
			nsvp++;
			emit("{\"op\":\"svp\",\"p\":[%d,%d]", ZARG(ptr));
			state();
		} else if (IS(&c, "ptr")) {
			/* Where a savepoint is. */
			if (nsvp == 0)
				continue;
			int k = mod(c.a[0], nsvp);
			void *ptr = obuf_svp_to_ptr(&buf, &svp[k]);
			emit("{\"op\":\"ptr\",\"k\":%d,\"p\":[%d,%d]", k + 1,
			     ZARG(ptr));
			state();
		} else if (IS(&c, "rollback")) {
			if (nsvp == 0)
				continue;
			int k = mod(c.a[0] - 1, nsvp);
			remember();
			obuf_rollback_to_svp(&buf, &svp[k]);
			nsvp = k + 1;
			resv = 0;
			emit("{\"op\":\"rollback\",\"k\":%d,\"ndead\":%d",
			     k + 1, undead());
			state();
		} else if (IS(&c, "reset")) {
			remember();
			if (c.a[0] == 1) {
				struct obuf_svp s;
				obuf_svp_reset(&s);
				obuf_rollback_to_svp(&buf, &s);
			} else {
				obuf_reset(&buf);
			}
			nsvp = 0;
			resv = 0;
			emit("{\"op\":\"reset\",\"ndead\":%d", undead());
			state();
		} else if (IS(&c, "huge")) {
			/* huge k how */
#ifndef ENABLE_ASAN
			if (resv != 0)
				continue;
			size = huge_size(c.a[0], 200000);
			char *ptr = mod(c.a[1], 2) ? obuf_reserve(&buf, size) :
				    obuf_alloc(&buf, size);
			emit("{\"op\":\"huge\",\"okp\":%d", ptr != NULL);
			state();
#endif
		}
	}
	finish();
	drv_finish();
	return 0;
}
