/* Conformance driver: matras with a counting extent allocator. */
#include "drv.h"
#include <sys/mman.h>
#include <limits.h>
#include <small/matras.h>

enum { NVIEW = 4, NEXT = 4096, NRAW = 16, NPEER = 64 };

static struct matras m;
static struct matras_allocator alc;
static struct matras_stats stats;
static struct matras_view view[NVIEW];
static bool open_[NVIEW], created[NVIEW];
static bool active, with_stats, reuse;
static size_t bs, es, lc;
/** Extents handed out: address and number; freed memory is reused at will. */
static struct ext {
	char *mem;
	int num;
} ext[NEXT];
static int next_, nnum;
static char *spare[NEXT];
static int nspare;
static int got, rel, bad;
/** Numbers of the freed extents. */
static int freed[NEXT], nfreed;
static long long budget;
static int next_v;
/** Another matras with the same allocator and statistics; leaf k holds k. */
static struct matras peer;
static int npeer;
/** Extents obtained directly. */
static void *raw[NRAW];
static int nraw;

static void *
ext_alloc(struct matras_allocator *a)
{
	(void)a;
	if (budget == 0 || next_ == NEXT)
		return NULL;
	if (budget > 0)
		budget--;
	char *mem = NULL;
	if (reuse && nspare > 0)
		mem = spare[--nspare];
	else if (posix_memalign((void **)&mem, es < 64 ? 64 : es, es) != 0)
		exit(96);
	/* Garbage that is fatal when taken for a pointer. */
	dirty(mem, es < 65536 ? es : 65536);
	ext[next_].mem = mem;
	ext[next_++].num = ++nnum;
	got++;
	return mem;
}

static void
ext_free(struct matras_allocator *a, void *ptr)
{
	(void)a;
	for (int i = 0; i < next_; i++) {
		if (ext[i].mem != ptr)
			continue;
		memset(ptr, 0xfa, es < 65536 ? es : 65536);
		if (nfreed < NEXT)
			freed[nfreed++] = ext[i].num;
		ext[i] = ext[--next_];
		rel++;
		if (nspare < NEXT)
			spare[nspare++] = ptr;
		return;
	}
	bad++;
}

/** An address as extent number and offset. */
static int
where(const void *p, int *off)
{
	for (int i = 0; i < next_; i++) {
		if ((char *)p >= ext[i].mem && (char *)p < ext[i].mem + es) {
			*off = (char *)p - ext[i].mem;
			return ext[i].num;
		}
	}
	*off = -1;
	return 0;
}

static size_t
span(void)
{
	return bs < 256 ? bs : 256;
}

static void
block_write(char *p, int v)
{
	int off;
	if (where(p, &off) == 0 || off + bs > es)
		return;
	memset(p, v, span());
	p[bs - 1] = v;
}

/** A block holds one number in all of its bytes. */
static int
block_read(const char *p)
{
	int off;
	if (where(p, &off) == 0 || off + bs > es)
		return -2;
	for (size_t i = 1; i < span(); i++)
		if (p[i] != p[0])
			return -1;
	if (p[bs - 1] != p[0])
		return -1;
	return (unsigned char)p[0];
}

static void
state(void)
{
	emit(",\"cnt\":%lld,\"ext\":%lld,\"sext\":%lld,\"srv\":%lld,"
	     "\"out\":%d,\"rsv\":%d,\"got\":%d,\"rel\":%d,\"bad\":%d,"
	     "\"pext\":%lld,\"pcnt\":%lld,"
	     "\"freed\":[", (long long)m.head.block_count,
	     (long long)matras_extent_count(&m),
	     with_stats ? (long long)stats.extent_count : -1,
	     with_stats ? (long long)stats.read_view_extent_count : -1,
	     next_, alc.num_reserved_extents, got, rel, bad,
	     (long long)matras_extent_count(&peer),
	     (long long)(peer.head.block_count / lc));
	for (int i = 0; i < nfreed; i++)
		emit("%s%d", i > 0 ? "," : "", freed[i]);
	emit("]}\n");
	got = rel = nfreed = 0;
}

static void
dump(const struct matras_view *v, size_t n, int k, bool first)
{
	emit("%s{\"k\":%d,\"vals\":[", first ? "" : ",", k);
	for (size_t i = 0; i < n && i < 600; i++)
		emit("%s%d", i > 0 ? "," : "",
		     block_read(matras_view_get(&m, v, i)));
	emit("]}");
}

static void
do_check(void)
{
	/* Version 0 is the newest one. */
	emit("{\"op\":\"check\",\"vers\":[");
	struct matras_view hv;
	DIRTY(&hv);
	matras_head_read_view(&hv);
	dump(&hv, m.head.block_count, 0, true);
	for (int k = 0; k < NVIEW; k++)
		if (open_[k])
			dump(&view[k], view[k].block_count, k + 1, false);
	emit("],\"locs\":[");
	for (size_t i = 0; i < m.head.block_count && i < 600; i++) {
		int off, e = where(matras_get(&m, i), &off);
		emit("%s[%d,%d]", i > 0 ? "," : "", e, off);
	}
	int same = 1;
	for (int i = 0; i < npeer; i++)
		same &= block_read(matras_get(&peer, i * lc)) == i + 1 &&
			block_read(matras_get(&peer, i * lc + lc - 1)) == i + 1;
	for (int i = 0; i < nraw; i++)
		same &= *(void **)raw[i] == &raw[i];
	emit("],\"same\":%d", same);
	state();
}

static void
do_alloc(size_t n, bool range)
{
	matras_id_t id = 12345;
	int v = next_v % 250, off = -1, e = 0;
	char *p = range ? matras_alloc_range(&m, &id, n) :
		  matras_alloc(&m, &id);
	if (p != NULL) {
		e = where(p, &off);
		next_v++;
		for (size_t i = 0; i < n; i++)
			block_write(p + i * bs, v);
	}
	emit("{\"op\":\"alloc\",\"n\":%zu,\"okp\":%d,\"id\":%d,\"e\":%d,"
	     "\"off\":%d,\"v\":%d", n, p != NULL, (int)id, e, off, v);
	state();
}

static void
do_touch(size_t id, bool write)
{
	int v = -1, off = -1, e = 0;
	int nt = matras_needs_touch(&m, id);
	/* The same in two steps. */
	char *p = next_v % 2 == 0 ? matras_touch(&m, id) :
		  nt ? matras_touch_no_check(&m, id) : matras_get(&m, id);
	if (p != NULL) {
		e = where(p, &off);
		if (write) {
			v = next_v++ % 250;
			block_write(p, v);
		}
	}
	emit("{\"op\":\"touch\",\"id\":%zu,\"nt\":%d,\"okp\":%d,\"e\":%d,"
	     "\"off\":%d,\"v\":%d", id, nt, p != NULL, e, off, v);
	state();
}

static void
finish(bool reset)
{
	if (!active)
		return;
	if (reset)
		matras_reset(&m);
	else
		matras_destroy(&m);
	memset(open_, 0, sizeof(open_));
	memset(created, 0, sizeof(created));
	dirty(view, sizeof(view));
	for (int k = 0; k < NVIEW; k++)
		matras_head_read_view(&view[k]);
	if (reset) {
		emit("{\"op\":\"reset\"");
		state();
		return;
	}
	active = false;
	matras_destroy(&peer);
	npeer = 0;
	while (nraw > 0)
		matras_allocator_free(&alc, raw[--nraw]);
	peer.head.block_count = 0;
	/* Not cleared by matras_destroy(), and it does not say so. */
	m.head.block_count = 0;
	emit("{\"op\":\"destroy\"");
	state();
	matras_allocator_destroy(&alc);
	emit("{\"op\":\"bye\"");
	state();
	for (int i = 0; i < next_; i++)
		free(ext[i].mem);
	for (int i = 0; i < nspare; i++) {
		int dup = 0;
		for (int j = 0; j < i; j++)
			dup |= spare[j] == spare[i];
		if (!dup)
			free(spare[i]);
	}
	next_ = nspare = 0;
}

/* Filling up to the capacity: extents are never touched by the driver. */
static char *area;
static size_t area_n, area_max, area_live, area_bad;
static unsigned char *area_map;

static void *
area_alloc(struct matras_allocator *a)
{
	(void)a;
	if (area_n == area_max)
		return NULL;
	area_map[area_n] = 1;
	area_live++;
	return area + es * area_n++;
}

static void
area_free(struct matras_allocator *a, void *ptr)
{
	(void)a;
	size_t i = ((char *)ptr - area) / es;
	if ((char *)ptr < area || i >= area_n || area_map[i] != 1 ||
	    area + es * i != (char *)ptr) {
		area_bad++;
		return;
	}
	area_map[i] = 2;
	area_live--;
}

static void
do_full(int les, int lbs, int views)
{
	es = (size_t)1 << les;
	bs = (size_t)1 << lbs;
	lc = es / bs;
	size_t cap = (size_t)1 << 32;
	size_t leaves = cap / lc;
	if (les < 16 && (es / 8) * (es / 8) < leaves)
		leaves = (es / 8) * (es / 8);
	area_max = leaves + leaves / 2 + 16;
	size_t size = es * area_max;
	area = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE |
		    MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	area_map = calloc(area_max, 1);
	if (area == MAP_FAILED || area_map == NULL)
		return;
	/* Aligned by the extent size is not required. */
	area_n = area_live = area_bad = 0;
	DIRTY(&alc);
	matras_allocator_create(&alc, es, area_alloc, area_free);
	DIRTY(&m);
	matras_create(&m, bs, &alc, NULL);
	size_t n = 0, badid = 0, badblk = 0;
	struct matras_view v;
	matras_id_t id;
	char *p;
	while ((p = matras_alloc_range(&m, &id, lc)) != NULL) {
		badid += id != (matras_id_t)(n * lc);
		badblk += p != (char *)matras_get(&m, id);
		if ((n & (n - 1)) == 0)
			*p = n & 127;
		n++;
		if (views && n == leaves / 2) {
			DIRTY(&v);
			matras_create_read_view(&m, &v);
		}
	}
	for (size_t i = 1; i < n; i *= 2)
		badblk += *(char *)matras_get(&m, i * lc) != (char)(i & 127);
	size_t ext1 = area_live, ext2 = area_live, ext3 = area_live;
	if (views) {
		/* The first touch copies three extents, the second none. */
		p = matras_touch(&m, 0);
		if (p != NULL)
			*p = 99;
		badblk += p == NULL || *(char *)matras_view_get(&m, &v, 0) != 0;
		matras_touch(&m, n * lc - 1);
		ext2 = area_live;
		matras_destroy_read_view(&m, &v);
		ext3 = area_live;
		badblk += *(char *)matras_get(&m, 0) != 99;
	}
	emit("{\"op\":\"full\",\"les\":%d,\"lbs\":%d,\"leaves\":%zu,"
	     "\"badid\":%zu,\"badblk\":%zu,\"ext1\":%zu,\"count\":%lld,"
	     "\"copies\":%zu,\"ext3\":%zu,\"views\":%d", les, lbs, n, badid,
	     badblk, ext1, (long long)matras_extent_count(&m), ext2 - ext1,
	     ext3, views);
	matras_destroy(&m);
	emit(",\"left\":%zu,\"bad\":%zu}\n", area_live, area_bad);
	munmap(area, size);
	free(area_map);
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init lg2(extent) lg2(block) stats reuse */
			finish(false);
			next_v = 1;
			budget = -1;
			int les = 4 + mod(c.a[0] - 4, 24);
			int lbs = mod(c.a[1], les + 1);
			es = (size_t)1 << les;
			bs = (size_t)1 << lbs;
			lc = es / bs;
			with_stats = c.a[2];
			reuse = c.a[3];
			DIRTY(&stats);
			matras_stats_create(&stats);
			DIRTY(&alc);
			matras_allocator_create(&alc, es, ext_alloc, ext_free);
			DIRTY(&m);
			matras_create(&m, bs, &alc, with_stats ? &stats : NULL);
			DIRTY(&peer);
			matras_create(&peer, bs, &alc,
				      with_stats ? &stats : NULL);
			active = true;
			got = rel = bad = nfreed = nnum = 0;
			for (int k = 0; k < NVIEW; k++) {
				DIRTY(&view[k]);
				matras_head_read_view(&view[k]);
			}
			emit("{\"op\":\"init\",\"les\":%d,\"lbs\":%d,"
			     "\"stats\":%d}\n", les, lbs, with_stats);
			continue;
		}
		if (IS(&c, "full")) {
			finish(false);
			emit("{\"op\":\"init\",\"les\":4,\"lbs\":0,"
			     "\"stats\":0}\n");
			do_full(c.a[0], c.a[1], c.a[2]);
			continue;
		}
		if (!active)
			continue;
		if (IS(&c, "alloc")) {
			do_alloc(1, false);
		} else if (IS(&c, "range")) {
			/* range n: reduced to one that divides the leaf */
			size_t n = (size_t)1 << mod(c.a[0], 31);
			while (n > lc || m.head.block_count % n != 0)
				n /= 2;
			do_alloc(n, true);
		} else if (IS(&c, "dealloc") || IS(&c, "drange")) {
			size_t n = 1;
			if (IS(&c, "drange"))
				n = (size_t)1 << mod(c.a[0], 31);
			if (m.head.block_count == 0)
				continue;
			while (n > lc || n > m.head.block_count ||
			       m.head.block_count % n != 0)
				n /= 2;
			int rc = IS(&c, "drange") ?
				 matras_dealloc_range(&m, n) :
				 matras_dealloc(&m);
			/* The last block: in the same leaf, if there is one. */
			int off, e = 0;
			if (m.head.block_count > 0)
				e = where(matras_get(&m, m.head.block_count - 1),
					  &off);
			emit("{\"op\":\"dealloc\",\"n\":%zu,\"rc\":%d,"
			     "\"e\":%d", n, rc, e);
			state();
		} else if (IS(&c, "touch") || IS(&c, "write")) {
			/* touch id: negative from the end */
			if (m.head.block_count == 0)
				continue;
			do_touch(mod(c.a[0], m.head.block_count),
				 IS(&c, "write"));
		} else if (IS(&c, "view")) {
			int k = mod(c.a[0] - 1, NVIEW);
			if (open_[k])
				continue;
			DIRTY(&view[k]);
			matras_create_read_view(&m, &view[k]);
			open_[k] = true;
			emit("{\"op\":\"view\",\"k\":%d,\"cr\":%d,\"n\":%lld",
			     k + 1, matras_is_read_view_created(&view[k]),
			     (long long)view[k].block_count);
			state();
		} else if (IS(&c, "unview")) {
			/* Also when it is not open: has no effect then. */
			int k = mod(c.a[0] - 1, NVIEW);
			matras_destroy_read_view(&m, &view[k]);
			emit("{\"op\":\"unview\",\"k\":%d,\"was\":%d,"
			     "\"cr\":%d", k + 1, open_[k],
			     matras_is_read_view_created(&view[k]));
			open_[k] = false;
			state();
		} else if (IS(&c, "reserve")) {
			/* Negative: a count that cannot be served. */
			if (c.a[0] < 0 && budget < 0)
				continue;
			int n = mod(c.a[0], 100);
			if (c.a[0] < 0)
				n = c.a[0] % 2 == 0 ? INT_MAX + c.a[0] :
				    INT_MAX / 2 - (c.a[0] + 1) / 2;
			int rc = matras_touch_reserve(&m, n);
			emit("{\"op\":\"reserve\",\"n\":%d,\"rc\":%d",
			     n < 1000000000 ? n : 1000000000, rc);
			state();
		} else if (IS(&c, "peer")) {
			/* peer: one more leaf of it */
			if (npeer == NPEER)
				continue;
			matras_id_t id = 12345;
			char *p = matras_alloc_range(&peer, &id, lc);
			if (p != NULL) {
				npeer++;
				block_write(p, npeer);
				block_write(p + (lc - 1) * bs, npeer);
			}
			emit("{\"op\":\"peer\",\"okp\":%d,\"id\":%d", p != NULL,
			     p == NULL || id == (npeer - 1) * lc);
			state();
		} else if (IS(&c, "pdrop")) {
			if (npeer == 0)
				continue;
			npeer--;
			int rc = matras_dealloc_range(&peer, lc);
			emit("{\"op\":\"pdrop\",\"rc\":%d", rc);
			state();
		} else if (IS(&c, "eget")) {
			if (nraw == NRAW)
				continue;
			void *p = matras_allocator_alloc(&alc);
			if (p != NULL) {
				*(void **)p = &raw[nraw];
				raw[nraw++] = p;
			}
			emit("{\"op\":\"eget\",\"okp\":%d", p != NULL);
			state();
		} else if (IS(&c, "eput")) {
			if (nraw == 0)
				continue;
			matras_allocator_free(&alc, raw[--nraw]);
			emit("{\"op\":\"eput\"");
			state();
		} else if (IS(&c, "ereserve")) {
			int n = mod(c.a[0], 100);
			int rc = matras_allocator_reserve(&alc, n);
			emit("{\"op\":\"ereserve\",\"n\":%d,\"rc\":%d", n,
			     rc);
			state();
		} else if (IS(&c, "limit")) {
			/* limit n: further extents obtainable; -1: any number */
			budget = c.a[0] < 0 ? -1 : c.a[0];
			emit("{\"op\":\"limit\",\"left\":%lld}\n", budget);
		} else if (IS(&c, "check")) {
			do_check();
		} else if (IS(&c, "reset")) {
			finish(true);
		}
	}
	finish(false);
	drv_finish();
	return 0;
}
