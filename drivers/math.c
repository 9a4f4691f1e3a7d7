/* Conformance driver: size classes and integer helpers. */
#include "drv.h"
#include <math.h>
#include <small/small_class.h>
#include <small/util.h>

static void
bits(const char *name, unsigned long long v)
{
	emit("\"%s\":[", name);
	bool first = true;
	for (int i = 0; i < 64; i++) {
		if ((v >> i & 1) == 0)
			continue;
		emit("%s%d", first ? "" : ",", i);
		first = false;
	}
	emit("]");
}

static struct small_class sc;
static unsigned nclasses;
enum { CLS_MAX = 4096 };
static unsigned long long sizes[CLS_MAX];
/* All the classes that fit 32 bits are in sizes[0 .. nall - 1]; 0: no. */
static unsigned nall;

static void
map_one(unsigned size, bool *first)
{
	unsigned cls = small_class_calc_offset_by_size(&sc, size);
	if (cls > 2000000000u)
		cls = 2000000000u;
	emit("%s[%u,%u]", *first ? "" : ",", size, cls);
	*first = false;
}

static void
bmap_one(unsigned long long size, bool *first)
{
	if (size > UINT32_MAX)
		return;
	unsigned cls = small_class_calc_offset_by_size(&sc, size);
	if (cls > 2000000000u)
		cls = 2000000000u;
	emit("%s[[%llu,%llu],%u]", *first ? "" : ",", size >> 16,
	     size & 0xffff, cls);
	*first = false;
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			nclasses = 0;
			emit("{\"op\":\"init\"}\n");
		} else if (IS(&c, "class")) {
			/* class lg2(gran) min factor*1e6 */
			unsigned gran = 1u << mod(c.a[0], 16);
			float want = c.a[2] / 1e6, actual = 0;
			small_class_create(&sc, gran, want, c.a[1], &actual);
			emit("{\"op\":\"class\",\"gran\":%u,\"min\":%u,"
			     "\"lf\":%lld,\"la\":%lld,\"sizes\":[", gran,
			     (unsigned)c.a[1], llround(1e6 * log2(want)),
			     llround(1e6 * log2(actual)));
			nclasses = 0;
			unsigned lim = c.n > 3 ? c.a[3] : CLS_MAX;
			for (unsigned i = 0; i < CLS_MAX && i < lim; i++) {
				unsigned s =
					small_class_calc_size_by_offset(&sc, i);
				if (s >= 1u << 30)
					break;
				sizes[nclasses++] = s;
				emit("%s%u", i ? "," : "", s);
			}
			emit("],\"big\":[");
			/* And on to the end of the range of unsigned. */
			nall = 0;
			if (nclasses > 0 && nclasses < CLS_MAX &&
			    nclasses < lim) {
				for (nall = nclasses; nall < CLS_MAX; nall++) {
					unsigned s =
						small_class_calc_size_by_offset(
							&sc, nall);
					if (s <= sizes[nall - 1])
						break;
					sizes[nall] = s;
					emit("%s[%u,%u]",
					     nall > nclasses ? "," : "",
					     s >> 16, s & 0xffff);
				}
				if (nall == CLS_MAX)
					nall = 0;
			}
			emit("],\"all\":%d}\n", nall > 0);
		} else if (IS(&c, "borders") && nclasses > 0) {
			/* Every class size, one byte less and one more. */
			emit("{\"op\":\"map\",\"m\":[");
			bool first = true;
			for (unsigned i = 0; i < nclasses; i++) {
				map_one(sizes[i] - 1, &first);
				map_one(sizes[i], &first);
				if (i + 1 < nclasses)
					map_one(sizes[i] + 1, &first);
			}
			emit("]}\n");
		} else if (IS(&c, "range") && nclasses > 0) {
			/* range from count */
			emit("{\"op\":\"map\",\"m\":[");
			bool first = true;
			for (long long i = 0; i < c.a[1]; i++) {
				unsigned long long s = c.a[0] + i;
				if (s < 1 || s > sizes[nclasses - 1])
					break;
				map_one(s, &first);
			}
			emit("]}\n");
		} else if (IS(&c, "bmap") && nall > 0) {
			/* bmap seed: around the big classes and in between. */
			unsigned long long x = c.a[0] * 2862933555777941757ull;
			emit("{\"op\":\"bmap\",\"m\":[");
			bool first = true;
			bmap_one(0, &first);
			for (unsigned i = nclasses; i < nall; i++) {
				bmap_one(sizes[i] - 1, &first);
				bmap_one(sizes[i], &first);
				bmap_one(sizes[i] + 1, &first);
				x = x * 2862933555777941757ull + 3037000493ull;
				bmap_one(sizes[i] - (x >> 33) %
					 (sizes[i] - sizes[i - 1]), &first);
			}
			bmap_one(UINT32_MAX, &first);
			bmap_one(UINT32_MAX - (x >> 40), &first);
			emit("]}\n");
		} else if (IS(&c, "align") || IS(&c, "down") ||
			   IS(&c, "round") || IS(&c, "lb")) {
			/* op hi lo k */
			unsigned long long x =
				(unsigned long long)c.a[0] << 32 |
				(unsigned)c.a[1];
			unsigned k = mod(c.a[2], 63);
			unsigned long long al = 1ull << k, r;
			if (IS(&c, "align")) {
				if (x > SIZE_MAX - al)
					continue;
				r = small_align(x, al);
			} else if (IS(&c, "down")) {
				r = small_align_down(x, al);
			} else if (IS(&c, "round")) {
				if (x > SIZE_MAX / 2 + 1 || x == 0)
					continue;
				r = small_round(x);
			} else {
				if (x == 0)
					continue;
				r = small_lb(x);
			}
			emit("{\"op\":\"%s\",", c.op);
			bits("x", x);
			emit(",\"k\":%u,", k);
			bits("r", r);
			emit("}\n");
		}
	}
	drv_finish();
	return 0;
}
