/*
 * Conformance driver: slab arenas that share a quota, under controlled
 * schedules and with an operating system of its own that hands out memory of
 * one big region at any page boundary and refuses when told to.
 */
#include "mt.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/small_features.h>
#include "small_config.h"

size_t op_used(struct quota *q);
ssize_t op_use(struct quota *q, size_t n);
ssize_t op_release(struct quota *q, size_t n);

enum { PAGE = 4096, NPAGES = 1 << 18, NAR = 2, NOUT = 32 };

/* ----------------------------------------------------- operating system */
static char *os_base;
/** 1: mapped, | 2: not dumped, | 4: read only. */
static unsigned char os_page[NPAGES];
static size_t os_next, os_high, os_mapped;
static unsigned long long os_mask;
static int os_calls, os_skew;
static int os_priv, os_shar, os_bad;
static bool os_on;
/** The system can not leave memory out of dumps. */
static bool os_noadvise;
/** Refusals seen by the current operation of a thread. */
static int os_fault[MT_THR + 1];

void *
mmap(void *addr, size_t size, int prot, int flags, int fd, off_t off)
{
	if (!os_on)
		return (void *)syscall(SYS_mmap, addr, size, prot, flags, fd,
				       off);
	mt_point(NULL);
	int k = os_calls++;
	size_t n = (size + PAGE - 1) / PAGE;
	size_t at = os_next;
	/* The first page is as unaligned as the script wants it. */
	if (os_skew > 0)
		at += (unsigned)(k * 7 + os_skew) % 16;
	else
		at = (at + 15) / 16 * 16;
	if ((k < 60 && (os_mask >> k & 1)) || size == 0 || n > NPAGES / 4 ||
	    at + n > NPAGES) {
		os_fault[mt_cur + 1]++;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	if (flags & MAP_PRIVATE)
		os_priv++;
	else
		os_shar++;
	for (size_t i = at; i < at + n; i++)
		os_page[i] = 1;
	os_next = at + n;
	if (os_next > os_high)
		os_high = os_next;
	os_mapped += n;
	return os_base + at * PAGE;
}

int
munmap(void *addr, size_t size)
{
	if (!os_on)
		return syscall(SYS_munmap, addr, size);
	mt_point(NULL);
	size_t off = (char *)addr - os_base;
	size_t n = (size + PAGE - 1) / PAGE;
	if ((char *)addr < os_base || off % PAGE != 0 || n == 0 ||
	    off / PAGE + n > NPAGES) {
		errno = EINVAL;
		os_bad++;
		return -1;
	}
	for (size_t i = off / PAGE; i < off / PAGE + n; i++) {
		os_mapped -= os_page[i] & 1;
		os_bad += !(os_page[i] & 1);
		os_page[i] = 0;
	}
	return 0;
}

static void
os_mark(void *addr, size_t size, int bit)
{
	size_t off = (char *)addr - os_base;
	for (size_t i = off / PAGE; size > 0 && i < (off + size + PAGE - 1) / PAGE;
	     i++) {
		if (i >= NPAGES || !(os_page[i] & 1))
			os_bad++;
		else
			os_page[i] |= bit;
	}
}

int
madvise(void *addr, size_t size, int what)
{
	if (!os_on)
		return syscall(SYS_madvise, addr, size, what);
	if (os_noadvise) {
		errno = EINVAL;
		return -1;
	}
	if (what == MADV_DONTDUMP)
		os_mark(addr, size, 2);
	return 0;
}

int
mprotect(void *addr, size_t size, int prot)
{
	if (!os_on)
		return syscall(SYS_mprotect, addr, size, prot);
	if (prot == PROT_READ)
		os_mark(addr, size, 4);
	else
		os_bad++;
	return 0;
}

static int
os_count(int bit)
{
	int n = 0;
	for (size_t i = 0; i < os_high; i++)
		n += (os_page[i] & 1) && (os_page[i] & bit);
	return n;
}

/* --------------------------------------------------------------- arenas */
static struct quota quota;
static struct arena {
	struct slab_arena a;
	bool has;
} ar[NAR];
static struct amap ids;
static struct user {
	struct { char *p; int a; } out[NOUT];
	int n;
	size_t granted;
} user[MT_THR + 1];

static void
stamp(char *p, size_t size, int t)
{
	for (int i = 0; i < 16; i++)
		p[i] = p[size / 2 + i] = p[size - 16 + i] = t * 16 + i;
}

static int
stamp_ok(char *p, size_t size, int t)
{
	for (int i = 0; i < 16; i++) {
		char c = t * 16 + i;
		if (p[i] != c || p[size / 2 + i] != c || p[size - 16 + i] != c)
			return 0;
	}
	return 1;
}

static int
mapped(char *p, size_t size)
{
	if (p < os_base || (size_t)(p - os_base) + size > (size_t)NPAGES * PAGE)
		return 0;
	size_t off = p - os_base;
	for (size_t i = off / PAGE; i < (off + size + PAGE - 1) / PAGE; i++) {
		if (!(os_page[i] & 1))
			return 0;
	}
	return 1;
}

static void
do_op(int t, const struct mt_op *op)
{
	struct user *u = &user[++t];
	int a = mod(op->a[0], NAR);
	struct slab_arena *arena = &ar[a].a;
	if (strcmp(op->op, "map") == 0) {
		if (!ar[a].has || u->n == NOUT)
			return;
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"map\",\"a\":%d,"
			 "\"s\":0}", t, a + 1);
		os_fault[t] = 0;
		char *p = slab_map(arena);
		size_t size = arena->slab_size;
		int ok = p != NULL && mapped(p, size);
		int id = p != NULL ? amap_id(&ids, (uintptr_t)p) : 0;
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":%d,\"pg\":%d,"
			 "\"al\":%d,\"mapped\":%d,\"fault\":%d}", t, id,
			 ok ? (int)((p - os_base) / PAGE) : -1,
			 ((uintptr_t)p & (size - 1)) == 0, ok, os_fault[t]);
		if (ok) {
			stamp(p, size, t);
			u->out[u->n].p = p;
			u->out[u->n++].a = a;
		}
	} else if (strcmp(op->op, "unmap") == 0) {
		/* The a[1]-th of the arena's slabs this thread has. */
		int k = -1, skip = op->a[1];
		for (int i = u->n - 1; i >= 0; i--) {
			if (u->out[i].a == a) {
				k = i;
				if (skip-- == 0)
					break;
			}
		}
		if (k < 0)
			return;
		char *p = u->out[k].p;
		u->out[k] = u->out[--u->n];
		int ok = stamp_ok(p, arena->slab_size, t);
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"unmap\","
			 "\"a\":%d,\"s\":%d,\"same\":%d}", t, a + 1,
			 amap_id(&ids, (uintptr_t)p), ok);
		slab_unmap(arena, p);
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":0}", t);
	} else if (strcmp(op->op, "unull") == 0) {
		if (ar[a].has)
			slab_unmap(arena, NULL);
	} else if (strcmp(op->op, "qused") == 0) {
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"qused\",\"a\":1,"
			 "\"s\":0}", t);
		size_t r = op_used(&quota) / 1024;
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":%d}", t, (int)r);
	} else if (strcmp(op->op, "quse") == 0) {
		int n = 1 + mod(op->a[1], 1 << 20);
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"quse\",\"a\":1,"
			 "\"s\":%d}", t, n);
		ssize_t r = op_use(&quota, (size_t)n * 1024);
		if (r >= 0)
			u->granted += n;
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":%d}", t, r >= 0);
	} else if (strcmp(op->op, "qfree") == 0) {
		if (u->granted == 0)
			return;
		int n = u->granted;
		u->granted = 0;
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"qfree\",\"a\":1,"
			 "\"s\":%d}", t, n);
		op_release(&quota, (size_t)n * 1024);
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":0}", t);
	}
}

static void
mt_exec(int t, const struct mt_op *op)
{
	do_op(t, op);
}

static void
sum(void)
{
	size_t used[NAR] = { 0 };
	for (int i = 0; i < NAR; i++)
		used[i] = ar[i].has ? ar[i].a.used : 0;
	mt_event('x', 0, "{\"op\":\"sum\",\"used\":[%d,%d],\"qused\":%d,"
		 "\"pages\":%d,\"quiet\":%d,\"priv\":%d,\"shar\":%d,\"ro\":%d,"
		 "\"bad\":%d}", (int)(used[0] / 1024), (int)(used[1] / 1024),
		 (int)(quota_used(&quota) / 1024), (int)os_mapped, os_count(2),
		 os_priv, os_shar, os_count(4), os_bad);
}

static void
mt_before(const struct mt_op *op)
{
	int a = mod(op->a[0], NAR);
	if (strcmp(op->op, "create") == 0) {
		/* create arena prealloc slab-size flags */
		static const int flags[] = {
			SLAB_ARENA_PRIVATE, SLAB_ARENA_SHARED,
			SLAB_ARENA_PRIVATE | SLAB_ARENA_DONTDUMP,
			SLAB_ARENA_SHARED | SLAB_ARENA_DONTDUMP,
			MAP_PRIVATE, MAP_SHARED };
		if (ar[a].has)
			return;
		size_t pre = op->a[1];
		uint32_t slab = op->a[2];
		int f = mod(op->a[3], 6);
		os_fault[0] = 0;
		dirty(&ar[a].a, sizeof(ar[a].a));
		int rc = slab_arena_create(&ar[a].a, &quota, pre, slab,
					   flags[f]);
		ar[a].has = rc == 0;
		size_t kb = pre < (1ull << 40) ? (pre + 1023) / 1024 : 1 << 30;
		mt_event('x', 0, "{\"op\":\"create\",\"a\":%d,\"pre\":%d,"
			 "\"slab\":%d,\"shared\":%d,\"quiet\":%d,\"rc\":%d,"
			 "\"fault\":%d,\"slabsize\":%d,\"prealloc\":%d,"
			 "\"used\":%d,\"mapped\":%d,\"al\":%d}", a + 1, (int)kb,
			 (int)slab, f % 2, f / 2 == 1, rc, os_fault[0],
			 (int)ar[a].a.slab_size,
			 (int)(ar[a].a.prealloc / 1024), (int)ar[a].a.used,
			 rc == 0 && (ar[a].a.prealloc == 0 ||
				     mapped(ar[a].a.arena, ar[a].a.prealloc)),
			 ((uintptr_t)ar[a].a.arena &
			  ((uintptr_t)ar[a].a.slab_size - 1)) == 0);
	} else if (strcmp(op->op, "protect") == 0) {
		if (ar[a].has) {
			slab_arena_mprotect(&ar[a].a);
			mt_event('x', 0, "{\"op\":\"protect\",\"a\":%d}", a + 1);
		}
	} else if (strcmp(op->op, "feature") == 0) {
		/* feature number */
		int priv = os_priv;
		os_fault[0] = 0;
		int r = small_test_feature((unsigned)op->a[0]);
		os_priv = priv;
		mt_event('x', 0, "{\"op\":\"feature\",\"k\":%d,\"r\":%d,"
			 "\"fault\":%d}", mod(op->a[0], 1 << 30), r,
			 os_fault[0] > 0 || os_noadvise);
		sum();
	} else if (strcmp(op->op, "sum") == 0) {
		sum();
	} else if (strcmp(op->op, "destroy") == 0) {
		if (!ar[a].has)
			return;
		for (int t = 0; t <= MT_THR; t++) {
			struct mt_op un = { "unmap", { a } };
			for (int i = 0; i < NOUT; i++)
				do_op(t - 1, &un);
		}
		slab_arena_destroy(&ar[a].a);
		ar[a].has = false;
		mt_event('x', 0, "{\"op\":\"destroy\",\"a\":%d}", a + 1);
		sum();
	} else {
		do_op(mod(op->a[4], MT_THR + 1) - 1, op);
	}
}

/** init limit mask-of-refused-mappings skew */
static void
mt_begin(const struct mt_op *init)
{
	memset(os_page, 0, os_high);
	os_next = os_high = os_mapped = 0;
	os_mask = init->a[1];
	os_skew = init->a[2];
	os_noadvise = init->a[3] != 0;
	os_calls = os_priv = os_shar = os_bad = 0;
	ids.n = 0;
	memset(user, 0, sizeof(user));
	memset(ar, 0, sizeof(ar));
	dirty(&quota, sizeof(quota));
	quota_init(&quota, (size_t)init->a[0] * 1024);
#ifdef TARANTOOL_SMALL_USE_MADVISE
	int mad = !os_noadvise;
#else
	int mad = 0;
#endif
	mt_event('i', 0, "{\"op\":\"init\",\"thr\":%d,\"total\":%d,\"mad\":%d}",
		 MT_THR, (int)init->a[0], mad);
	os_on = true;
}

static void
mt_end(void)
{
	sum();
	for (int i = 0; i < NAR; i++) {
		struct mt_op d = { "destroy", { i } };
		mt_before(&d);
	}
	os_on = false;
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	os_base = mmap(NULL, (size_t)NPAGES * PAGE + (1 << 30),
		       PROT_READ | PROT_WRITE,
		       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (os_base == MAP_FAILED)
		exit(96);
	os_base = (char *)(((uintptr_t)os_base + (1 << 30) - 1) &
			   ~(uintptr_t)((1 << 30) - 1));
	mt_scripts();
	drv_finish();
	return 0;
}
