/*
 * Deterministic concurrency for the drivers of lock-free code.
 *
 * The code under test is compiled with -fsanitize=thread but linked with the
 * run time below: every memory access it makes is a scheduling point. Threads
 * are coroutines, so an execution is a function of the choices made at these
 * points. Choices are enumerated exhaustively up to a number of preemptions
 * (and spurious failures of weak compare-and-swap), or drawn at random.
 *
 * What an execution produces is a history of calls and returns. Histories
 * that differ only in the order of adjacent calls or adjacent returns are the
 * same and are recorded once.
 */
#ifndef MT_H
#define MT_H
#include "drv.h"
#include <ucontext.h>

enum { MT_THR = 4, MT_PROG = 24, MT_PATH = 1 << 16, MT_STACK = 1 << 16 };

struct mt_op {
	char op[16];
	long long a[6];
};

static struct mt_thr {
	ucontext_t ctx;
	char *stack;
	struct mt_op prog[MT_PROG];
	int n, pos;
	bool done;
} mt_thr[MT_THR];
static ucontext_t mt_main;
static int mt_nthr;
/** -1: not in a thread, accesses are not scheduled. */
static int mt_cur = -1;

/** Provided by the driver: one operation of a thread. */
static void mt_exec(int t, const struct mt_op *op);

/* ------------------------------------------------------------- schedules */
static struct { unsigned char pick, alts; } mt_path[MT_PATH];
static int mt_len, mt_at;
static int mt_bound, mt_spent;
/** > 0: random schedules, one switch in that many points. */
static int mt_random;
static uint64_t mt_seed;
static long mt_steps, mt_run_steps;
/** A thread went on and on while the others stood still. */
static bool mt_waits;

static inline uint64_t
mt_rand(void)
{
	mt_seed ^= mt_seed << 13;
	mt_seed ^= mt_seed >> 7;
	mt_seed ^= mt_seed << 17;
	return mt_seed;
}

/** Pick one of alts alternatives; all but the first one have a cost. */
static int
mt_choose(int alts, bool costs)
{
	if (alts <= 1)
		return 0;
	if (mt_random > 0) {
		if (!costs)
			return mt_rand() % alts;
		if (mt_rand() % mt_random != 0)
			return 0;
		return 1 + mt_rand() % (alts - 1);
	}
	if (costs && mt_spent >= mt_bound)
		return 0;
	if (mt_at >= MT_PATH)
		return 0;
	if (mt_at == mt_len) {
		mt_path[mt_len].pick = 0;
		mt_path[mt_len++].alts = alts;
	}
	int pick = mt_path[mt_at++].pick;
	if (pick >= alts)
		exit(96);
	if (costs && pick > 0)
		mt_spent++;
	return pick;
}

/** Prepare the next path; false when there is none. */
static bool
mt_next_path(void)
{
	while (mt_len > 0 &&
	       mt_path[mt_len - 1].pick + 1 >= mt_path[mt_len - 1].alts)
		mt_len--;
	if (mt_len == 0)
		return false;
	mt_path[mt_len - 1].pick++;
	return true;
}

static void
mt_switch(int to)
{
	int from = mt_cur;
	mt_cur = to;
	swapcontext(&mt_thr[from].ctx, &mt_thr[to].ctx);
}

/** The k-th other thread that has something to do, or their number. */
static int
mt_other(int k)
{
	int n = 0;
	for (int i = 0; i < mt_nthr; i++) {
		if (i == mt_cur || mt_thr[i].done)
			continue;
		if (n++ == k)
			return i;
	}
	return k < 0 ? n : -1;
}

static void
mt_yield(void)
{
	int n = mt_other(-1);
	mt_steps++;
	if (n == 0) {
		return;
	}
	if (++mt_run_steps > 3000) {
		mt_waits = true;
		/* The others must be able to help a waiting thread. */
		mt_run_steps = 0;
		mt_switch(mt_other(mt_steps / 3000 % n));
		return;
	}
	int k = mt_choose(n + 1, true);
	if (k > 0) {
		mt_run_steps = 0;
		mt_switch(mt_other(k - 1));
	}
}

/** A scheduling point: the access happens when this returns. */
static void
mt_point(const volatile void *p)
{
	if (mt_cur < 0)
		return;
	const char *c = (const char *)p, *s = mt_thr[mt_cur].stack;
	if (c >= s && c < s + MT_STACK)
		return;
	mt_yield();
}

/** A weak compare-and-swap may fail for no reason. */
static bool
mt_spurious(void)
{
	return mt_cur >= 0 && mt_choose(2, true) == 1;
}

static void
mt_body(int t)
{
	struct mt_thr *th = &mt_thr[t];
	for (th->pos = 0; th->pos < th->n; th->pos++) {
		mt_run_steps = 0;
		mt_exec(t, &th->prog[th->pos]);
	}
	th->done = true;
	int n = mt_other(-1);
	mt_run_steps = 0;
	if (n == 0) {
		mt_cur = -1;
		setcontext(&mt_main);
	}
	int to = mt_other(mt_choose(n, false));
	mt_cur = to;
	setcontext(&mt_thr[to].ctx);
}

/* -------------------------------------------------------------- histories */
struct mt_ev {
	char text[200];
	/** 'c' call, 'r' return, otherwise kept in place. */
	char kind;
	int t;
};

static struct mt_ev mt_hist[4096];
static int mt_nhist;

static void
mt_event(char kind, int t, const char *fmt, ...)
{
	if (mt_nhist == 4096)
		exit(96);
	struct mt_ev *e = &mt_hist[mt_nhist++];
	e->kind = kind;
	e->t = t;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(e->text, sizeof(e->text), fmt, ap);
	va_end(ap);
}

static uint64_t mt_seen[1 << 20];
static int mt_nseen;
static long mt_runs;

static bool
mt_is_new(uint64_t h)
{
	if (h == 0)
		h = 1;
	if (mt_nseen > (1 << 19))
		return false;
	for (size_t i = h & ((1 << 20) - 1);; i = (i + 1) & ((1 << 20) - 1)) {
		if (mt_seen[i] == h)
			return false;
		if (mt_seen[i] == 0) {
			mt_seen[i] = h;
			mt_nseen++;
			return true;
		}
	}
}

static void
mt_hist_emit(void)
{
	for (int i = 1; i < mt_nhist; i++) {
		for (int j = i; j > 0; j--) {
			struct mt_ev *a = &mt_hist[j - 1], *b = &mt_hist[j];
			if ((b->kind != 'c' && b->kind != 'r') ||
			    a->kind != b->kind || a->t <= b->t)
				break;
			struct mt_ev tmp = *a;
			*a = *b;
			*b = tmp;
		}
	}
	if (mt_waits)
		mt_event('x', 0, "{\"op\":\"waits\"}");
	uint64_t h = 1469598103934665603ull;
	for (int i = 0; i < mt_nhist; i++) {
		for (const char *c = mt_hist[i].text; *c; c++)
			h = (h ^ (unsigned char)*c) * 1099511628211ull;
	}
	if (!mt_is_new(h))
		return;
	for (int i = 0; i < mt_nhist; i++)
		emit("%s\n", mt_hist[i].text);
}

/** One execution of the programs; the driver sets up and tears down. */
static void
mt_run(void)
{
	for (int i = 0; i < mt_nthr; i++) {
		struct mt_thr *th = &mt_thr[i];
		if (th->stack == NULL)
			th->stack = malloc(MT_STACK);
		th->done = false;
		getcontext(&th->ctx);
		th->ctx.uc_stack.ss_sp = th->stack;
		th->ctx.uc_stack.ss_size = MT_STACK;
		th->ctx.uc_link = NULL;
		makecontext(&th->ctx, (void (*)(void))mt_body, 1, i);
	}
	mt_at = mt_spent = 0;
	mt_run_steps = 0;
	mt_runs++;
	if (mt_nthr > 0) {
		/*
		 * The first thread is a free choice. The flag is volatile:
		 * setcontext() comes back here.
		 */
		volatile bool back = false;
		getcontext(&mt_main);
		if (!back) {
			back = true;
			int first = mt_choose(mt_nthr, false);
			mt_cur = first;
			setcontext(&mt_thr[first].ctx);
		}
	}
	mt_cur = -1;
}

/* --------------------------------------------------- run time of the code */
#define MT_PLAIN(n) \
	void __tsan_read##n(void *p) { mt_point(p); } \
	void __tsan_write##n(void *p) { mt_point(p); } \
	void __tsan_unaligned_read##n(void *p) { mt_point(p); } \
	void __tsan_unaligned_write##n(void *p) { mt_point(p); } \
	void __tsan_volatile_read##n(void *p) { mt_point(p); } \
	void __tsan_volatile_write##n(void *p) { mt_point(p); } \
	void __tsan_unaligned_volatile_read##n(void *p) { mt_point(p); } \
	void __tsan_unaligned_volatile_write##n(void *p) { mt_point(p); } \
	void __tsan_read_write##n(void *p) { mt_point(p); } \
	void __tsan_unaligned_read_write##n(void *p) { mt_point(p); }
MT_PLAIN(1) MT_PLAIN(2) MT_PLAIN(4) MT_PLAIN(8) MT_PLAIN(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void *pc) { (void)pc; }
void __tsan_read_range(void *p, size_t n) { (void)n; mt_point(p); }
void __tsan_write_range(void *p, size_t n) { (void)n; mt_point(p); }
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void *a) { (void)a; }
void __tsan_atomic_thread_fence(int mo) { (void)mo; mt_point(NULL); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define MT_ATOMIC(n, T) \
	T __tsan_atomic##n##_load(const volatile T *a, int m) \
	{ (void)m; mt_point(a); return *a; } \
	void __tsan_atomic##n##_store(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); *a = v; } \
	T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = v; return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int m) \
	{ (void)m; mt_point(a); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, \
						       T v, int m, int f) \
	{ (void)m; (void)f; mt_point(a); T o = *a; \
	  if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, \
						     T v, int m, int f) \
	{ (void)m; (void)f; mt_point(a); T o = *a; \
	  if (o == *c && !mt_spurious()) { *a = v; return 1; } \
	  *c = o; return 0; } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, \
						  int m, int f) \
	{ (void)m; (void)f; mt_point(a); T o = *a; \
	  if (o == c) *a = v; return o; }
MT_ATOMIC(8, uint8_t)
MT_ATOMIC(16, uint16_t)
MT_ATOMIC(32, uint32_t)
MT_ATOMIC(64, uint64_t)

/* -------------------------------------------------------------- scripts */
/** thread T OP ARGS..., with T counted from 1. */
static bool
mt_line(char *line, struct mt_op *op)
{
	char *save, *t = strtok_r(line, " \n", &save);
	if (t == NULL)
		return false;
	memset(op, 0, sizeof(*op));
	snprintf(op->op, sizeof(op->op), "%s", t);
	for (int i = 0; i < 6 && (t = strtok_r(NULL, " \n", &save)); i++)
		op->a[i] = strtoll(t, NULL, 10);
	return true;
}

/** Provided by the driver: an operation done before the threads start. */
static void mt_before(const struct mt_op *op);
/** Provided by the driver: set up (after init), and wind up. */
static void mt_begin(const struct mt_op *init);
static void mt_end(void);

/*
 * A script:
 *   init ARGS            a new world
 *   pre OP ARGS          done by thread 0 before the others start
 *   t K OP ARGS          added to the program of thread K >= 1
 *   explore BOUND LIMIT  every schedule with at most BOUND preemptions
 *   random N SEED RATE   N random schedules
 */
static void
mt_scripts(void)
{
	static char line[4096], copy[4096];
	static struct mt_op pre[2048];
	struct mt_op init, op;
	int npre = 0;
	memset(&init, 0, sizeof(init));
	while (fgets(line, sizeof(line), drv_in) != NULL) {
		strcpy(copy, line);
		char *rest = copy;
		if (strncmp(copy, "pre ", 4) == 0) {
			if (npre < 2048 && mt_line(copy + 4, &op))
				pre[npre++] = op;
			continue;
		}
		if (strncmp(copy, "t ", 2) == 0) {
			int k = strtol(copy + 2, &rest, 10) - 1;
			if (k < 0 || k >= MT_THR || !mt_line(rest, &op))
				continue;
			if (k >= mt_nthr) {
				for (int i = mt_nthr; i <= k; i++)
					mt_thr[i].n = 0;
				mt_nthr = k + 1;
			}
			if (mt_thr[k].n < MT_PROG)
				mt_thr[k].prog[mt_thr[k].n++] = op;
			continue;
		}
		if (!mt_line(copy, &op))
			continue;
		if (strcmp(op.op, "init") == 0) {
			init = op;
			npre = 0;
			mt_nthr = 0;
			emit("{\"op\":\"script\"}\n");
			continue;
		}
		bool ex = strcmp(op.op, "explore") == 0;
		if (!ex && strcmp(op.op, "random") != 0)
			continue;
		mt_len = 0;
		mt_bound = ex ? op.a[0] : 0;
		mt_random = ex ? 0 : (op.a[2] > 0 ? op.a[2] : 5);
		mt_seed = 0x9e3779b97f4a7c15ull ^ (op.a[1] * 2654435761ull);
		long limit = ex ? op.a[1] : op.a[0];
		for (long i = 0; i < limit || limit == 0; i++) {
			if (i % 64 == 0)
				drv_watchdog();
			mt_nhist = 0;
			mt_waits = false;
			drv_dirt_start(init.a, 6);
			mt_begin(&init);
			for (int j = 0; j < npre; j++)
				mt_before(&pre[j]);
			mt_run();
			mt_end();
			mt_hist_emit();
			if (ex && !mt_next_path())
				break;
		}
	}
}
#endif
