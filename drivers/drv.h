/*
 * Common part of the conformance drivers.
 *
 * A driver reads a script (one operation per line) from the file given as
 * argv[1], applies every operation to the real library and records one JSON
 * line per event into the file given as argv[2].  A driver knows nothing about
 * what is right: the TLA+ trace specification decides that.
 */
#ifndef DRV_H
#define DRV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>

#ifdef DRV_HEAP
/*
 * Live blocks of the system allocator: linked with --wrap, so that only the
 * calls of the library and of the driver itself are counted.
 */
static long heap_live, heap_base;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);

static inline void *
heap_count(void *ptr)
{
	if (ptr != NULL)
		__atomic_add_fetch(&heap_live, 1, __ATOMIC_RELAXED);
	return ptr;
}
#ifndef DRV_OWN_MALLOC
void *
__wrap_malloc(size_t size)
{
	return heap_count(__real_malloc(size));
}
#endif
void *
__wrap_calloc(size_t n, size_t size)
{
	return heap_count(__real_calloc(n, size));
}
void *
__wrap_aligned_alloc(size_t align, size_t size)
{
	return heap_count(__real_aligned_alloc(align, size));
}
int
__wrap_posix_memalign(void **ptr, size_t align, size_t size)
{
	int rc = __real_posix_memalign(ptr, align, size);
	if (rc == 0)
		heap_count(*ptr);
	return rc;
}
void *
__wrap_realloc(void *ptr, size_t size)
{
	void *ret = __real_realloc(ptr, size);
	if (ptr == NULL)
		heap_count(ret);
	else if (ret == NULL && size == 0)
		__atomic_sub_fetch(&heap_live, 1, __ATOMIC_RELAXED);
	return ret;
}
void
__wrap_free(void *ptr)
{
	if (ptr != NULL)
		__atomic_sub_fetch(&heap_live, 1, __ATOMIC_RELAXED);
	__real_free(ptr);
}
/** A new world begins. */
#define heap_begin() ((void)(heap_base = heap_live))
/** The whole world is destroyed: what is left of it? */
#define heap_gone() emit("{\"op\":\"gone\",\"heap\":%ld}\n", \
			 heap_live > heap_base ? heap_live - heap_base : 0)
#endif

static char drv_buf[1 << 20];
static size_t drv_len;
static int drv_fd = -1;

static inline void
drv_flush(void)
{
	size_t off = 0;
	while (off < drv_len) {
		ssize_t n = write(drv_fd, drv_buf + off, drv_len - off);
		if (n <= 0)
			_exit(97);
		off += n;
	}
	drv_len = 0;
}

static inline void
emit(const char *fmt, ...)
{
	if (drv_len > sizeof(drv_buf) - 8192 ||
	    (drv_len > sizeof(drv_buf) / 2 && drv_buf[drv_len - 1] == '\n'))
		drv_flush();
	va_list ap;
	va_start(ap, fmt);
	drv_len += vsnprintf(drv_buf + drv_len, 8192, fmt, ap);
	va_end(ap);
}

/** A number of 64 bits (see Big.tla). */
static inline void
big(const char *name, size_t v)
{
	emit(",\"%s\":[%zu,%zu,%zu,%zu]", name, v & 0xffff, v >> 16 & 0xffff,
	     v >> 32 & 0xffff, v >> 48);
}

static void
drv_crash(int sig)
{
	/* A partially written line is dropped. */
	while (drv_len > 0 && drv_buf[drv_len - 1] != '\n')
		drv_len--;
	static const char *what = "crash";
	if (sig == SIGALRM)
		what = "hang";
	drv_len += snprintf(drv_buf + drv_len, 128,
			    "{\"op\":\"%s\",\"sig\":%d}\n", what, sig);
	drv_flush();
	_exit(0);
}

static char *drv_altstack[1];

static inline void
drv_signals(void)
{
	stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
	drv_altstack[0] = ss.ss_sp;
	sigaltstack(&ss, NULL);
	int sigs[] = { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM };
	for (unsigned i = 0; i < sizeof(sigs) / sizeof(*sigs); i++) {
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = drv_crash;
		sa.sa_flags = SA_ONSTACK | SA_NODEFER;
		sigaction(sigs[i], &sa, NULL);
	}
}

/** Non-termination of one operation is reported after this many CPU s. */
#ifndef DRV_HANG_S
#define DRV_HANG_S 20
#endif

static inline void
drv_watchdog(void)
{
	/* CPU time, not wall time: a loaded machine is not a hang. */
	struct itimerval it = { {0, 0}, { DRV_HANG_S, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static void
drv_vtalrm(int sig)
{
	(void)sig;
	drv_crash(SIGALRM);
}

/** One parsed script line. */
struct cmd {
	char op[32];
	int n;
	long long a[64];
};

static FILE *drv_in;
static int drv_line;

/*
 * What is created does not depend on what the memory held before: it holds
 * something else every time.
 */
static unsigned drv_dirt;

static inline void
drv_dirt_start(const long long *a, int n)
{
	drv_dirt = 0;
	for (int i = 0; i < n; i++)
		drv_dirt += a[i] ^ a[i] >> 8 ^ a[i] >> 16;
}

static inline void
dirty(void *p, size_t n)
{
	static const unsigned char b[] = { 0xfb, 0x7b, 0x01, 0xfe, 0x40 };
	memset(p, b[drv_dirt++ % sizeof(b)], n);
}
#define DIRTY(p) dirty((p), sizeof(*(p)))

static inline bool
next_cmd(struct cmd *c)
{
	static char line[4096];
	for (;;) {
		if (fgets(line, sizeof(line), drv_in) == NULL)
			return false;
		drv_line++;
		char *save, *t = strtok_r(line, " \n", &save);
		if (t == NULL || *t == '#')
			continue;
		snprintf(c->op, sizeof(c->op), "%s", t);
		c->n = 0;
		memset(c->a, 0, sizeof(c->a));
		while ((t = strtok_r(NULL, " \n", &save)) != NULL && c->n < 64)
			c->a[c->n++] = strtoll(t, NULL, 10);
		if (strcmp(c->op, "init") == 0)
			drv_dirt_start(c->a, c->n);
		drv_watchdog();
		return true;
	}
}

#define IS(c, name) (strcmp((c)->op, name) == 0)

static inline void
drv_start(int argc, char **argv)
{
	if (argc < 3) {
		fprintf(stderr, "usage: driver SCRIPT TRACE\n");
		exit(98);
	}
	/*
	 * The same addresses in every run: a rejection repeats itself, and no
	 * piece of memory crosses a border of a 1 GB zone (see ZFMT).
	 */
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) &&
	    getenv("DRV_FIXED") == NULL &&
	    personality(pers | ADDR_NO_RANDOMIZE) != -1) {
		setenv("DRV_FIXED", "1", 1);
		execv("/proc/self/exe", argv);
	}
	drv_in = fopen(argv[1], "r");
	if (drv_in == NULL)
		exit(98);
	drv_fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (drv_fd < 0)
		exit(98);
	drv_signals();
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = drv_vtalrm;
	sa.sa_flags = SA_ONSTACK | SA_NODEFER;
	sigaction(SIGVTALRM, &sa, NULL);
}

static inline void
drv_finish(void)
{
	drv_flush();
	close(drv_fd);
}

/** Script values are reduced into a range, negative ones included. */
static inline long long
mod(long long v, long long n)
{
	long long r = v % n;
	return r < 0 ? r + n : r;
}

/**
 * A size that no memory limit of the scripts allows: near the greatest one
 * or, for negative values, a bit more than a multiple of 4 GB.
 */
static inline size_t
huge_size(long long k, long long range)
{
#if defined(__SANITIZE_ADDRESS__)
	/* There is no limit for a checked build, it aborts without memory. */
	if (k < 0)
		k = -(k + 1);
#endif
	if (k >= 0)
		return SIZE_MAX - mod(k, range);
	static const size_t m[] = { 1, 2, 3, 8, 1 << 20 };
	k = -(k + 1);
	return (m[k % 5] << 32) + (size_t)(k / 5 % range);
}

/**
 * Content tags. A live piece of memory is filled with a pattern that depends
 * on its tag; pat_ok() says whether every byte still has it. When a piece is
 * large only its borders and one word per 512 bytes are touched.
 */
static inline unsigned char
pat_byte(unsigned tag, size_t i)
{
	unsigned v = tag * 2654435761u + (unsigned)i * 40503u;
	return (unsigned char)((v >> 11) ^ (v >> 23));
}

static inline size_t
pat_next(size_t i, size_t size)
{
	if (i < 256 || i + 256 >= size)
		return i + 1;
	if ((i & 511) < 7)
		return i + 1;
	size_t n = (i | 511) + 1;
	return n + 256 > size ? size - 256 : n;
}

static inline void
pat_fill(void *ptr, size_t size, unsigned tag)
{
	unsigned char *p = ptr;
	for (size_t i = 0; i < size; i = pat_next(i, size))
		p[i] = pat_byte(tag, i);
}

/** The first n bytes of a piece of the given size are intact. */
static inline int
pat_ok_prefix(const void *ptr, size_t size, size_t n, unsigned tag)
{
	const unsigned char *p = ptr;
	for (size_t i = 0; i < n; i = pat_next(i, size))
		if (p[i] != pat_byte(tag, i))
			return 0;
	return 1;
}

static inline int
pat_ok(const void *ptr, size_t size, unsigned tag)
{
	return pat_ok_prefix(ptr, size, size, tag);
}

/**
 * Address map: the drivers log an address as (base number, offset) where base
 * numbers are given in the order of the first appearance.
 */
struct amap {
	uintptr_t base[4096];
	int n;
};

static inline int
amap_id(struct amap *m, uintptr_t base)
{
	for (int i = m->n - 1; i >= 0; i--)
		if (m->base[i] == base)
			return i + 1;
	if (m->n == 4096)
		exit(96);
	m->base[m->n++] = base;
	return m->n;
}

/** An address as two integers that fit TLC's: 1 GB zone and offset in it. */
#define ZFMT "\"z\":%d,\"off\":%d"
#define ZARG(p) (int)((uintptr_t)(p) >> 30), \
	(int)((uintptr_t)(p) & ((1u << 30) - 1))

/** Checked builds lease quota in big chunks and need at least one of them. */
static inline size_t
quota_for(size_t need)
{
#if defined(__SANITIZE_ADDRESS__)
	return need < (64u << 20) ? (64u << 20) : need;
#else
	return need;
#endif
}

/** Shadow state around an object, logged only by checked builds. */
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
/**
 * An access of the byte is reported. The end of the memory the sanitizer's
 * allocator has mapped so far is not poisoned, an access is a fault there.
 */
static inline int
guarded(const char *p)
{
	static int fd[2];
	if (__asan_address_is_poisoned(p))
		return 1;
	if (fd[1] == 0 && pipe(fd) != 0)
		return 0;
	if (syscall(SYS_write, fd[1], p, 1) < 0 && errno == EFAULT)
		return 1;
	char c;
	(void)!read(fd[0], &c, 1);
	return 0;
}

static inline void
emit_shadow(const void *ptr, size_t size)
{
	const char *p = ptr;
	int in = 0;
	for (size_t i = 0; i < size; i = pat_next(i, size))
		in += __asan_address_is_poisoned(p + i);
	/* Bytes before are poisoned up to the previous multiple of 8. */
	const char *b = (const char *)((uintptr_t)p & ~(uintptr_t)7);
	emit(",\"pin\":%d,\"pb\":%d,\"pa\":%d", in,
	     guarded(b - 1), guarded(p + size));
}
static inline int
dead_bytes(const void *ptr, size_t size)
{
	const char *p = ptr;
	int n = 0;
	for (size_t i = 0; i < size; i = pat_next(i, size))
		n += !__asan_address_is_poisoned(p + i);
	return n;
}
#else
static inline void
emit_shadow(const void *ptr, size_t size)
{
	(void)ptr;
	(void)size;
}
static inline int
dead_bytes(const void *ptr, size_t size)
{
	(void)ptr;
	(void)size;
	return 0;
}
#endif

/**
 * Numbered bytes. A piece written with the start value v holds the bytes v,
 * v + 1, ... modulo 251, so that any content can be logged as a sequence of
 * runs [first value, length] without knowing what it should be.
 */
static inline void
num_fill(void *ptr, size_t size, unsigned v)
{
	unsigned char *p = ptr;
	v %= 251;
	for (size_t i = 0; i < size; i++) {
		p[i] = v;
		v = v == 250 ? 0 : v + 1;
	}
}

struct runs {
	int first, next, n;
	size_t len;
};

static inline void
runs_begin(struct runs *r)
{
	r->n = 0;
	r->len = 0;
	emit(",\"runs\":[");
}

static inline void
runs_cut(struct runs *r)
{
	if (r->len > 0 && r->n++ < 200)
		emit("%s[%d,%zu]", r->n > 1 ? "," : "", r->first, r->len);
	r->len = 0;
}

static inline void
runs_feed(struct runs *r, const void *ptr, size_t size)
{
	const unsigned char *p = ptr;
	for (size_t i = 0; i < size; i++) {
		if (r->len > 0 && p[i] != r->next)
			runs_cut(r);
		if (r->len++ == 0)
			r->first = p[i];
		r->next = p[i] >= 250 ? 0 : p[i] + 1;
	}
}

static inline void
runs_end(struct runs *r)
{
	runs_cut(r);
	emit("]");
}

#if defined(__SANITIZE_ADDRESS__)
const char *
__asan_default_options(void)
{
	return "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:"
	       "handle_sigbus=0:handle_sigfpe=0:allocator_may_return_null=1:"
	       "quarantine_size_mb=16:max_allocation_size_mb=2048";
}
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sys/wait.h>
#include <errno.h>
#include <small/util.h>

static void
child_on_assert(const char *file, int line, const char *func, const char *expr)
{
	(void)file;
	(void)line;
	(void)func;
	(void)expr;
	_exit(42);
}

/**
 * Do what must be noticed in a child process: what is left of an allocator
 * after a failed assertion is nobody's business.
 * Returns 1 if an assertion of the library failed, 2 if the process died, 0 if
 * nothing was noticed.
 */
static inline int
in_child(void (*func)(void *), void *arg)
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0)
		exit(98);
	if (pid == 0) {
		close(2);
		signal(SIGABRT, SIG_DFL);
		signal(SIGSEGV, SIG_DFL);
		small_on_assert_failure = child_on_assert;
		func(arg);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
		return 1;
	return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 2;
}
#endif

#endif
