/*
 * Conformance driver: a quota and lessors of it, under controlled schedules.
 * Every thread has a lessor of its own.
 */
#include "mt.h"
#include <small/quota.h>
#include <small/quota_lessor.h>

void op_init(struct quota *q, size_t n);
ssize_t op_use(struct quota *q, size_t n);
ssize_t op_release(struct quota *q, size_t n);
ssize_t op_set(struct quota *q, size_t n);
size_t op_used(struct quota *q);
size_t op_total(struct quota *q);
void op_both(struct quota *q, size_t *t, size_t *u);
void op_lcreate(struct quota_lessor *l, struct quota *q);
void op_ldestroy(struct quota_lessor *l);
ssize_t op_lease(struct quota_lessor *l, ssize_t n);
ssize_t op_endlease(struct quota_lessor *l, size_t n);
size_t op_leased(struct quota_lessor *l);
size_t op_avail(struct quota_lessor *l);

/** 16 bits at a time, the least significant ones first. */
#define BIG "[%d,%d,%d,%d]"
#define BIGV(v) (int)((uint64_t)(v) & 65535), \
	(int)((uint64_t)(v) >> 16 & 65535), \
	(int)((uint64_t)(v) >> 32 & 65535), (int)((uint64_t)(v) >> 48)

enum { NGRANT = 64 };

static struct quota quota;
static struct user {
	struct quota_lessor les;
	bool has;
	/** Amounts granted to the thread and not released, in units. */
	size_t granted;
} user[MT_THR + 1];

static void
call(int t, const char *f, size_t n)
{
	mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"%s\",\"n\":" BIG "}",
		 t, f, BIGV(n));
}

static void
ret(int t, ssize_t r)
{
	mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"ok\":%d,\"n\":" BIG "}", t,
		 r >= 0, BIGV(r >= 0 ? r : 0));
}

static void
lret(int t, ssize_t r)
{
	struct quota_lessor *l = &user[t].les;
	mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"ok\":%d,\"n\":" BIG
		 ",\"leased\":" BIG ",\"avail\":" BIG "}", t, r >= 0,
		 BIGV(r >= 0 ? r : 0), BIGV(op_leased(l)), BIGV(op_avail(l)));
}

/** Sizes: a * 2^b + c, b and c may be absent. */
static size_t
size_arg(const struct mt_op *op)
{
	return ((size_t)op->a[0] << mod(op->a[1], 63)) + (size_t)op->a[2];
}

static void
do_op(int t, const struct mt_op *op)
{
	struct user *u = &user[++t];
	size_t n = size_arg(op);
	if (strcmp(op->op, "use") == 0) {
		if (n == 0)
			return;
		call(t, "use", n);
		ssize_t r = op_use(&quota, n);
		ret(t, r);
		if (r >= 0)
			u->granted += (n + 1023) / 1024;
	} else if (strcmp(op->op, "release") == 0) {
		if (n > QUOTA_MAX || (n + 1023) / 1024 > u->granted)
			n = u->granted * 1024;
		if (n == 0)
			return;
		u->granted -= (n + 1023) / 1024;
		call(t, "release", n);
		ret(t, op_release(&quota, n));
	} else if (strcmp(op->op, "set") == 0) {
		if (n > QUOTA_MAX)
			return;
		call(t, "set", n);
		ret(t, op_set(&quota, n));
	} else if (strcmp(op->op, "used") == 0) {
		call(t, "used", 0);
		ret(t, op_used(&quota));
	} else if (strcmp(op->op, "total") == 0) {
		call(t, "total", 0);
		ret(t, op_total(&quota));
	} else if (strcmp(op->op, "both") == 0) {
		size_t a = 0, b = 0;
		call(t, "both", 0);
		op_both(&quota, &a, &b);
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"ok\":1,\"n\":" BIG
			 ",\"m\":" BIG "}", t, BIGV(a), BIGV(b));
	} else if (strcmp(op->op, "lease") == 0) {
		if (!u->has)
			return;
		call(t, "lease", (ssize_t)n < 0 ? 0 : n);
		lret(t, op_lease(&u->les, n));
	} else if (strcmp(op->op, "unlease") == 0) {
		/* The last lease may be given back in parts. */
		if (!u->has)
			return;
		size_t have = op_leased(&u->les);
		if (op->a[3] == 1)
			n = have;
		if (n > have)
			n = have > 0 ? n % (have + 1) : 0;
		call(t, "unlease", n);
		lret(t, op_endlease(&u->les, n));
	} else if (strcmp(op->op, "ldestroy") == 0) {
		if (!u->has)
			return;
		call(t, "ldestroy", 0);
		op_ldestroy(&u->les);
		lret(t, 0);
	} else if (strcmp(op->op, "lcreate") == 0) {
		/* Lessors need room for one big chunk in the source. */
		if (op_total(&quota) < QUOTA_USE_MIN)
			return;
		if (u->has) {
			call(t, "ldestroy", 0);
			op_ldestroy(&u->les);
			lret(t, 0);
		}
		dirty(&u->les, sizeof(u->les));
		op_lcreate(&u->les, &quota);
		u->has = true;
		mt_event('x', t, "{\"op\":\"lcreate\",\"t\":%d,\"leased\":" BIG
			 ",\"avail\":" BIG "}", t, BIGV(op_leased(&u->les)),
			 BIGV(op_avail(&u->les)));
	}
}

static void
mt_exec(int t, const struct mt_op *op)
{
	do_op(t, op);
}

static void
mt_before(const struct mt_op *op)
{
	/* The last argument is the thread on whose behalf it is done. */
	do_op(mod(op->a[4], MT_THR + 1) - 1, op);
}

/** init total (a * 2^b + c), lessors for everybody? */
static void
mt_begin(const struct mt_op *init)
{
	size_t n = size_arg(init);
	if (n > QUOTA_MAX)
		n = QUOTA_MAX;
	dirty(&quota, sizeof(quota));
	op_init(&quota, n);
	memset(user, 0, sizeof(user));
	mt_event('i', 0, "{\"op\":\"init\",\"thr\":%d,\"n\":" BIG ",\"max\":" BIG
		 ",\"min\":" BIG "}", MT_THR, BIGV(n), BIGV(QUOTA_MAX),
		 BIGV(QUOTA_USE_MIN));
	struct mt_op lc = { "lcreate", { 0 } }, both = { "both", { 0 } };
	do_op(-1, &both);
	if (init->a[3] == 1) {
		for (int t = 0; t <= MT_THR; t++)
			do_op(t - 1, &lc);
	}
}

static void
mt_end(void)
{
	struct mt_op ld = { "ldestroy", { 0 } }, both = { "both", { 0 } };
	struct mt_op all = { "release", { -1 } }, used = { "used", { 0 } };
	do_op(-1, &both);
	for (int t = 0; t <= MT_THR; t++) {
		do_op(t - 1, &ld);
		user[t].has = false;
	}
	do_op(-1, &used);
	for (int t = 0; t <= MT_THR; t++)
		do_op(t - 1, &all);
	do_op(-1, &both);
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	mt_scripts();
	drv_finish();
	return 0;
}
