/* Conformance driver: the lock-free LIFO, under controlled schedules. */
#include "mt.h"
#include <small/lf_lifo.h>

void op_init(struct lf_lifo *head);
void op_push(struct lf_lifo *head, void *elem);
void *op_pop(struct lf_lifo *head);
int op_empty(struct lf_lifo *head);

enum { NEL = 12, ELSZ = 1 << 16 };

static struct lf_lifo head;
static char *area;
/** Elements of every thread, the one that is pushed next is the last. */
static int own[MT_THR + 1][NEL * 4], nown[MT_THR + 1];

static int
id_of(void *p)
{
	if (p == NULL)
		return 0;
	size_t off = (char *)p - area;
	if ((char *)p < area || off >= (size_t)NEL * ELSZ || off % ELSZ != 0)
		return -1;
	return off / ELSZ + 1;
}

/** What the owner of an element writes over it. */
static void
scribble(int e, int t)
{
	void *v = e % 3 == 0 ? NULL : e % 3 == 1 ?
		  area + (size_t)(e % NEL) * ELSZ + t :
		  (void *)(intptr_t)0x4141414141414141;
	memcpy(area + (size_t)(e - 1) * ELSZ, &v, sizeof(v));
}

static void
do_op(int t, const struct mt_op *op)
{
	/* 0 is the main thread. */
	t++;
	if (strcmp(op->op, "pop") == 0) {
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"pop\","
			 "\"e\":0}", t);
		int e = id_of(op_pop(&head));
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":%d}", t, e);
		if (e > 0 && nown[t] < NEL * 4) {
			own[t][nown[t]++] = e;
			scribble(e, t);
		}
	} else if (strcmp(op->op, "push") == 0) {
		if (nown[t] == 0)
			return;
		int k = nown[t] - 1 - mod(op->a[0], nown[t]);
		int e = own[t][k];
		memmove(&own[t][k], &own[t][k + 1],
			sizeof(int) * (nown[t] - k - 1));
		nown[t]--;
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"push\","
			 "\"e\":%d}", t, e);
		op_push(&head, area + (size_t)(e - 1) * ELSZ);
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":0}", t);
	} else if (strcmp(op->op, "empty") == 0) {
		mt_event('c', t, "{\"op\":\"call\",\"t\":%d,\"f\":\"empty\","
			 "\"e\":0}", t);
		int r = op_empty(&head);
		mt_event('r', t, "{\"op\":\"ret\",\"t\":%d,\"r\":%d}", t, r);
	} else if (strcmp(op->op, "spin") == 0) {
		/*
		 * Push and pop an element many times, all at one moment
		 * as the other threads see it.
		 */
		if (nown[t] == 0)
			return;
		char *p = area + (size_t)(own[t][nown[t] - 1] - 1) * ELSZ;
		int bad = 0, cur = mt_cur;
		mt_cur = -1;
		for (int i = 0; i < op->a[0]; i++) {
			op_push(&head, p);
			bad += op_pop(&head) != p;
		}
		mt_cur = cur;
		mt_event('x', t, "{\"op\":\"spin\",\"t\":%d,\"bad\":%d}", t,
			 bad);
	}
}

static void
mt_exec(int t, const struct mt_op *op)
{
	do_op(t, op);
}

static void
mt_before(const struct mt_op *op)
{
	do_op(-1, op);
}

/** init how many elements each thread owns, the main one first */
static void
mt_begin(const struct mt_op *init)
{
	dirty(&head, sizeof(head));
	op_init(&head);
	int next = 1;
	for (int t = 0; t <= MT_THR; t++) {
		nown[t] = 0;
		for (int i = 0; i < init->a[t] && next <= NEL; i++) {
			scribble(next, t);
			own[t][nown[t]++] = next++;
		}
	}
	mt_event('i', 0, "{\"op\":\"init\",\"thr\":%d}", MT_THR);
}

static void
mt_end(void)
{
	struct mt_op pop = { "pop", { 0 } }, empty = { "empty", { 0 } };
	for (int i = 0; i < NEL + 2; i++) {
		int n = nown[0];
		do_op(-1, &empty);
		do_op(-1, &pop);
		if (nown[0] == n)
			break;
	}
	do_op(-1, &empty);
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	/* The first 64 KB of the address space are never an element. */
	area = aligned_alloc(ELSZ, (size_t)NEL * ELSZ);
	memset(area, 0, (size_t)NEL * ELSZ);
	mt_scripts();
	drv_finish();
	return 0;
}
