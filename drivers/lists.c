/* Conformance driver: rlist, lifo and slab_list. */
#include "drv.h"
#include <small/rlist.h>
#include <small/lifo.h>
#include <small/slab_list.h>

enum { NL = 3, NE = 12, NS = 8, STEPS = 40 };

struct elem {
	long before;
	struct rlist link;
	int id;
};
struct sl {
	size_t size;
	struct rlist link;
	int id;
};

static struct rlist head[NL];
static bool stale[NL];
static struct elem elem[NE];
/** List of an element, -1: in none. */
static int in[NE];
static struct lifo lifo;
static struct { void *next; int id; bool in; } litem[NE];
static struct slab_list slabs;
static struct sl sl[NS];
static bool sl_in[NS];

static int
num(int l, struct rlist *r)
{
	if (r == &head[l])
		return 0;
	for (int i = 0; i < NE; i++)
		if (r == &elem[i].link)
			return i + 1;
	return -1;
}

/** The first or the last element, whichever way it is asked for. */
static int
end_of(int l, bool last)
{
	struct rlist *h = &head[l];
	int r = num(l, last ? rlist_last(h) : rlist_first(h));
	if (r <= 0)
		return r;
	struct elem *e = last ? rlist_last_entry(h, struct elem, link) :
			 rlist_first_entry(h, struct elem, link);
	return e == &elem[r - 1] && !rlist_entry_is_head(e, h, link) ? r : -3;
}

static void
state(void)
{
	for (int e = 0; e < NE; e++)
		in[e] = -1;
	emit(",\"lists\":[");
	for (int l = 0; l < NL; l++) {
		emit("%s{\"f\":[", l > 0 ? "," : "");
		struct elem *e;
		int n = 0;
		if (!stale[l]) {
			rlist_foreach_entry(e, &head[l], link) {
				int id = num(l, &e->link);
				emit("%s%d", n > 0 ? "," : "", id);
				if (id > 0)
					in[id - 1] = l;
				if (id <= 0 || ++n == STEPS)
					break;
			}
		}
		emit("],\"b\":[");
		n = 0;
		if (!stale[l]) {
			rlist_foreach_entry_reverse(e, &head[l], link) {
				int id = num(l, &e->link);
				emit("%s%d", n > 0 ? "," : "", id);
				if (id <= 0 || ++n == STEPS)
					break;
			}
		}
		emit("],\"g\":[");
		n = 0;
		struct rlist *r;
		if (!stale[l]) {
			rlist_foreach(r, &head[l]) {
				int id = num(l, r);
				emit("%s%d", n > 0 ? "," : "", id);
				if (id <= 0 || ++n == STEPS)
					break;
			}
		}
		emit("],\"h\":[");
		n = 0;
		if (!stale[l]) {
			rlist_foreach_reverse(r, &head[l]) {
				int id = num(l, r);
				emit("%s%d", n > 0 ? "," : "", id);
				if (id <= 0 || ++n == STEPS)
					break;
			}
		}
		emit("],\"stale\":%d,\"empty\":%d,\"first\":%d,\"last\":%d}",
		     stale[l], stale[l] ? -1 : rlist_empty(&head[l]) != 0,
		     stale[l] ? -1 : end_of(l, false),
		     stale[l] ? -1 : end_of(l, true));
	}
	/* Elements that are linked to nothing but themselves. */
	emit("],\"alone\":[");
	int n = 0;
	for (int e = 0; e < NE; e++)
		if (rlist_empty(&elem[e].link))
			emit("%s%d", n++ > 0 ? "," : "", e + 1);
	emit("]}\n");
}

static void
lstate(void)
{
	emit(",\"empty\":%d,\"peek\":%d}\n", lifo_is_empty(&lifo),
	     lifo_peek(&lifo) == NULL ? 0 :
	     *(int *)((char *)lifo_peek(&lifo) + sizeof(void *)));
}

static void
sstate(void)
{
	big("total", slabs.stats.total);
	emit(",\"used\":%zu,\"all\":[", slabs.stats.used);
	struct sl *s;
	int n = 0;
	rlist_foreach_entry(s, &slabs.slabs, link) {
		emit("%s%d", n > 0 ? "," : "", (int)(s - sl) + 1);
		if (s < sl || s >= sl + NS || ++n == STEPS)
			break;
	}
	emit("]}\n");
}

/** Walk and delete every element whose number is even (or odd). */
static void
purge(int l, int rem, bool reverse)
{
	struct elem *e, *tmp;
	int n = 0;
	emit("{\"op\":\"purge\",\"l\":%d,\"rem\":%d,\"rev\":%d,\"seen\":[",
	     l + 1, rem, reverse);
#define BODY { emit("%s%d", n > 0 ? "," : "", e->id);			\
	if (e->id % 2 == rem) {						\
		rlist_del_entry(e, link);				\
		/* It may be gone for good. */				\
		dirty(&e->link, sizeof(e->link));		\
		rlist_create(&e->link);					\
	}								\
	if (++n == STEPS)						\
		break; }
	if (reverse)
		rlist_foreach_entry_safe_reverse(e, &head[l], link, tmp)
			BODY
	else
		rlist_foreach_entry_safe(e, &head[l], link, tmp)
			BODY
	emit("]");
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			for (int l = 0; l < NL; l++) {
				DIRTY(&head[l]), rlist_create(&head[l]);
				stale[l] = false;
			}
			for (int e = 0; e < NE; e++) {
				rlist_create(&elem[e].link);
				elem[e].id = e + 1;
				litem[e].id = e + 1;
				litem[e].in = false;
			}
			lifo_init(&lifo);
			DIRTY(&slabs);
			slab_list_create(&slabs);
			for (int i = 0; i < NS; i++)
				sl_in[i] = false;
			emit("{\"op\":\"init\",\"nl\":%d,\"ne\":%d", NL, NE);
			state();
			continue;
		}
		int l = mod(c.a[0] - 1, NL), k = mod(c.a[1] - 1, NL);
		int e = mod(c.a[1] - 1, NE);
		if (IS(&c, "add") || IS(&c, "addt")) {
			/* add list element */
			if (stale[l] || in[e] >= 0)
				continue;
			/* Its links need not be initialized. */
			dirty(&elem[e].link, sizeof(elem[e].link));
			if (IS(&c, "add"))
				rlist_add_entry(&head[l], &elem[e], link);
			else
				rlist_add_tail_entry(&head[l], &elem[e], link);
			emit("{\"op\":\"%s\",\"l\":%d,\"e\":%d", c.op, l + 1,
			     e + 1);
		} else if (IS(&c, "del")) {
			/* del x element: in no list it may be alone */
			if (in[e] < 0 && !rlist_empty(&elem[e].link))
				continue;
			rlist_del_entry(&elem[e], link);
			emit("{\"op\":\"del\",\"e\":%d", e + 1);
		} else if (IS(&c, "shift") || IS(&c, "shiftt")) {
			if (stale[l] || rlist_empty(&head[l]))
				continue;
			struct elem *x = IS(&c, "shift") ?
				rlist_shift_entry(&head[l], struct elem, link) :
				rlist_shift_tail_entry(&head[l], struct elem,
						       link);
			emit("{\"op\":\"%s\",\"l\":%d,\"e\":%d", c.op, l + 1,
			     num(l, &x->link));
		} else if (IS(&c, "move") || IS(&c, "movet")) {
			if (stale[l] || in[e] < 0)
				continue;
			if (IS(&c, "move"))
				rlist_move_entry(&head[l], &elem[e], link);
			else
				rlist_move_tail_entry(&head[l], &elem[e], link);
			emit("{\"op\":\"%s\",\"l\":%d,\"e\":%d", c.op, l + 1,
			     e + 1);
		} else if (IS(&c, "swap")) {
			if (stale[l] || stale[k])
				continue;
			rlist_swap(&head[l], &head[k]);
			emit("{\"op\":\"swap\",\"l\":%d,\"k\":%d", l + 1, k + 1);
		} else if (IS(&c, "splice") || IS(&c, "splicet")) {
			/* splice to from */
			if (stale[l] || stale[k] || l == k)
				continue;
			if (IS(&c, "splice"))
				rlist_splice(&head[l], &head[k]);
			else
				rlist_splice_tail(&head[l], &head[k]);
			emit("{\"op\":\"%s\",\"l\":%d,\"k\":%d", c.op, l + 1,
			     k + 1);
		} else if (IS(&c, "cut")) {
			/* cut to from index: of the element cut before */
			if (stale[k] || l == k)
				continue;
			if (!stale[l] && !rlist_empty(&head[l])) {
				/* The old content is forgotten. */
				struct rlist *r = rlist_first(&head[l]);
				for (int n = 0; r != &head[l] && n < STEPS;
				     n++) {
					struct rlist *next = rlist_next(r);
					int id = num(l, r);
					if (id > 0)
						in[id - 1] = -1;
					r = next;
				}
			}
			int i = 0, at = mod(c.a[2], NE + 1);
			struct rlist *r = rlist_first(&head[k]);
			while (i < at && r != &head[k]) {
				r = rlist_next(r);
				i++;
			}
			int id = num(k, r);
			rlist_cut_before(&head[l], &head[k], r);
			stale[l] = false;
			emit("{\"op\":\"cut\",\"l\":%d,\"k\":%d,\"e\":%d",
			     l + 1, k + 1, id);
		} else if (IS(&c, "discard")) {
			/* The elements are forgotten, the head is not reset. */
			if (stale[l])
				continue;
			stale[l] = true;
			emit("{\"op\":\"discard\",\"l\":%d", l + 1);
		} else if (IS(&c, "create")) {
			DIRTY(&head[l]);
			rlist_create(&head[l]);
			stale[l] = false;
			emit("{\"op\":\"create\",\"l\":%d", l + 1);
		} else if (IS(&c, "purge")) {
			if (stale[l])
				continue;
			purge(l, mod(c.a[1], 2), mod(c.a[2], 2));
		} else if (IS(&c, "near")) {
			/* near x element: its neighbours */
			if (in[e] < 0)
				continue;
			l = in[e];
			struct elem *p = rlist_prev_entry_safe(&elem[e],
							       &head[l], link);
			emit("{\"op\":\"near\",\"e\":%d,\"next\":%d,"
			     "\"prev\":%d,\"nexte\":%d", e + 1,
			     num(l, rlist_next(&elem[e].link)),
			     p == NULL ? num(l, rlist_prev(&elem[e].link)) :
			     p == rlist_prev_entry(&elem[e], link) ?
			     num(l, &p->link) : -3,
			     rlist_next(&elem[e].link) == &head[l] ? 0 :
			     rlist_next_entry(&elem[e], link)->id);
		} else if (IS(&c, "push")) {
			if (litem[e].in)
				continue;
			lifo_push(&lifo, &litem[e]);
			litem[e].in = true;
			emit("{\"op\":\"push\",\"e\":%d", e + 1);
			lstate();
			continue;
		} else if (IS(&c, "pop")) {
			void *p = lifo_pop(&lifo);
			int id = 0;
			if (p != NULL) {
				id = *(int *)((char *)p + sizeof(void *));
				if (id > 0 && id <= NE)
					litem[id - 1].in = false;
			}
			emit("{\"op\":\"pop\",\"e\":%d", id);
			lstate();
			continue;
		} else if (IS(&c, "sadd")) {
			/* sadd size slab */
			int s = mod(c.a[1] - 1, NS);
			if (sl_in[s])
				continue;
			sl[s].size = mod(c.a[0], 1ll << 40);
			slab_list_add(&slabs, &sl[s], link);
			sl_in[s] = true;
			emit("{\"op\":\"sadd\",\"s\":%d", s + 1);
			big("n", sl[s].size);
			sstate();
			continue;
		} else if (IS(&c, "sdel")) {
			int s = mod(c.a[1] - 1, NS);
			if (!sl_in[s])
				continue;
			slab_list_del(&slabs, &sl[s], link);
			sl_in[s] = false;
			emit("{\"op\":\"sdel\",\"s\":%d", s + 1);
			sstate();
			continue;
		} else {
			continue;
		}
		state();
	}
	drv_finish();
	return 0;
}
