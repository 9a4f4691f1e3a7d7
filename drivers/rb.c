/*
 * Conformance driver: red-black tree.
 *
 * RB_COMPACT, RB_CMP_TREE_ARG: as in rb.h; EXT: separate key type; AUG: with
 * augmentation. Nodes are ordered by their values, keys are values divided by
 * the width of a group.
 */
#include "drv.h"
#include <assert.h>
#include <small/rb.h>

enum { NMAX = 512, KEYS = 1 << 30, STEPS = 2 * NMAX };

struct node {
	int before;
	int v;
#ifdef AUG
	/** Augmentation: size of the subtree, sum of its values. */
	int size, sum;
#endif
	rb_node(struct node) link;
};
typedef rb_tree(struct node, int cookie;) tree_t;

static tree_t tree;
static int width = 1;

/** Nodes the comparator has seen. */
static const struct node *seen[256];
static int n_seen;
static bool watch;

static void
note(const struct node *n)
{
	if (!watch || n_seen == 256)
		return;
	for (int i = 0; i < n_seen; i++)
		if (seen[i] == n)
			return;
	seen[n_seen++] = n;
}

#ifdef RB_CMP_TREE_ARG
#define TREE_ARG tree_t *t,
#define TREE_CHECK() do { if (t != &tree || t->cookie != 42) abort(); } while (0)
#else
#define TREE_ARG
#define TREE_CHECK() ((void)0)
#endif

static int
node_cmp(TREE_ARG const struct node *a, const struct node *b)
{
	TREE_CHECK();
	note(b);
	return a->v < b->v ? -1 : a->v > b->v;
}

static inline int
group(int v)
{
	return v / width;
}

#ifdef EXT
typedef int tkey_t;
static int
key_cmp(TREE_ARG int k, const struct node *b)
{
	TREE_CHECK();
	note(b);
	return k < group(b->v) ? -1 : k > group(b->v);
}
#define KEY(k) (k)
#else
typedef const struct node *tkey_t;
static struct node key_node;
#define KEY(k) (key_node.v = (k), &key_node)
#endif

#ifdef AUG
static void
node_aug(struct node *n, const struct node *l, const struct node *r)
{
	n->size = 1;
	n->sum = n->v % 1009;
	if (l != NULL) {
		n->size += l->size;
		n->sum += l->sum;
	}
	if (r != NULL) {
		n->size += r->size;
		n->sum += r->sum;
	}
}
#endif

#define ATTR static __attribute__((unused))
#if defined(EXT) && defined(AUG)
rb_proto_ext_key(ATTR, t_, tree_t, struct node, int)
rb_gen_ext_key_aug(ATTR, t_, tree_t, struct node, link, node_cmp, int, key_cmp,
		   node_aug)
#elif defined(EXT)
rb_proto_ext_key(ATTR, t_, tree_t, struct node, int)
rb_gen_ext_key(ATTR, t_, tree_t, struct node, link, node_cmp, int, key_cmp)
#elif defined(AUG)
rb_proto(ATTR, t_, tree_t, struct node)
rb_gen_aug(ATTR, t_, tree_t, struct node, link, node_cmp, node_aug)
#else
rb_proto(ATTR, t_, tree_t, struct node)
rb_gen(ATTR, t_, tree_t, struct node, link, node_cmp)
#endif

/** Nodes of the tree in their order: the driver's own bookkeeping. */
static struct node *live[NMAX];
static int n_live;
static struct node pool[NMAX], *spare[NMAX];
static int n_spare;

static struct node *
node_new(int v)
{
	struct node *n = spare[--n_spare];
	dirty(n, sizeof(*n));
	n->v = v;
	return n;
}

static void
node_gone(struct node *n)
{
	int i = 0;
	while (live[i] != n)
		i++;
	memmove(&live[i], &live[i + 1], (--n_live - i) * sizeof(*live));
	/* The memory is not the tree's any more. */
	dirty(n, sizeof(*n));
	/* It is not reused soon. */
	memmove(&spare[1], &spare[0], n_spare++ * sizeof(*spare));
	spare[0] = n;
}

/** Position a value has or would have. */
static int
place(int v)
{
	int i = 0;
	while (i < n_live && live[i]->v < v)
		i++;
	return i;
}

static inline int
val(const struct node *n)
{
	return n == NULL ? 0 : n->v;
}

static void
insert(int v)
{
	int i = place(v);
	if (v <= 0 || n_spare == 0 || (i < n_live && live[i]->v == v))
		return;
	struct node *n = node_new(v);
	emit("{\"op\":\"ins\",\"v\":%d", v);
	t_insert(&tree, n);
	emit("}\n");
	memmove(&live[i + 1], &live[i], (n_live++ - i) * sizeof(*live));
	live[i] = n;
}

static void
delete(int i)
{
	struct node *n = live[i];
	emit("{\"op\":\"del\",\"v\":%d", n->v);
	t_remove(&tree, n);
	emit("}\n");
	node_gone(n);
}

struct visit {
	int n, stop;
	bool remove, first;
};

static struct node *
visit(tree_t *t, struct node *n, void *arg)
{
	struct visit *a = (struct visit *)arg;
	emit("%s%d", a->first ? "" : ",", n->v);
	a->first = false;
	if (++a->n == a->stop || a->n == STEPS) {
		if (a->remove)
			t_remove(t, n);
		return n;
	}
	return NULL;
}

static void
iter_all(const char *name, bool rev, struct node *start, int stop)
{
	struct visit a = { 0, stop, false, true };
	emit(",\"%s\":[", name);
	struct node *r = rev ? t_reverse_iter(&tree, start, visit, &a) :
			 t_iter(&tree, start, visit, &a);
	emit("],\"%sret\":%d", name, val(r));
}

static void
full_walk(const char *name, long long *dirs, int nd)
{
	struct t_walk w;
	struct node *n, *l, *r;
	int i = 0;
	t_walk_init(&w, &tree);
	emit(",\"%s\":[", name);
	int dir = 0;
	while (true) {
		l = r = NULL;
		n = t_walk_next(&w, dir, &l, &r);
		if (n == NULL)
			break;
#ifdef AUG
		emit("%s[%d,%d,%d,%d,%d]", i > 0 ? "," : "", n->v, val(l),
		     val(r), n->size, n->sum);
#else
		emit("%s[%d,%d,%d,0,0]", i > 0 ? "," : "", n->v, val(l),
		     val(r));
#endif
		/* Where to go from this node. */
		dir = nd == 0 ? RB_WALK_LEFT | RB_WALK_RIGHT :
		      mod(dirs[i % nd], 4);
		if (++i == STEPS)
			break;
	}
	emit("]");
}

static void
moves(const char *name, struct t_iterator *it, long long *mv, int n)
{
	emit(",\"%s\":[%d", name, val(t_iterator_get(it)));
	for (int i = 0; i < n; i++) {
		struct node *x = mod(mv[i], 2) ? t_inext(it) : t_iprev(it);
		emit(",%d", val(x));
	}
	emit("]");
}

static void
check(void)
{
	struct t_iterator it;
	struct node *n;
	int i;
	emit("{\"op\":\"check\",\"empty\":%d,\"first\":%d,\"last\":%d,\"next\":[",
	     t_empty(&tree), val(t_first(&tree)), val(t_last(&tree)));
	for (n = t_first(&tree), i = 0; n != NULL && i < STEPS;
	     n = t_next(&tree, n), i++)
		emit("%s%d", i > 0 ? "," : "", n->v);
	emit("],\"prev\":[");
	for (n = t_last(&tree), i = 0; n != NULL && i < STEPS;
	     n = t_prev(&tree, n), i++)
		emit("%s%d", i > 0 ? "," : "", n->v);
	emit("],\"inext\":[");
	dirty(&it, sizeof(it));
	t_ifirst(&tree, &it);
	for (i = 0; (n = t_inext(&it)) != NULL && i < STEPS; i++)
		emit("%s%d", i > 0 ? "," : "", n->v);
	emit("],\"iend\":%d,\"iprev\":[", val(t_inext(&it)));
	dirty(&it, sizeof(it));
	t_ilast(&tree, &it);
	for (i = 0; (n = t_iprev(&it)) != NULL && i < STEPS; i++)
		emit("%s%d", i > 0 ? "," : "", n->v);
	emit("],\"pend\":%d", val(t_iprev(&it)));
	iter_all("iter", false, NULL, 0);
	iter_all("riter", true, NULL, 0);
	full_walk("walk", NULL, 0);
	/* Height: how many nodes it takes to find a node. */
	int h = 0, lost = 0;
	for (i = 0; i < n_live; i++) {
		struct node probe;
		probe.v = live[i]->v;
		n_seen = 0;
		watch = true;
		if (!t_icreate(&tree, &probe, &it) ||
		    t_iterator_get(&it) != live[i])
			lost++;
		watch = false;
		if (n_seen > h)
			h = n_seen;
	}
	emit(",\"h\":%d,\"lost\":%d}\n", h, lost);
}

/** A tree of very many nodes: what the iterators see there. */
static void
grow(int count)
{
	struct node *big = calloc(count, sizeof(*big));
	if (big == NULL)
		exit(98);
	for (int i = 0; i < count; i++) {
		if (i % (1 << 22) == 0)
			drv_watchdog();
		big[i].v = count - i;
		t_insert(&tree, &big[i]);
	}
	drv_watchdog();
	struct t_iterator it;
	struct t_walk w;
	struct node *n, *l, *r;
	int fwd = 0, bwd = 0, walk = 0;
	t_ifirst(&tree, &it);
	while ((n = t_inext(&it)) != NULL && fwd < count)
		if (n->v == fwd + 1)
			fwd++;
		else
			break;
	emit("{\"op\":\"grow\",\"n\":%d,\"fwd\":%d,\"end\":%d", count, fwd,
	     val(n));
	drv_watchdog();
	t_ilast(&tree, &it);
	while ((n = t_iprev(&it)) != NULL && bwd < count)
		if (n->v == count - bwd)
			bwd++;
		else
			break;
	emit(",\"bwd\":%d,\"pend\":%d", bwd, val(n));
	drv_watchdog();
	t_walk_init(&w, &tree);
	while (t_walk_next(&w, 3, &l, &r) != NULL && walk <= count)
		walk++;
	emit(",\"walk\":%d,\"at\":[", walk);
	drv_watchdog();
	static const int probe[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10 };
	for (int i = 0; i < 10; i++) {
		int k = probe[i];
		bool ok = t_icreate(&tree, &big[count - k], &it);
		emit("%s[%d,%d,%d", i > 0 ? "," : "", k, ok,
		     val(t_iterator_get(&it)));
		int g = k / width;
		t_isearch_le(&tree, KEY(g), &it);
		emit(",%d", val(t_iterator_get(&it)));
		t_isearch_ge(&tree, KEY(g), &it);
		emit(",%d", val(t_iterator_get(&it)));
		t_isearch_lt(&tree, KEY(g), &it);
		emit(",%d", val(t_iterator_get(&it)));
		t_isearch_gt(&tree, KEY(g), &it);
		emit(",%d", val(t_iterator_get(&it)));
		ok = t_isearch(&tree, KEY(g), &it);
		emit(",%d,%d]", ok, val(t_iterator_get(&it)));
	}
	emit("]}\n");
	free(big);
	t_new(&tree);
	n_live = 0;
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	bool ready = false;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			/* init width */
			width = 1;
#ifdef EXT
			width = c.a[0] < 1 ? 1 : (int)c.a[0];
#endif
			dirty(&tree, sizeof(tree));
			tree.cookie = 42;
			t_new(&tree);
			n_live = n_spare = 0;
			for (int i = 0; i < NMAX; i++)
				spare[n_spare++] = &pool[i];
			int aug = 0;
#ifdef AUG
			aug = 1;
#endif
			emit("{\"op\":\"init\",\"w\":%d,\"aug\":%d}\n", width,
			     aug);
			ready = true;
			continue;
		}
		if (!ready)
			continue;
		if (IS(&c, "ins")) {
			insert(mod(c.a[0], KEYS));
		} else if (IS(&c, "insr")) {
			/* insr i: between the i-th and the next one */
			int i = mod(c.a[0], n_live + 1);
			int lo = i == 0 ? 0 : live[i - 1]->v;
			int hi = i == n_live ? KEYS : live[i]->v;
			insert(lo + (hi - lo) / 2);
		} else if (IS(&c, "delr")) {
			if (n_live > 0)
				delete(mod(c.a[0] - 1, n_live));
		} else if (IS(&c, "del")) {
			int v = mod(c.a[0], KEYS), i = place(v);
			if (i < n_live && live[i]->v == v)
				delete(i);
		} else if (IS(&c, "check")) {
			check();
		} else if (IS(&c, "find") || IS(&c, "findr")) {
			/* find key moves; findr i: key of the i-th value */
			int k = mod(c.a[0], KEYS);
			if (IS(&c, "findr"))
				k = n_live == 0 ? 1 :
				    group(live[mod(c.a[0] - 1, n_live)]->v);
			int n = c.n > 1 ? c.n - 1 : 0;
			struct t_iterator it;
			emit("{\"op\":\"find\",\"k\":%d,\"mv\":[", k);
			for (int i = 0; i < n; i++)
				emit("%s%d", i > 0 ? "," : "",
				     (int)mod(c.a[i + 1], 2));
			emit("],\"s\":%d,\"n\":%d,\"p\":%d",
			     val(t_search(&tree, KEY(k))),
			     val(t_nsearch(&tree, KEY(k))),
			     val(t_psearch(&tree, KEY(k))));
			dirty(&it, sizeof(it));
			emit(",\"found\":%d", t_isearch(&tree, KEY(k), &it));
			moves("i", &it, &c.a[1], n);
			dirty(&it, sizeof(it));
			t_isearch_le(&tree, KEY(k), &it);
			moves("le", &it, &c.a[1], n);
			dirty(&it, sizeof(it));
			t_isearch_ge(&tree, KEY(k), &it);
			moves("ge", &it, &c.a[1], n);
			dirty(&it, sizeof(it));
			t_isearch_lt(&tree, KEY(k), &it);
			moves("lt", &it, &c.a[1], n);
			dirty(&it, sizeof(it));
			t_isearch_gt(&tree, KEY(k), &it);
			moves("gt", &it, &c.a[1], n);
			emit("}\n");
		} else if (IS(&c, "from") || IS(&c, "fromr")) {
			/* from value stop moves */
			int v = mod(c.a[0], KEYS);
			if (IS(&c, "fromr") && n_live > 0)
				v = live[mod(c.a[0] - 1, n_live)]->v;
			int i = place(v), n = c.n > 2 ? c.n - 2 : 0;
			struct node *x = i < n_live && live[i]->v == v ?
					 live[i] : NULL;
			struct node probe = { .v = v };
			struct t_iterator it;
			dirty(&it, sizeof(it));
			int stop = mod(c.a[1], 8);
			emit("{\"op\":\"from\",\"v\":%d,\"stop\":%d,\"mv\":[",
			     v, stop);
			for (i = 0; i < n; i++)
				emit("%s%d", i > 0 ? "," : "",
				     (int)mod(c.a[i + 2], 2));
			bool ok = t_icreate(&tree, x != NULL ? x : &probe, &it);
			emit("],\"found\":%d", ok);
			moves("i", &it, &c.a[2], n);
			emit(",\"next\":%d,\"prev\":%d",
			     x == NULL ? 0 : val(t_next(&tree, x)),
			     x == NULL ? 0 : val(t_prev(&tree, x)));
			if (x != NULL) {
				/* Any node with that value will do. */
				iter_all("it", false, stop % 2 ? x : &probe,
					 stop);
				iter_all("rit", true, stop % 2 ? x : &probe,
					 stop);
			} else {
				emit(",\"it\":[],\"itret\":0,\"rit\":[],"
				     "\"ritret\":0");
			}
			emit("}\n");
		} else if (IS(&c, "itdel")) {
			/* itdel start stop rev: remove the stop-th visited */
			if (n_live == 0)
				continue;
			struct node *x = c.a[0] <= 0 ? NULL :
					 live[mod(c.a[0] - 1, n_live)];
			struct visit a = { 0, (int)mod(c.a[1], 16) + 1, true,
					   true };
			bool rev = mod(c.a[2], 2);
			emit("{\"op\":\"itdel\",\"from\":%d,\"stop\":%d,"
			     "\"rev\":%d,\"seen\":[", val(x), a.stop, rev);
			struct node *r = rev ?
				t_reverse_iter(&tree, x, visit, &a) :
				t_iter(&tree, x, visit, &a);
			emit("],\"ret\":%d}\n", val(r));
			if (r != NULL)
				node_gone(r);
		} else if (IS(&c, "walk")) {
			/* walk dirs: used in turn for the visited nodes */
			int n = c.n > 0 ? c.n : 1;
			emit("{\"op\":\"walk\",\"dirs\":[");
			for (int i = 0; i < n; i++)
				emit("%s%d", i > 0 ? "," : "",
				     (int)mod(c.a[i], 4));
			emit("]");
			full_walk("shape", NULL, 0);
			full_walk("walk", c.a, n);
			emit("}\n");
		} else if (IS(&c, "grow")) {
			if (n_live == 0)
				grow((int)c.a[0]);
		}
	}
	drv_finish();
	return 0;
}
