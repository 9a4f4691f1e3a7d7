/* Conformance driver: the static buffers of two threads. */
#include "drv.h"
#include <pthread.h>
#include <semaphore.h>
#include <small/static.h>

enum { NTHR = 2, NENT = 128 };

struct ent {
	char *ptr;
	size_t n;
	unsigned h;
};

static struct thr {
	pthread_t id;
	sem_t go, done;
	struct cmd *c;
	struct ent ent[NENT];
	int n;
	char *base;
} thr[NTHR];
static unsigned next_h;
static bool quit;

/** Every recorded piece whose content has changed, of any thread. */
static void
state(struct thr *t)
{
	emit(",\"pos\":%zu,\"dam\":[", static_storage_pos);
	int k = 0;
	for (int i = 0; i < NTHR; i++) {
		struct thr *o = &thr[i];
		int m = 0;
		for (int j = 0; j < o->n; j++) {
			struct ent *e = &o->ent[j];
			if (pat_ok(e->ptr, e->n, e->h))
				o->ent[m++] = *e;
			else
				emit("%s%d", k++ > 0 ? "," : "", e->h);
		}
		o->n = m;
	}
	emit("]}\n");
	(void)t;
}

static void
run(struct thr *t, int k)
{
	struct cmd *c = t->c;
	size_t n = c->a[1] < 0 ? 0 : c->a[1];
	size_t al = (size_t)1 << mod(c->a[2], 14);
	bool take = IS(c, "alloc") || IS(c, "aalloc");
	bool aligned = IS(c, "aalloc") || IS(c, "areserve");
	if (IS(c, "huge")) {
		/* huge thread k lg2(alignment) how */
		n = huge_size(c->a[1], 100000);
		aligned = mod(c->a[3], 2);
		take = mod(c->a[3], 4) / 2;
	} else if (IS(c, "reset")) {
		static_reset();
		emit("{\"op\":\"reset\",\"t\":%d", k + 1);
		state(t);
		return;
	} else if (IS(c, "fit")) {
		/* As much as the rest of the buffer holds, and a bit more. */
		n = SMALL_STATIC_SIZE - static_storage_pos + c->a[1];
		if (n > 2 * SMALL_STATIC_SIZE)
			n = 0;
		take = true;
	}
	char *p;
	if (aligned)
		p = take ? static_aligned_alloc(n, al) :
		    static_aligned_reserve(n, al);
	else
		p = take ? static_alloc(n) : static_reserve(n);
	if (!aligned)
		al = 1;
	if (IS(c, "huge")) {
		emit("{\"op\":\"huge\",\"t\":%d,\"okp\":%d", k + 1, p != NULL);
		state(t);
		return;
	}
	unsigned h = 0;
	if (p != NULL && p >= t->base &&
	    n <= (size_t)(t->base + SMALL_STATIC_SIZE - p)) {
		h = ++next_h;
		pat_fill(p, n, h);
		if (t->n == NENT)
			memmove(t->ent, t->ent + 1,
				sizeof(*t->ent) * --t->n);
		if (take) {
			t->ent[t->n].ptr = p;
			t->ent[t->n].n = n;
			t->ent[t->n++].h = h;
		}
	}
	long long off = p == NULL ? -1 : p - t->base;
	if (off < -1000000 || off > 1000000)
		off = -1000000;
	emit("{\"op\":\"%s\",\"t\":%d,\"n\":%zu,\"al\":%zu,\"okp\":%d,"
	     "\"off\":%lld,\"h\":%d", take ? "alloc" : "reserve", k + 1, n, al,
	     p != NULL, off, (int)h);
	state(t);
}

static void *
body(void *arg)
{
	struct thr *t = arg;
	t->base = static_storage_buffer;
	sem_post(&t->done);
	for (;;) {
		sem_wait(&t->go);
		if (quit)
			return NULL;
		run(t, t - thr);
		sem_post(&t->done);
	}
}

static void
threads_stop(void)
{
	quit = true;
	for (int i = 0; i < NTHR; i++) {
		sem_post(&thr[i].go);
		pthread_join(thr[i].id, NULL);
	}
	quit = false;
}

int
main(int argc, char **argv)
{
	drv_start(argc, argv);
	struct cmd c;
	bool active = false;
	while (next_cmd(&c)) {
		if (IS(&c, "init")) {
			if (active)
				threads_stop();
			active = true;
			for (int i = 0; i < NTHR; i++) {
				thr[i].n = 0;
				sem_init(&thr[i].go, 0, 0);
				sem_init(&thr[i].done, 0, 0);
				pthread_create(&thr[i].id, NULL, body,
					       &thr[i]);
				sem_wait(&thr[i].done);
			}
			emit("{\"op\":\"init\",\"size\":%d,\"bases\":[%d,%d],"
			     "\"apart\":%d}\n", SMALL_STATIC_SIZE,
			     (int)((uintptr_t)thr[0].base & 65535),
			     (int)((uintptr_t)thr[1].base & 65535),
			     thr[0].base + SMALL_STATIC_SIZE <= thr[1].base ||
			     thr[1].base + SMALL_STATIC_SIZE <= thr[0].base);
			continue;
		}
		if (!active)
			continue;
		struct thr *t = &thr[mod(c.a[0] - 1, NTHR)];
		t->c = &c;
		sem_post(&t->go);
		sem_wait(&t->done);
	}
	if (active)
		threads_stop();
	drv_finish();
	return 0;
}
