/* Compiled with memory access instrumentation, see mt.h. */
#include <small/lf_lifo.h>

void
op_init(struct lf_lifo *head)
{
	lf_lifo_init(head);
}

void
op_push(struct lf_lifo *head, void *elem)
{
	lf_lifo_push(head, elem);
}

void *
op_pop(struct lf_lifo *head)
{
	return lf_lifo_pop(head);
}

int
op_empty(struct lf_lifo *head)
{
	return lf_lifo_is_empty(head);
}
