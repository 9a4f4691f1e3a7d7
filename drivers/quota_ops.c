/* Compiled with memory access instrumentation, see mt.h. */
#include <small/quota.h>
#include <small/quota_lessor.h>

void op_init(struct quota *q, size_t n) { quota_init(q, n); }
ssize_t op_use(struct quota *q, size_t n) { return quota_use(q, n); }
ssize_t op_release(struct quota *q, size_t n) { return quota_release(q, n); }
ssize_t op_set(struct quota *q, size_t n) { return quota_set(q, n); }
size_t op_used(struct quota *q) { return quota_used(q); }
size_t op_total(struct quota *q) { return quota_total(q); }
void
op_both(struct quota *q, size_t *t, size_t *u)
{
	quota_get_total_and_used(q, t, u);
}
void
op_lcreate(struct quota_lessor *l, struct quota *q)
{
	quota_lessor_create(l, q);
}
void op_ldestroy(struct quota_lessor *l) { quota_lessor_destroy(l); }
ssize_t op_lease(struct quota_lessor *l, ssize_t n) { return quota_lease(l, n); }
ssize_t
op_endlease(struct quota_lessor *l, size_t n)
{
	return quota_end_lease(l, n);
}
size_t op_leased(struct quota_lessor *l) { return quota_leased(l); }
size_t op_avail(struct quota_lessor *l) { return quota_available(l); }
