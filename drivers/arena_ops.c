/* Compiled with memory access instrumentation, see mt.h. */
#include <small/quota.h>

size_t op_used(struct quota *q) { return quota_used(q); }
ssize_t op_use(struct quota *q, size_t n) { return quota_use(q, n); }
ssize_t op_release(struct quota *q, size_t n) { return quota_release(q, n); }
