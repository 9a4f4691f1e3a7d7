#include <stddef.h>
#include <small/slab_cache.h>
#include <small/region.h>

extern "C" void
region_guarded(struct region *r, void (*fn)(void *), void *arg)
{
	RegionGuard guard(r);
	fn(arg);
}
