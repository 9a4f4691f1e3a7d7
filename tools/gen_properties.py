"""Writes properties.jsonl (kept as a program only to stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("Q01", "Quota never exceeds its limit and never loses accounting, for any schedule",
  "However many threads use, release and re-limit one quota concurrently, the used amount never exceeds the limit that is in force, every call behaves as if it took effect atomically at one moment between its start and its return, and when all threads are done the used amount is exactly the sum of the granted and not released amounts. A request that would not fit is refused and changes nothing; amounts are rounded up to whole quota units on both use and release.",
  ["schedules", "inputs"], "every interleaving of quota_use/quota_release/quota_set/readers by any number of threads, every size including the largest representable",
  "test/quota.cc runs 10 threads on random values once and looks at the final totals; it never controls the schedule and never reaches the boundary sizes.",
  ["include/small/quota.h"],
  [("single 64-bit word holding limit and usage, changed by compare-and-swap loops", "quota_set, quota_use, quota_release")],
  ["return values", "quota_total, quota_used, quota_get_total_and_used"])
p("Q02", "A quota lessor leases exactly what it was asked and returns all of it",
  "The bytes a lessor has taken from its source always cover the bytes leased from it, the source is charged with exactly the bytes the lessor holds, and a lease is refused only when the source cannot cover the missing part. After all leases end the lessor retains at most a bounded reserve, and destroying it gives every byte back to the source.",
  ["histories", "inputs"], "every sequence of lease/end-lease calls of any size, with a source limit that may be shared, changed or nearly exhausted",
  "test/quota_lessor.c checks a handful of fixed sequences; the interplay of rounding, halving and the release threshold depends on arbitrary histories.",
  ["include/small/quota_lessor.h"],
  [("acquire in big chunks, halve on refusal", "quota_lease"), ("release above the threshold only", "quota_end_lease")],
  ["quota_leased, quota_available, quota_used of the source"])
p("L01", "The lock-free LIFO loses and duplicates nothing under any interleaving",
  "Concurrent pushes and pops on a lock-free LIFO behave as if executed one at a time: each pushed element is popped at most once, no element disappears, a pop returns the element most recently pushed among those present, and a pop or emptiness test reports 'empty' only if the list was empty at that moment. This includes elements that are popped and pushed again, and reused by their owner, while another thread is in the middle of a pop, as long as fewer than 65536 pushes complete during that one pop.",
  ["schedules", "histories"], "every interleaving, at the granularity of single memory accesses, of pushes and pops by several threads, including reuse of the same element",
  "test/lf_lifo.c is single-threaded; test/arena_mt.c runs one uncontrolled schedule per execution, so the ABA windows are practically never hit.",
  ["include/small/lf_lifo.h"],
  [("ABA counter in the low 16 bits of the head, bumped by push and preserved by pop", "lf_lifo_push, lf_lifo_pop")],
  ["return values of push/pop/is_empty"])
p("P01", "Operations on structures shared by threads never wait for another thread",
  "A thread that pushes to or pops from a lock-free LIFO, uses, releases or limits a quota, leases from one, or obtains slabs from or returns them to an arena finishes within a bounded number of its own steps while all other threads stand still, wherever in the middle of their own operations they were stopped. So a thread that is stopped or dies never blocks the others, and an operation is repeated only because another one has succeeded meanwhile.",
  ["schedules"], "every point, at the granularity of single memory accesses, at which the other threads may be stopped in the middle of any operations",
  "No test stops a thread inside of an operation; in test/arena_mt.c and test/quota.cc every thread goes on eventually, so waiting for it is not noticed.",
  ["include/small/lf_lifo.h", "include/small/quota.h", "include/small/quota_lessor.h", "small/slab_arena.c"],
  [("compare-and-swap loops that read the shared word again", "lf_lifo_push, lf_lifo_pop, quota_use, quota_release, quota_set"), ("atomic counter over the preallocated area", "slab_map")],
  ["number of steps of a thread that runs alone until its operation returns"])
p("A01", "An arena hands out distinct aligned slabs within quota, from any thread",
  "Slabs obtained from an arena and not yet returned are pairwise disjoint, aligned to and as large as the slab size, whatever threads obtain them, and a returned slab is reused before new memory is charged. The quota is charged with one slab size for each slab ever created and nothing else: a failed request (no quota, or no memory from the operating system) returns nothing and leaves quota and arena as they were (a failing request may hold its charge for as long as it runs).",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of obtain/return, every preallocation, slab size and quota, every memory failure",
  "test/slab_arena.c is a single-threaded walk through three configurations, test/arena_mt.c one uncontrolled schedule; neither injects mmap failures.",
  ["small/slab_arena.c", "include/small/slab_arena.h", "small/slab_arena_asan.c"],
  [("lock-free cache, atomic counter over the preallocated area, rollback on mmap failure", "slab_map"), ("trimming of unaligned mappings", "mmap_checked")],
  ["slab_map/slab_unmap results, quota_used, arena.used"])
p("C01", "Blocks of the slab cache are aligned, large enough, disjoint and intact",
  "Every block obtained from a slab cache is at least as large as requested, is aligned to its own size if it is not larger than an arena slab, and shares no byte with any other block that is still in use, whatever sequence of requests and returns led to it. The content of a block changes only through its owner, and a size that cannot be represented is refused instead of being served with less memory.",
  ["histories", "inputs", "configurations"], "every sequence of get/put of any sizes and orders, every arena geometry",
  "test/slab_cache.c does 1000 random gets and puts and compares totals only; it never looks at addresses or content.",
  ["small/slab_cache.c", "include/small/slab_cache.h"],
  [("buddy split/merge", "slab_split, slab_merge, slab_buddy"), ("order computation", "slab_order, slab_real_size")],
  ["addresses and capacities of blocks, content of blocks"])
p("C02", "Freed slab memory coalesces, is reused, and accounting stays exact",
  "Free neighbouring blocks always merge, so that a request takes memory from the arena only when no free block of the cache can hold it, and the smallest sufficient free block is used; at most one wholly free slab is retained and any other goes back to the arena at once. The reported used and total amounts, overall and per block size, and the quota usage always equal what is actually in use and held; destroying the cache returns every slab, those it took from the system included.",
  ["histories", "fault_sequences"], "every sequence of get/put of any sizes and orders, including failed ones",
  "test/slab_cache.c verifies internal sums after random operations but has no independent model of which blocks must have merged or which slabs must have been returned.",
  ["small/slab_cache.c", "include/small/slab_list.h"],
  [("merge loop and one-slab retention", "slab_put_with_order"), ("per-order statistics", "slab_set_used, slab_set_free")],
  ["cache statistics, quota usage, slabs available in the arena after destruction"])
p("M01", "Mempool objects are distinct, correctly placed and never disturbed",
  "Objects allocated from a mempool and not yet freed are pairwise disjoint, have the pool's object size, and keep their content until freed, for every object size and every allocation and free order. An allocation fails only if a new slab is needed and cannot be obtained, and a failed allocation leaves the pool unchanged.",
  ["histories", "configurations", "fault_sequences"], "every sequence of alloc/free in any order, every object size and slab size, every point of memory exhaustion",
  "test/mempool.c draws random sequences for a couple of sizes and checks only a marker word per object.",
  ["small/mempool.c", "include/small/mempool.h"],
  [("free list inside a slab and the hot slab choice", "mslab_alloc, mslab_free, mempool_alloc")],
  ["addresses and content of objects, mempool_count, mempool_used, mempool_stats"])
p("M02", "A mempool reports exact usage and gives empty slabs back",
  "The object count, used and total amounts and slab count a mempool reports always match the live objects and the slabs it holds. A slab is taken only when no slab of the pool is sufficiently free (an eighth of its objects) and none is spare; an allocation uses the suitable slab with the lowest address. At most one wholly free slab is retained, the one with the lowest address, and destroying the pool returns everything to the slab cache.",
  ["histories", "configurations"], "every sequence of alloc/free, every object size down to one object per slab",
  "test/mempool.c checks that used is zero at the end, not which slabs are retained at each moment nor small object-per-slab counts.",
  ["small/mempool.c", "include/small/mempool.h"],
  [("spare slab and hot tree", "mslab_free, mempool_alloc"), ("order and objects-per-slab choice", "mempool_create_with_order")],
  ["mempool_stats, mempool_count, slab_cache_used"])
p("S01", "The size classifier maps every size to the smallest class that holds it",
  "For every granularity, minimal size and factor the class sizes form a strictly increasing sequence, starting with the minimum, each a multiple of the granularity if the minimum is, and each size is mapped to the smallest class whose size is not less than it. Neighbouring class sizes differ by one granule or by at most a 2^n-th part of the smaller one, where 2^(1/2^n) is the reported effective factor and lies within a square root of the requested one; mapping a class size back gives the same class.",
  ["inputs", "configurations"], "every size and every legal granularity, factor and minimal size, in both implementations of the classifier",
  "test/small_class.c compares random sizes for a few factors against a float re-implementation.",
  ["small/small_class.c", "include/small/small_class.h"],
  [("linear part, then 2^n classes per power of two", "small_class_calc_offset_by_size, small_class_calc_size_by_offset")],
  ["small_class_calc_offset_by_size, small_class_calc_size_by_offset, actual factor"])
p("S02", "Small-allocator chunks are big enough, aligned, disjoint and undisturbed",
  "Every chunk given by the small allocator holds the requested number of bytes, is aligned to the configured granularity (if it is not larger than the biggest size class), overlaps no other live chunk and keeps its content until it is freed, for any mixture of sizes, from the smallest class to sizes bigger than a slab. A request is refused only when memory is exhausted, a refused request changes nothing the user can see, and a size that cannot be represented is refused.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of smalloc/smfree of any sizes, every granularity and factor, every point of memory exhaustion",
  "test/small_alloc.c and small_granularity.c run random sequences with marker bytes; pool-group switching, sweep under memory pressure and boundary sizes are reached by chance only.",
  ["small/small.c", "include/small/small.h", "include/small/small_class.h"],
  [("choice of the pool by size class and waste", "small_mempool_search, smalloc"), ("fallback to a bigger pool on exhaustion", "small_mempool_group_sweep_sparse"), ("routing of a free to the right pool", "smfree, mempool_find")],
  ["addresses and content of chunks, results of smalloc"])
p("S03", "The small allocator's accounting is exact and all memory is reclaimable",
  "The used amount the allocator reports, per size and overall, always equals the memory of the live chunks, whatever pools served them; when everything has been freed it is zero, at most the documented spare slabs remain, and destroying the allocator returns everything. The internal waste counters that drive the activation of size classes equal the waste of the chunks that are actually live.",
  ["histories", "fault_sequences"], "every sequence of smalloc/smfree in every order, including after memory exhaustion",
  "test/small_alloc.c checks that used is zero at the end of a run; it does not compare the statistics to the live set at each step.",
  ["small/small.c", "include/small/small.h"],
  [("per-pool waste and pool activation/deactivation", "small_mempool_activate, small_mempool_deactivate, small_mempool_create_groups"), ("statistics collection", "small_stats")],
  ["small_stats, slab_cache_used, quota_used"])
p("R01", "A region is a stack of bytes: truncation restores exactly the earlier state",
  "Memory allocated from a region stays intact and disjoint from any other region allocation until the region is truncated below it or freed; truncating to an earlier used size keeps exactly the bytes that existed then. The used size always equals the sum of the live allocations, alignment padding included, and the total is what is held from the slab cache; after freeing the region both are zero, and a reset region is empty. A new slab is taken only when a request does not fit into the newest one, and a size that cannot be represented is refused.",
  ["histories", "inputs", "fault_sequences"], "every sequence of alloc/reserve/aligned/truncate/reset/free with any sizes over any number of slabs",
  "test/region.c walks through a few fixed sequences within one or two slabs.",
  ["small/region.c", "include/small/region.h"],
  [("per-slab usage, slab recycling", "region_truncate, region_reset, region_free"), ("slow path of reservation", "region_reserve_slow")],
  ["addresses and content, region_used, region_total, slab_cache_used, allocation callbacks"])
p("R02", "Region reservation, alignment and join honour their contracts",
  "A reserved area is at least as large as asked and the following allocation not larger than the reservation is placed at its start; an aligned request gets an address with that alignment; join returns one contiguous copy of exactly the last requested bytes in order. The allocation and truncation callbacks are told about each allocation and truncation exactly once with the right size, and inside them the reported usage is that before the allocation or after the truncation.",
  ["histories", "inputs"], "every sequence of reserve/alloc/aligned/join calls with any sizes and alignments",
  "test/region.c tests join and alignment for a few sizes that fit the first slabs.",
  ["small/region.c", "include/small/region.h"],
  [("copy over slab boundaries", "region_join"), ("padding computation", "region_aligned_reserve, region_aligned_alloc")],
  ["addresses and content, callbacks"])
p("I01", "An input buffer is a byte FIFO that never loses or reorders data",
  "Whatever sequence of reserve, allocate, consume, discard, truncate and shrink is applied, the bytes between the read and the write position of an input buffer are exactly the bytes written and not yet consumed or discarded, in order. A reservation leaves at least the requested space after the write position without changing the content, the sum of used, unused and consumed space is the capacity, the buffer grows only when its free space, the consumed part included, is not enough, a failed call changes nothing, shrinking leaves the tightest fitting block and never cuts data, and a size that cannot be represented is refused.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations with any sizes, including growth, compaction and failed allocation",
  "test/ibuf.c covers a few fixed scenarios; compaction versus growth decisions depend on arbitrary positions.",
  ["small/ibuf.c", "include/small/ibuf.h"],
  [("compaction and growth", "ibuf_reserve_slow"), ("shrinking", "ibuf_shrink")],
  ["ibuf_used, ibuf_unused, ibuf_pos, ibuf_capacity, content"])
p("O01", "An output buffer is an append-only byte stream with exact rollback",
  "The concatenation of an output buffer's vectors is always exactly the bytes appended and not rolled back, in order, and its reported size is their number; rolling back to a savepoint restores exactly the stream of that moment. Written bytes do not move while the buffer grows, a reservation gives at least the requested contiguous space at the end, and when memory is exhausted the bytes already accepted stay intact and countable, and a size that cannot be represented is refused.",
  ["histories", "inputs", "fault_sequences"], "every sequence of reserve/alloc/dup/savepoint/rollback/reset with any sizes",
  "test/obuf.c makes random appends and one rollback per iteration, without memory failures.",
  ["small/obuf.c", "include/small/obuf.h"],
  [("doubling capacities and position switch", "obuf_alloc_pos, obuf_reserve_slow, obuf_dup"), ("savepoint", "obuf_rollback_to_svp")],
  ["iovec content and addresses, obuf_size, obuf_capacity"])
p("W01", "An lsregion frees exactly what its ids allow, never younger data",
  "Data allocated from a log-structured region with an id greater than the last collected id stays intact and in place, whatever other allocations and collections happen. Collecting up to an id releases every slab whose newest data is not younger than that id (retaining at most one for reuse), the used amount covers exactly the slabs' live contents, the total and the quota cover exactly the slabs held, and when everything has been collected the used amount is zero; destroying it gives back all the memory it took, from the arena and from the system. A new slab is taken only when a request does not fit into the newest one, and a size that cannot be represented is refused.",
  ["histories", "inputs"], "every sequence of allocations with non-decreasing ids, reservations, alignments and collections, any sizes",
  "test/lsregion.c has fixed scenarios and one random run that checks totals.",
  ["small/lsregion.c", "include/small/lsregion.h"],
  [("per-slab maximal id and collection from the head", "lsregion_gc"), ("one cached slab", "lsregion_aligned_reserve_slow")],
  ["addresses and content, lsregion_used, lsregion_total, slab count"])
p("W02", "Flushing an lsregion yields each byte exactly once and in order",
  "Repeatedly converting an lsregion to vectors, each time continuing from the place the previous call reported, yields each allocated byte that was not collected exactly once and in allocation order, regardless of how many vectors are available per call and of allocations, reservations and collections of already flushed data in between.",
  ["histories", "inputs"], "every interleaving of allocations of any size, partial flushes and collections",
  "test/lsregion.c flushes in two fixed scenarios; the combination of flush positions with slab reuse and big slabs is not exercised.",
  ["include/small/lsregion.h", "small/lsregion.c", "small/lsregion_asan.c"],
  [("slab ids and flush position", "lsregion_to_iovec"), ("slab id assignment", "lsregion_aligned_reserve_slow, lsregion_gc")],
  ["vectors and flush positions"])
p("X01", "A matras maps each live id to one stable block with its own content",
  "In the newest version, each id below the block count is mapped to a block that is disjoint from the blocks of all other ids and holds what was last written to it, across any growth, shrinking and range allocation, up to the capacity; newly allocated ids are consecutive. A failed allocation changes neither the block count nor any content.",
  ["histories", "configurations", "fault_sequences"], "every sequence of alloc/alloc_range/dealloc/dealloc_range/touch, every block and extent size, every failing extent allocation",
  "test/matras.cc checks ids sequentially for one geometry and one version test; it has a fixed allocation-failure scenario.",
  ["small/matras.c", "include/small/matras.h"],
  [("two-level extent tree and masks", "matras_create, matras_alloc, matras_alloc_range, matras_get")],
  ["addresses, content and ids"])
p("X02", "A matras read view is an immutable snapshot while it is open",
  "While a read view is open, every block that existed at its creation reads exactly as at that moment through it, whatever is then touched, written, allocated or freed in the newest version or happens to other views created and destroyed in any order. A touched block of the newest version carries the current content at the address returned and can be written without being visible in any view, and after a successful reservation the promised number of touches cannot fail.",
  ["histories", "fault_sequences"], "every sequence of version creation, destruction in any order, writes, growth and shrinking, including failed allocations",
  "test/matras.cc has a version test with random operations for one geometry; creation/destruction orders of views combined with growth at level boundaries are sampled thinly.",
  ["small/matras.c", "include/small/matras.h"],
  [("copy on write of the extents shared with the previous version", "matras_touch"), ("reserve of extents", "matras_touch_reserve")],
  ["content read through views, matras_touch result"])
p("X03", "A matras releases every extent exactly once and counts them exactly",
  "The extents a matras holds are exactly those reachable from the newest version and the open read views (and the touch reserve); each is obtained once and released exactly once, as soon as nothing refers to it, whatever the order in which views are destroyed. The reported extent counts match, and destroying all views and the matras releases everything.",
  ["histories", "fault_sequences"], "every order of creating and destroying views, growing, shrinking and touching, every failing extent allocation",
  "test/matras.cc compares the final number of extents with zero in a few scenarios.",
  ["small/matras.c", "include/small/matras.h"],
  [("release of what neighbour versions do not share", "matras_destroy_read_view, matras_destroy, matras_dealloc")],
  ["calls of the extent allocator, matras_extent_count, statistics"])
p("Y01", "Containers that share memory never disturb each other and lose none of it",
  "When slab caches share an arena, and regions, buffers, pools, small allocators and single blocks share a slab cache (a log-structured region the arena), no byte belongs to two of them, an operation on one changes neither the content, the usage nor the holdings of any other, and a refused one not even its own usage. What a cache reports as used is exactly what its containers hold, the quota covers what the caches and log-structured regions hold, a request is refused only if the memory is really not there, and after all containers and caches are destroyed, in any order, every slab can be used again.",
  ["histories", "configurations", "fault_sequences"], "every interleaving of operations on any set of containers of any kinds that share caches and an arena, every point of memory exhaustion, every order of destruction",
  "Each unit test creates one container on caches of its own (test/arena_mt.c apart); none has two kinds of container on one cache, and none looks at what an operation does to another container.",
  ["small/slab_cache.c", "small/slab_arena.c", "small/region.c", "small/ibuf.c", "small/obuf.c", "small/mempool.c", "small/small.c", "small/lsregion.c"],
  [("blocks of one buddy system for all containers", "slab_get, slab_put"), ("slabs of one arena for all caches", "slab_map, slab_unmap")],
  ["content and addresses, usage and holdings of all containers, slab_cache_used, quota_used, slabs of the arena"])
p("V01", "Static-buffer results are valid, aligned, and survive their promised window",
  "Each allocation or reservation from the thread's static buffer lies inside the buffer, has the requested size and alignment and does not overlap earlier allocations made since the buffer last wrapped around; the buffer wraps only when the request does not fit in the rest. A request that does not fit the whole buffer is refused.",
  ["histories", "inputs"], "every sequence of requests with any sizes and alignments",
  "test/static.c checks a few fixed requests.",
  ["include/small/static.h", "small/static.c"],
  [("cyclic position", "static_reserve, static_aligned_reserve, static_alloc")],
  ["addresses"])
p("B01", "The red-black tree is an ordered set under any insertions and removals",
  "After any sequence of insertions and removals, a tree contains exactly the inserted and not removed nodes: lookups, nearest-match searches, first/last, next/prev and all iteration forms, forward and reverse, from any starting point, visit exactly the right nodes in key order. The height of the tree stays within twice the logarithm of the number of nodes.",
  ["histories", "inputs"], "every sequence of insertions and removals, every starting key, unique and prefix keys",
  "test/rb.c and rb_rand.cc check random sequences for the basic operations; removal rebalancing has rare branches and most search/iterator forms are tested on one tree.",
  ["include/small/rb.h"],
  [("left-leaning insertion and deletion", "rb insert/remove macros"), ("iterators by path", "rb inext/iprev/isearch macros")],
  ["results of all tree functions"])
p("B02", "Tree augmentation and guided walks always reflect the current tree",
  "After every insertion and removal, the augmented value of each node equals the augmentation function applied to that node and its current children. A guided walk visits exactly the nodes whose ancestors all asked to descend into the respective side, in the documented order, and reports the actual children of each visited node.",
  ["histories", "inputs"], "every sequence of insertions and removals, every pattern of walk directions",
  "test/rb_aug.c checks random insertions and removals of a sum augmentation and fixed walks.",
  ["include/small/rb.h"],
  [("re-augmentation on the path and at rotations", "rbtn_augment, rbtn_augment_propagate"), ("walk", "rb walk_next macro")],
  ["augmented values, walk order"])
p("D01", "Doubly linked list operations keep exactly the right elements in order",
  "Each list operation - add, move, delete, shift, swap, splice, cut, iteration in both directions with and without removal - has exactly the effect of the same operation on a sequence, for lists of any length including empty ones and any position, and both directions of traversal always agree.",
  ["histories", "inputs"], "every sequence of operations over several lists of any length",
  "test/rlist.c applies each operation to one or two fixed lists; the empty and boundary cases of the multi-list operations are mostly missing.",
  ["include/small/rlist.h"],
  [("pointer relinking", "rlist_add, rlist_splice, rlist_cut_before, rlist_swap, ...")],
  ["forward and backward traversal"])
p("D02", "Singly linked LIFO and slab lists hold exactly what was put in them",
  "A LIFO returns elements in the reverse order of their insertion, and reports emptiness exactly when nothing is in it. A slab list contains exactly the slabs added and not removed, and its total equals the sum of their sizes.",
  ["histories"], "every sequence of operations", "There is no dedicated test for lifo.h or slab_list.h; other tests use them in passing.",
  ["include/small/lifo.h", "include/small/slab_list.h"],
  [("list relinking and statistics", "lifo_push, lifo_pop, slab_list_add, slab_list_del")],
  ["content and statistics"])
p("N01", "Checked (ASAN) allocators keep the same contract as the regular ones",
  "Built with the address sanitizer, the slab cache, mempool, small allocator, region, input and output buffers and log-structured region keep the same user-visible contract: live memory is disjoint, intact, properly aligned and of the requested size, streams and truncation are exact, and the reported object counts and used amounts match the live memory; everything is released in the end.",
  ["histories", "inputs"], "every sequence of operations on each of the seven checked allocators",
  "the unit tests run on the checked allocators with most size and statistics assertions switched off.",
  ["small/slab_cache_asan.c", "small/mempool_asan.c", "small/small_asan.c", "small/region_asan.c", "small/obuf_asan.c", "small/lsregion_asan.c", "small/util.c"],
  [("one malloc per object with a header", "small_asan_alloc, small_asan_free")],
  ["addresses, content, statistics"])
p("N02", "Checked (ASAN) allocators detect every out-of-bounds and stale access",
  "Built with the address sanitizer, an access one byte before or after an allocated object, to a freed, truncated, collected or rolled back object, or to unused reserved space after allocation is reported, and freeing an object to the wrong owner or with a wrong size trips an assertion. No access inside a live object is ever reported.",
  ["histories", "inputs"], "every object size and alignment, every byte adjacent to it, every kind of release, on each of the checked allocators",
  "the unit tests check one wrong-pool and wrong-size case per allocator; poisoning around objects is not tested at all.",
  ["small/util.c", "small/region_asan.c", "small/lsregion_asan.c", "small/obuf_asan.c", "small/small_asan.c", "small/mempool_asan.c", "small/slab_cache_asan.c"],
  [("poisoning of red zones and magic headers", "small_asan_alloc, small_asan_reserve, small_asan_free")],
  ["the sanitizer's shadow state of each byte, assertion hook"])
p("U01", "Bit and alignment helpers compute the mathematically right value",
  "For every argument in their domain, rounding up to an alignment gives the smallest multiple not below the argument, rounding to a power of two gives the smallest power of two not below it, and the logarithm gives the largest power not above it.",
  ["inputs"], "every argument and power-of-two alignment", "test/util.c checks small_align on a few values; the others are only used in passing.",
  ["include/small/util.h"],
  [("bit tricks", "small_align, small_round, small_lb")],
  ["return values"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
