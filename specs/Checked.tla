------------------------------ MODULE Checked -------------------------------
(* Slab caches and mempools of the checked builds: every object stands        *)
(* alone in memory, is surrounded by inaccessible bytes and knows its owner.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

VARIABLES
    pools,   \* pool -> size of its objects, 0: there is no pool
    objs,    \* handle -> [own, z, off, size]: live memory
    env      \* size of a slab header, of a page, of the slabs of the arenas
cvars == <<pools, objs, env>>

(* Owners: pools are 1, 2, ..., caches are 101, 102, ..., arenas 201, ...     *)
Cache(c) == 100 + c
Arena(a) == 200 + a
MapAlign == 8
Zone == 1073741824
LowBit(n) == LET B(k) == n % (2 ^ k) = 0 IN
             2 ^ (CHOOSE k \in 0..30 : B(k) /\ (k = 30 \/ ~B(k + 1)))
ObjAlign(n) == IF LowBit(n) > 4096 THEN 4096 ELSE LowBit(n)
SlabAlign == 16
RoundUp(n, a) == ((n + a - 1) \div a) * a
RealSize(n) == RoundUp(n + env.hdr, env.page)

Apart(z, off, size, o) ==
    \/ o.z < z - 1 \/ o.z > z + 1
    \/ (o.z - z) * Zone + o.off >= off + size
    \/ off >= (o.z - z) * Zone + o.off + o.size
Free(z, off, size) == \A h \in DOMAIN objs : Apart(z, off, size, objs[h])

Take(h, own, z, off, size) ==
    /\ h \notin DOMAIN objs
    /\ objs' = objs @@ (h :> [own |-> own, z |-> z, off |-> off, size |-> size])
Give(h) ==
    /\ h \in DOMAIN objs
    /\ objs' = [x \in DOMAIN objs \ {h} |-> objs[x]]
    /\ UNCHANGED <<pools, env>>
Owned(own) == {h \in DOMAIN objs : objs[h].own = own}
Create(p, size) == /\ pools[p] = 0 /\ size > 0
                   /\ pools' = [pools EXCEPT ![p] = size]
                   /\ UNCHANGED <<objs, env>>
Destroy(p) == /\ pools[p] # 0 /\ Owned(p) = {}
              /\ pools' = [pools EXCEPT ![p] = 0]
              /\ UNCHANGED <<objs, env>>
(* A misuse is noticed and changes nothing.                                   *)
Misuse(h) == h \in DOMAIN objs /\ UNCHANGED cvars

Count(p) == Cardinality(Owned(p))
CacheUsed(c) == LET F(h) == objs[h].size IN MapThenSumSet(F, Owned(Cache(c)))
CInv == /\ \A h, k \in DOMAIN objs : h # k =>
             Apart(objs[h].z, objs[h].off, objs[h].size, objs[k])
        /\ \A p \in DOMAIN pools : pools[p] = 0 => Owned(p) = {}
=============================================================================
